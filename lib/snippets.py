"""Hand-written pieces of the supported dialect: (name, C text, names that get no Go declaration).
my_ is replaced by my_<k>_ and MY_ by MY_<k>_, so that pieces can be combined."""
import re

TEXT = dict(
linked="typedef struct my_node { int v; struct my_node *next; } my_node;\nvoid my_push(my_node *n, int v);\nmy_node *my_pop(my_node *n);",
fnptr="typedef int my_fn(int, void*);\nvoid my_set(my_fn *f);",
cbfield="typedef int (*my_cb)(int a);\ntypedef struct my_ops { my_cb open; int x; } my_ops;\nvoid my_use(my_ops *o);\nvoid my_usev(my_ops o);",
anon="typedef struct my_o { int a; union { int b; float c; }; struct { int d; } e; } my_o;\nint my_b(my_o *b);\nmy_o my_c(my_o b);",
inlinefn="static inline int my_sq(int a) { return a*a; }\nint my_d(int a);",
extc="#ifdef __cplusplus\nextern \"C\" {\n#endif\nint my_d(int a);\n#ifdef __cplusplus\n}\n#endif",
chain="typedef int my_a; typedef my_a my_b; typedef my_b my_c;\nmy_c my_d(my_b x, my_a *y);",
voidpp="void my_d(void **p, void *q, const void *r);\nvoid **my_e(void);",
multi="int my_a(int), my_b(int);\nextern int my_c(void);\nint my_f();",
noname="int my_a(int, char *, const char *, float[4]);",
cclash="int my_a(int a, int ca, int cca, int ccca);\nvoid my_b(int *x, int *cx, const char *ccx);\ntypedef int (*my_cb)(int a, int ca, int cca, int *b, int *cb);\nvoid my_c(my_cb f, my_cb cf, my_cb ccf);",
keyw="int my_a(int type, int func, int range, int map, int go, int chan, int select);",
keywf="typedef struct my_s { int type; int func; int range; int string; int error; } my_s;\nint my_a(my_s s, my_s *t);",
globalv="extern int my_gv; extern const char *my_gs;\nint my_a(void);",
selfarr="typedef struct my_s { struct my_s *kids[4]; struct my_s **list; int n; } my_s;\nint my_a(my_s *s);",
strs="typedef struct my_s { char name[32]; char *label; const char *tag; const char *const *l2; } my_s;\nint my_a(my_s *s);",
unions="typedef union my_u { int a; struct { int x, y; } p; char raw[16]; } my_u;\ntypedef struct my_e { int t; my_u u; } my_e;\nint my_poll(my_e *e);\nmy_u my_get(my_u u);",
bool_="#include <stdbool.h>\nbool my_a(bool b, bool *c);",
enumarr="typedef enum { MY_X, MY_Y } my_e;\ntypedef struct my_s { my_e e[3]; my_e *p; } my_s;\nmy_e my_a(my_e *e, my_s *s);",
fwd="struct my_s;\ntypedef struct my_s my_s;\nint my_a(my_s *s);\nstruct my_s { int a; };",
tagonly="struct my_s { int a; float b; };\nint my_a(struct my_s *s, struct my_s v);\nstruct my_s my_b(void);",
enumtag="enum my_e { MY_A, MY_B };\nenum my_e my_a(enum my_e e);",
uniontag="union my_u { int a; double b; };\nint my_a(union my_u *u, union my_u v);",
cbs="typedef struct my_s { int a; } my_s;\ntypedef void (*my_cb)(my_s *s, const char *m, void *u);\nvoid my_set(my_cb cb, void *u);",
cbst="typedef struct my_s { int a; } my_s;\ntypedef my_s (*my_cb)(my_s a, my_s *b);\nvoid my_set(my_cb cb);",
restr="void my_a(char *restrict dst, const char *restrict src);",
noret="_Noreturn void my_a(int c);\nint my_b(int) __attribute__((deprecated));",
cptr="void my_a(int *const p, const int *const q);",
dbl="int my_a(int a);\nint my_a(int a);\ntypedef int my_t;\ntypedef int my_t;",
docs="/** Doc of a.\n * more */\nint my_a(int a); // trailing\n/* x */ typedef int my_t; /* y */",
onlyc="#define MY_A 1\n#define MY_B \"x\"",
nested3="typedef struct my_i { int a; } my_i; typedef struct my_j { my_i i; my_i ia[2]; my_i *ip; } my_j; typedef struct my_k { my_j j; my_j ja[2]; my_j *jp; my_j **jpp; } my_k;\nmy_k my_a(my_k a, my_k *b, my_k **c);",
sretpp="typedef struct my_i { int a; } my_i;\nmy_i **my_a(int n);\nint **my_b(void);\nconst char **my_c(void);",
zero="typedef struct my_s { } my_s;\nint my_a(my_s *s);",
uptr2="uintptr_t my_a(intptr_t p, ptrdiff_t d);",
fn_arr="typedef int (*my_cb)(int);\nvoid my_a(my_cb *cbs, int n);",
fn_ret="typedef int (*my_cb)(int);\nmy_cb my_a(int n);",
volat="int my_a(volatile int *p);\ntypedef struct my_s { volatile int x; } my_s;\nint my_b(my_s *);",
statica="int my_a(int n, int v[static 4]);",
align="typedef struct my_s { _Alignas(16) int a; char b; } my_s;\nint my_b(my_s *, my_s);",
sa="_Static_assert(sizeof(int)==4, \"x\");\nint my_a(int);",
cond="#if defined(MY_NOPE) && MY_NOPE > 3\nint my_gone(int);\n#elif 1\nint my_a(int);\n#else\nint my_gone2(int);\n#endif\n#ifdef __linux__\nint my_b(int);\n#endif",
cont="#define MY_A \\\n  (1 + \\\n   2)\nint \\\nmy_a(int a,\n     int b\n     );",
tokpaste="#define my_DECL(x) int my_f_##x(int a)\nmy_DECL(one);\nmy_DECL(two);",
opq="typedef struct my_h my_h;\nmy_h *my_open(const char *path);\nvoid my_close(my_h *h);\nint my_all(my_h **hs, int n);",
voidh="typedef void *my_h;\nmy_h my_open(void);\nint my_a(my_h h, my_h *hs);",
fptrs="typedef void (*my_cb)(int *a, const float *b, int **c, unsigned char d[4]);\nint my_set(my_cb a, my_cb b);",
flags="typedef enum my_f { MY_F0 = 1 << 0, MY_F1 = 1 << 1, MY_F2 = MY_F0 | MY_F1 } my_f;\ntypedef unsigned int my_mask;\nmy_f my_a(my_mask m);",
mdim="typedef struct my_s { int a[2][3][4]; char n[2][8]; double *p[2]; } my_s;\nint my_a(my_s *s, my_s v);",
pptypes="void my_a(char **a, unsigned char **b);\nvoid my_b(long **a, long long **b, int **c, unsigned int **d);\ntypedef int my_t;\nvoid my_c(my_t **t, short **s, unsigned short **u);",
pparr="typedef struct my_s { char *a[3]; unsigned char *b[3]; int *c[2]; unsigned int *d[2]; signed char e[4]; unsigned char f[4]; char g[4]; } my_s;\nint my_a(my_s *s);",
)
NODECL = dict(globalv=["my_gv", "my_gs"], cond=["my_gone", "my_gone2", "MY_NOPE"], tokpaste=["my_DECL", "my_f_"], volat=[])
EXTRA = dict(tokpaste=["my_f_one", "my_f_two"])


def snippet(key, k):
    """-> C text, expected C names of functions/types, expected C names of constants."""
    t = TEXT[key]

    def ren(s):
        return re.sub(r"\b(my|MY)_", lambda m: "%s_%s_" % (m.group(1), k), s)
    names = set(re.findall(r"\bmy_\w+", re.sub(r"(?s:/\*.*?\*/)|//.*", "", t))) - set(NODECL.get(key, [])) | set(EXTRA.get(key, []))
    consts = set(re.findall(r"\bMY_\w+", t)) - set(NODECL.get(key, []))
    return ren(t), {ren(n) for n in names}, {ren(n) for n in consts}
