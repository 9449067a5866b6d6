"""C22: length fields and the memory bound, judged on lengths, capacities and elements that Go sees after C changed a structure."""
import os, random, time
import harness

# element types: C type, Go conversion of element e to int64, values fit
ELEMS = {
    "int": ("int", "int64(e)", "(int)(i * 7 - 3000)", lambda i: i * 7 - 3000),
    "uint": ("unsigned int", "int64(e)", "i + 4000000000u", lambda i: i + 4000000000),
    "short": ("short", "int64(e)", "(short)(i - 99)", lambda i: i - 99),
    "uchar": ("unsigned char", "int64(e)", "(unsigned char)(i * 3)", lambda i: i * 3 % 256),
    "schar": ("signed char", "int64(e)", "(signed char)(i % 100 - 50)", lambda i: i % 100 - 50),
    "char": ("char", "int64(e)", "(char)(i % 90 + 32)", lambda i: i % 90 + 32),
    "cchar": ("const char", "int64(e)", "(char)(i % 90 + 32)", lambda i: i % 90 + 32),
    "llong": ("long long", "int64(e)", "i * 100000000000ll", lambda i: i * 100000000000),
    "float": ("float", "int64(e * 4)", "i / 4.0f", lambda i: i),
    "double": ("const double", "int64(e * 8)", "i / 8.0 - 5", lambda i: i - 40),
    "alias": ("my_alias", "int64(e)", "i + 11", lambda i: i + 11),
    "kind": ("my_kind", "int64(e)", "(my_kind)(i % 3)", lambda i: i % 3),
    "ptr": ("void *", "int64(uintptr(e))", "(void *)(size_t)(i * 16)", lambda i: i * 16),
    "i64": ("int64_t", "int64(e)", "-i", lambda i: -i),
}
# length types and the greatest length used
LENS = {"int": 600, "unsigned int": 600, "short": 600, "unsigned char": 255, "signed char": 127, "unsigned short": 600, "long": 600, "unsigned long": 600, "size_t": 600,
        "uint32_t": 600, "int64_t": 600, "my_alias": 600, "my_kind": 2, "uint8_t": 255, "long long": 600}
NAMES = ["data", "buf", "items", "type", "range", "x", "list_of", "p0", "func", "map", "vals", "a_b", "Out", "go", "chan", "k2"]
LNAMES = ["len", "count", "size", "n", "num_items", "var", "package", "n0", "total", "lenB", "const_n", "default_n", "import", "i_len", "fallthrough", "w"]
BOUNDS = ["0x%xfffffff" % i for i in range(1, 16)]
BAD_BOUNDS = ["0x1000", "2147483647", "0x7FFFFFFF", "0xfffffffff", "junk", "0", "-1", "0x1ffffff"]


def goname(n):
    return "".join(p[:1].upper() + p[1:] for p in n.split("_"))


class Struct:
    pass


class Case:
    def __init__(self, seed):
        R = self.R = random.Random(seed)
        self.bound = R.choice([None, None] + BOUNDS + R.sample(BAD_BOUNDS, 2))
        self.cap = int(self.bound, 16) if self.bound in BOUNDS else 0x7fffffff
        self.inner = None
        self.structs = []
        n = R.randrange(2, 6)
        for i in range(n):
            self.mk(i)
        self.raw = self.mk(n, raw=True) if R.random() < 0.4 else None
        self.drv, self.expect = [], []
        self.body = {}
        self.k = self.checked = self.tied = 0
        for s in self.structs:
            self.state(s)
        for i in range(R.randrange(14, 30)):
            self.step(R.choice(self.structs))
        for _ in range(R.randrange(1, 4)):
            self.ret()
        for _ in range(R.randrange(1, 4)):
            self.callback()
        if self.raw:
            self.rawstep()

    def mk(self, i, raw=False):
        R = self.R
        s = Struct()
        s.name = "my_s%d" % i
        names, lnames = R.sample(NAMES, len(NAMES)), R.sample(LNAMES, len(LNAMES))
        s.ptrs, s.lens, plain = [], [], []      # (name, elem, length field or None), (name, type)
        for _ in range(R.randrange(1, 5)):
            l = (lnames.pop(), R.choice(list(LENS)))
            s.lens.append(l)
            for _ in range(R.choice([0, 1, 1, 1, 2])):
                s.ptrs.append((names.pop(), R.choice(list(ELEMS)), l[0]))
        for _ in range(R.randrange(0, 3)):
            s.ptrs.append((names.pop(), R.choice(list(ELEMS)), None))
        for _ in range(R.randrange(0, 3)):
            plain.append((names.pop(), R.choice(["int", "double", "char", "my_kind"])))
        f = [(p[0], "%s *%s;" % (ELEMS[p[1]][0], p[0])) for p in s.ptrs] + [(a, "%s %s;" % (t, a)) for a, t in s.lens + plain]
        s.inner = None
        if self.inner and not raw and R.random() < 0.5:
            s.inner = self.inner
            f.append(("nested", "%s nested;" % self.inner.ctype))
        R.shuffle(f)
        s.fields = " ".join(x[1] for x in f)
        s.form = R.randrange(5)
        s.key = s.name
        s.ctype = s.name
        if raw:
            s.form = 0
            return s
        if s.form == 4:
            s.ctype = "struct " + s.name
        if not s.inner and R.random() < 0.5:
            self.inner = s
        self.structs.append(s)
        return s

    def header(self):
        o = ["#pragma once", "#include <stddef.h>", "#include <stdint.h>", "typedef unsigned int my_alias;", "typedef enum { my_k0, my_k1, my_k2 } my_kind;"]
        for s in self.structs + ([self.raw] if self.raw else []):
            o.append(["typedef struct %s { %s } %s;" % (s.name, s.fields, s.name), "typedef struct { %s } %s;" % (s.fields, s.name),
                      "struct %s { %s };\ntypedef struct %s %s;" % (s.name, s.fields, s.name, s.name), "typedef struct tag_%s { %s } %s;" % (s.name, s.fields, s.name),
                      "struct %s { %s };" % (s.name, s.fields)][s.form])
        for s in self.structs:
            o += ["%s *my_new_%s(void);" % (s.ctype, s.name), "%s my_val_%s(void);" % (s.ctype, s.name), "void my_set_%s(%s *s);" % (s.name, s.ctype),
                  "typedef void (*my_see_%s)(%s *s);" % (s.name, s.ctype), "void my_show_%s(my_see_%s f);" % (s.name, s.name)]
        for e in sorted(ELEMS):
            o += ["%s *my_ret_%s(void);" % (ELEMS[e][0], e), "typedef void (*my_cb_%s)(%s *v, int n);" % (e, ELEMS[e][0]), "void my_call_%s(my_cb_%s f);" % (e, e)]
        if self.raw:
            o.append("%s *my_new_%s(void);" % (self.raw.name, self.raw.name))
        return "\n".join(o) + "\n"

    def manifest(self):
        R = random.Random(1)
        o = ["---", "GENERATOR:", "  PackageName: foo", '  Includes: ["foo.h"]']
        if self.raw:
            o.append("  Options: {StructAccessors: true}")
        o += ["PARSER:", '  IncludePaths: ["/usr/include"]', '  SourcesPaths: ["foo.h"]', "TRANSLATOR:", "  ConstCharIsString: false", "  LenFields:"]
        o += ["    %s.%s: %s" % (s.key, p[0], p[2]) for s in self.structs + ([self.raw] if self.raw else []) for p in s.ptrs if p[2]]
        o.append("    my_none.data: len")
        if self.raw:
            o.append("  MemTips: [{target: ^%s$, self: raw}]" % self.raw.name)
        o += ["  PtrTips:", "    function:"]
        for s in self.structs + ([self.raw] if self.raw else []):
            o += ["      - {target: ^my_new_%s$, self: ref}" % s.name]
        for s in self.structs:
            o += ["      - {target: ^my_set_%s$, tips: [ref]}" % s.name, "      - {target: ^my_see_%s$, tips: [ref]}" % s.name]
        o += ["      - {target: ^my_ret_, self: arr}"]
        o += ["  Rules:", "    global:", '      - {action: accept, from: "^my_"}', "      - {transform: export}",
              "    private:", "      - {transform: unexport}", "    post-global:", "      - {load: snakecase}"]
        return "\n".join(o) + "\n"

    # the objects: Go variables g<struct>, what C stored last, the length Go sees
    def state(self, s):
        s.have = False

    def content(self, s):
        """C statements that fill *s, and what was stored."""
        R = self.R
        C, st = [], {}
        for l, t in s.lens:
            st[l] = R.choice([0, 1, 2, R.randrange(LENS[t] + 1), LENS[t]])
            st[l] = min(st[l], LENS[t])
        for p, e, l in s.ptrs:
            n = st[l] if l else 0
            off = R.randrange(60)
            null = n == 0 and R.random() < 0.3
            st[p] = None if null else off
            C.append("s->%s = %s;" % (p, "0" if null else "b_%s + %d" % (e, off)))
        for l, t in s.lens:
            C.append("s->%s = (%s)%d;" % (l, t, st[l]))
        if s.inner:
            c, st["nested"] = self.content(s.inner)
            C += [x.replace("s->", "s->nested.", 1) for x in c]
        return C, st

    def look(self, s, v, st, lens, tag):
        """Go statements that log what v holds after Deref, with the prediction; lens: the lengths the untied slices had."""
        for p, e, l in s.ptrs:
            n = st[l] if l else lens.get(p, 0)
            g = goname(p)
            self.drv.append("look(%s, len(%s.%s), cap(%s.%s), %s, func(i int) int64 { e := %s.%s[i]; return %s })" % (
                '"%s.%s"' % (tag, p), v, g, v, g, "true" if l else "false", v, g, ELEMS[e][1]))
            self.checked += 1
            self.tied += bool(l)
            off = st[p]
            x = "%s.%s %d" % (tag, p, n)
            x += " room" if l else " %d" % self.cap
            if n:
                f = ELEMS[e][3]
                x += " %d %d %d" % (f(off), f(off + n - 1), sum(f(off + j) for j in range(n)))
            self.expect.append(x)
        for l, t in s.lens:
            self.drv.append('zt("%s.%s "); zi(int64(%s.%s)); znl()' % (tag, l, v, goname(l)))
            self.expect.append("%s.%s %d" % (tag, l, st[l]))
        if s.inner:
            self.drv.append("%s.Nested.Deref()" % v)
            self.look(s.inner, v + ".Nested", st["nested"], {}, tag + ".nested")

    def c(self, fn, C):
        b = self.body.setdefault(fn, [])
        b.append(C)
        return "zzsetcall(%d)" % (len(b) - 1)

    def step(self, s):
        R = self.R
        self.k += 1
        tag, v = "t%d" % self.k, "g" + goname(s.name)
        C, st = self.content(s)
        g = goname(s.name)
        k = R.random()
        if not s.have or k < 0.2:
            self.drv += [self.c("my_new_" + s.name, C), "%s = MyNew%s()" % (v, g), "%s.Deref()" % v]
            s.have, s.len = True, {}
        elif k < 0.35:
            w = "w%d" % self.k
            self.drv += [self.c("my_val_" + s.name, C), "%s := MyVal%s()" % (w, g), "%s.Deref()" % w]
            self.look(s, w, st, {}, tag)
            return
        elif k < 0.5:
            self.drv += [self.c("my_show_" + s.name, C), "see%s = func(s *%s) {\ns.Deref()" % (g, g)]
            self.look(s, "s", st, {}, tag)
            self.drv += ["}", "MyShow%s(func(s *%s) { see%s(s) })" % (g, g, g)]
            return
        else:
            self.drv += [self.c("my_set_" + s.name, C), "MySet%s(%s)" % (g, v), "%s.Deref()" % v]
        # the memory behind a slice of a length the program set may have gone: set it again after the look
        self.look(s, v, st, {p: n for p, n in s.len.items() if st[p] is not None}, tag) if all(st[p] is not None or not s.len.get(p) for p, _, l in s.ptrs if not l) else self.reset(s, v, st, tag)
        s.len = {}
        for p, e, l in s.ptrs:
            if st[p] is None:
                continue
            if R.random() < 0.4:        # the program sets a length, of tied slices too
                n = R.randrange(0, 90)
                self.drv.append("%s.%s = %s.%s[:%d]" % (v, goname(p), v, goname(p), n))
                if not l:
                    s.len[p] = n
            elif not l:
                self.drv.append("%s.%s = %s.%s[:0]" % (v, goname(p), v, goname(p)))

    def reset(self, s, v, st, tag):
        for p, e, l in s.ptrs:
            if not l and st[p] is None:
                s.len[p] = 0
                self.drv.append("zero(unsafe.Pointer(&%s.%s))" % (v, goname(p)))
        self.look(s, v, st, s.len, tag)

    def ret(self):
        R = self.R
        e = R.choice(list(ELEMS))
        off, n = R.randrange(60), R.randrange(1, 90)
        self.k += 1
        tag = "t%d" % self.k
        self.drv += [self.c("my_ret_" + e, ["return b_%s + %d;" % (e, off)]), "{", "r := MyRet%s()" % goname(e),
                     'zt("%s "); zi(int64(len(r))); zt(" "); zi(int64(cap(r))); r = r[:%d]; { e := r[%d]; zt(" "); zi(%s) }; znl()' % (tag, n, n - 1, ELEMS[e][1]), "}"]
        self.expect.append("%s 0 %d %d" % (tag, self.cap, ELEMS[e][3](off + n - 1)))
        self.checked += 1

    def callback(self):
        R = self.R
        e = R.choice(list(ELEMS))
        off, n = R.randrange(60), R.randrange(1, 90)
        self.k += 1
        tag = "t%d" % self.k
        G = goname(e)
        self.drv += [self.c("my_call_" + e, ["f(b_%s + %d, %d);" % (e, off, n)]),
                     "cb%s = func(l, c int, at func(int) int64, n int) {" % G, 'zt("%s "); zi(int64(l)); zt(" "); zi(int64(c)); zt(" "); zi(at(n - 1)); znl()' % tag, "}",
                     "MyCall%s(pass%s)" % (G, G)]
        self.expect.append("%s 0 %d %d" % (tag, self.cap, ELEMS[e][3](off + n - 1)))
        self.checked += 1

    def rawstep(self):
        s = self.raw
        C, st = self.content(s)
        self.k += 1
        self.drv += [self.c("my_new_" + s.name, C), "q := MyNew%s()" % goname(s.name)]
        for p, e, l in s.ptrs:
            # the accessor gives the member itself, of unknown length
            self.drv.append('{ a := q.Get%s(); zt("raw %s "); zi(int64(len(a))); zt(" "); zi(int64(cap(a))); znl() }' % (goname(p), p))
            self.expect.append("raw %s 0 %d" % (p, self.cap))
            self.checked += 1
        for l, t in s.lens:
            self.drv.append('zt("raw %s "); zi(int64(*q.Get%s())); znl()' % (l, goname(l)))
            self.expect.append("raw %s %d" % (l, st[l]))

    def impl(self):
        o = ['#include "foo.h"', '#include "vrt.h"']
        for e in sorted(ELEMS):
            t = ELEMS[e][0].replace("const ", "")
            o.append("static %s b_%s[800];" % (t, e))
        o.append("__attribute__((constructor)) static void fill(void) { for (long long i = 0; i < 800; i++) {")
        o += ["b_%s[i] = %s;" % (e, ELEMS[e][2]) for e in sorted(ELEMS)] + ["} }"]
        for s in self.structs + ([self.raw] if self.raw else []):
            t, c = s.name, s.ctype
            o.append("static %s o_%s[32]; static int n_%s;" % (c, t, t))
            for fn, sig, pre, post in [("my_new_" + t, "%s *my_new_%s(void)" % (c, t), "%s *s = &o_%s[n_%s++ %% 32];" % (c, t, t), "return s;"), ("my_val_" + t, "%s my_val_%s(void)" % (c, t), "%s v = {0}, *s = &v;" % c, "return v;"),
                                       ("my_set_" + t, "void my_set_%s(%s *s)" % (t, c), "", ""), ("my_show_" + t, "void my_show_%s(my_see_%s f)" % (t, t), "%s v = {0}, *s = &v;" % c, "f(s);")]:
                if s is self.raw and "my_new" not in fn:
                    continue
                o += ["%s {" % sig, pre, "switch (v_getcall()) {"]
                for j, b in enumerate(self.body.get(fn, [])):
                    o += ["case %d: {" % j] + b + ["break; }"]
                o += ["}", post, "}"]
        for e in sorted(ELEMS):
            for fn, sig, post in [("my_ret_" + e, "%s *my_ret_%s(void)" % (ELEMS[e][0], e), "return 0;"), ("my_call_" + e, "void my_call_%s(my_cb_%s f)" % (e, e), "")]:
                o += [sig + " {", "switch (v_getcall()) {"]
                for j, b in enumerate(self.body.get(fn, [])):
                    o += ["case %d: {" % j] + b + ["break; }"]
                o += ["}", post, "}"]
        return "\n".join(o) + "\n"

    def driver(self):
        o = ['''package foo

import (
	"runtime"
	"unsafe"
)

func zero(p unsafe.Pointer) { (*(*[3]uintptr)(p))[1] = 0 }

func look(name string, n, c int, tied bool, at func(int) int64) {
	zt(name + " ")
	zi(int64(n))
	if !tied {
		zt(" ")
		zi(int64(c))
	} else if c >= n {
		zt(" room")
	} else {
		zt(" no room")
	}
	if n > 0 && n < 700 {
		var s int64
		for i := 0; i < n; i++ {
			s += at(i)
		}
		zt(" ")
		zi(at(0))
		zt(" ")
		zi(at(n - 1))
		zt(" ")
		zi(s)
	}
	znl()
}
''']
        for s in self.structs:
            g = goname(s.name)
            o += ["var g%s *%s" % (g, g), "var see%s func(s *%s)" % (g, g)]
        for e in sorted(ELEMS):
            G = goname(e)
            o.append("var cb%s func(l, c int, at func(int) int64, n int)" % G)
            ty = {"int": "int32", "uint": "uint32", "short": "int16", "uchar": "byte", "schar": "int8", "char": "byte", "cchar": "byte", "llong": "int64", "float": "float32", "double": "float64",
                  "alias": "MyAlias", "kind": "MyKind", "ptr": "unsafe.Pointer", "i64": "int64"}[e]
            o.append("func pass%s(v []%s, n int32) { cb%s(len(v), cap(v), func(i int) int64 { e := v[:n][i]; return %s }, int(n)) }" % (G, ty, G, ELEMS[e][1]))
        o += ["func ZZMain() {", "runtime.LockOSThread()", "_ = unsafe.Pointer(nil)"] + self.drv + ["}"]
        return "\n".join(o) + "\n"


def one(ctx, i):
    c = Case(ctx.seed * 100003 + i)
    o = harness.case(ctx, c, "case%d" % i, gen_args=["-maxmem", c.bound] if c.bound is not None else [], what="case %d (bound %s)" % (i, c.bound), key=c.manifest() + c.header())
    if o and o.ok:
        ctx.stat("slices looked at", c.checked)
        ctx.stat("of these with a length field", c.tied)
        ctx.stat("bound " + str(c.bound))
        if i < 3:
            ctx.samples.append({"case": i, "bound": c.bound, "events": c.expect[:5]})


def check(ctx):
    ctx.build_tool()
    quick = ctx.tier == "quick"
    n = int(os.environ.get("VERIF_N") or (56 if quick else 3000))
    budget = 60 if quick and not os.environ.get("VERIF_N") else 780

    def go(i):
        if time.time() - ctx.t0 > budget and ctx.count >= 12:
            ctx.stat("cases_not_run_for_time")
            return
        one(ctx, i)
    ctx.pmap(go, range(n))
    return ctx.finish(
        "an evaluation is one package generated with random length fields and a random memory bound, whose C side stores pointers and lengths in structures step by step; "
        "length, capacity and elements of every slice after each step are compared with the script; distinct by manifest and header",
        ["C stores a length of 0 where it stores a null pointer", "element types are plain: slices of structures take no length field"], min_eval=5)
