"""C06: constants of generated packages against the values gcc computes for the same names."""
import os, random, re, shutil, time
import harness, vlib
from harness import write

PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "&": 7, "^": 6, "|": 5}


class E:
    """An expression over unsuffixed ints (every intermediate fits int32)."""

    def __init__(self, text, val, prec):
        self.text, self.val, self.prec = text, val, prec


def expr(R, refs, depth, ok=lambda v: -(1 << 31) <= v < (1 << 31), lit=None):
    if depth <= 0 or R.random() < 0.2:
        if refs and R.random() < 0.4:
            n, v = R.choice(refs)
            return E(n, v, 20)
        return (lit or int_lit)(R)
    for _ in range(30):
        k = R.random()
        if k < 0.18:
            a = expr(R, refs, depth - 1, ok, lit)
            return E("(" + a.text + ")", a.val, 20)
        if k < 0.32:
            a = expr(R, refs, depth - 1, ok, lit)
            op = R.choice("-~+")
            v = {"-": -a.val, "~": ~a.val, "+": a.val}[op]
            if not ok(v):
                continue
            t = a.text if a.prec >= 15 else "(" + a.text + ")"
            if t[0] == op:
                t = "(" + t + ")"
            return E(op + t, v, 15)
        a, b = expr(R, refs, depth - 1, ok, lit), expr(R, refs, depth - 1, ok, lit)
        op = R.choice(list(PREC))
        x, y = a.val, b.val
        if op in "/%":
            if y == 0:
                continue
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            v = q if op == "/" else x - q * y
        elif op in ("<<", ">>"):
            if x < 0 or not 0 <= y < 20:
                continue
            v = x << y if op == "<<" else x >> y
        else:
            v = {"*": x * y, "+": x + y, "-": x - y, "&": x & y, "^": x ^ y, "|": x | y}[op]
        if not ok(v):
            continue
        p = PREC[op]
        ta = a.text if a.prec >= p and R.random() < 0.8 else "(" + a.text + ")"
        tb = b.text if b.prec > p and R.random() < 0.8 else "(" + b.text + ")"
        sp = R.choice(["", " "])
        if tb[0] == op or sp == "" and (tb[0] in "+-" or ta[-1] in "eE"):
            sp = " "
        return E(ta + sp + op + sp + tb, v, p)
    return (lit or int_lit)(R)


def int_lit(R):
    v = R.choice([0, 1, 2, 3, 7, 8, 10, 16, 31, 255, 256, 1000, 65535, R.randrange(1 << 16), R.randrange(1 << 31)])
    return E(R.choice(["%d", "%d", "0x%x", "0X%X", "0x%X", "0%o"]) % v if v else "0", v, 20)


def u_lit(R):
    e = int_lit(R)
    return E(e.text + R.choice("uU"), e.val, 20)


def ll_lit(R):
    v = R.choice([0, 1, 5, 1 << 20, 1 << 33, R.randrange(1 << 40)])
    return E(("%d" if R.random() < 0.6 else "0x%x") % v + R.choice(["ll", "LL", "L", "l"]), v, 20)


def ull_lit(R):
    v = R.choice([0, 1, 5, 1 << 20, 1 << 33, (1 << 64) - 1, R.randrange(1 << 63)])
    return E(("%d" if R.random() < 0.6 else "0x%X") % v + R.choice(["ull", "ULL", "UL", "ul", "uLL", "LLU", "lu"]), v, 20)


def flt_lit(R):
    return R.choice(["%d.%d" % (R.randrange(100), R.choice([0, 5, 25, 125, 1, 3])), ".5", "5.", "%de%d" % (R.randrange(1, 9), R.randrange(-5, 12)),
                     "1.5E+3", "2.5e-3", "0x1p4", "0x1.8p1", "0X1.8P-2", "1E5", "%.3ff" % R.uniform(0, 9), "3.25F", "0.1f", "1e3f", "123456.789"])


def flt_expr(R, refs, depth):
    """dyadic values only, so that C's rounding and Go's exact arithmetic agree."""
    if depth == 0 or R.random() < 0.3:
        if refs and R.random() < 0.4:
            return R.choice(refs)
        v = R.choice([0.5, 1.25, 2.0, 3.75, 16.0, 100.5])
        return (repr(v), v)
    a, b = flt_expr(R, refs, depth - 1), flt_expr(R, refs, depth - 1)
    op = R.choice("+-*")
    v = {"+": a[1] + b[1], "-": a[1] - b[1], "*": a[1] * b[1]}[op]
    return ("(%s %s %s)" % (a[0], op, b[0]), v)


ESC = ["\\n", "\\t", "\\\\", '\\"', "\\r", "\\a", "\\b", "\\f", "\\v", "\\x41", "\\x7f", "\\101", "\\012", "\\377", "\\xe9", "\\?", "\\'", "\\0", "\\7", "\\12", "\\x9"]


def str_lit(R):
    out = []
    for _ in range(R.randrange(0, 12)):
        # after a hex escape only characters that cannot extend it
        if out and out[-1].startswith("\\x"):
            out.append(R.choice(["z", " ", "_", "\\n"]))
        elif R.random() < 0.3:
            out.append(R.choice(ESC))
        else:
            out.append(R.choice("abcxyzGHI 0189%$#@/*'`~{}[]()<>?;:.,|&^-+=!"))
    s = "".join(out).replace("??", "?_")
    return '"%s"' % s


CHARS = ["'a'", "'Z'", "'0'", "' '", "'\\n'", "'\\t'", "'\\\\'", "'\\''", "'\"'", "'\\x41'", "'\\101'", "'~'", "'%'", "'\\r'", "'\\0'", "'\\7'", "'\\12'", "'\\x9'", "'\\?'",
         "'\\\"'", "'\\177'", "L'w'"]

HOSTILE = ["do { } while (0)", "(x)->y", "sizeof(int)", "sizeof(MY_T0)", "(1 ? 2 : 3)", "(2 > 1)", "!0", "(1 && 0)", "", "__attribute__((unused))", "unknown_name",
           "MY_NOWHERE + 1", "static inline", "{1, 2}", "1, 2", "L\"wide\"", "'ab'", "'\\0'", "\"a\" \"b\"", "extern \"C\"", "int", "struct my_s",
           "(int)3.7", "(unsigned char)300", "((void*)0)", "func", "go", "type", "range", "1;", "x = 5", "a.b", "&foo", "*foo", "foo[3]", "foo(1)", "__LINE__",
           "1.5L", "\"\\?\"", "0x", "case 1:", "return", "(-1)", "_Bool", "const", "#", "defined", "nil", "true", "iota", "0b101", "1 +", "( 1", "\"\\'\"", "((MY_T0))", "unsigned long",
           "5 MY_H0", "\"abc\"[1]", "@", "MY_H1"]


# C wraps around, Go's untyped constants do not: left out, or given C's value
WRAP = ["((unsigned long)-1)", "(0u-1)", "(0u - 1u)", "(0ULL-2)", "-1u", "~0u", "(~0u)", "(~0UL)", "(~0ULL >> 1)", "(1u+2ull)", "(1u<<31)", "(1ull << 63)", "((my_t0)~0)",
        "((my_t1)-1)", "(0xFFFFFFFFu + 1u)", "(0x7fffffffu * 4)", "((unsigned char)(255 + 1))", "((short)40000)", "(my_t0)-1", "(3u - 5) / 2", "~0", "(-1L)", "(1L << 40)",
        "0xFFFFFFFF", "(0xFFFFFFFF + 1)", "0x80000000", "-0x80000000", "(1 << 4u)", "(5 / 0)", "(5 % 0)", "(1.5 + 2u)", "(7 / 2.0)", "('a' + 1u)", "(2.5f + 1)", "(1 / 2)", "(1 / 2.)", "(~0xF0000000)", "(0x80000000 << 1)", "(~0x80000000u)", "(0 - 0x80000000)", "((my_t0)200 + 100)", "((my_t0)-1 + 1)", "(~(my_t0)1)", "((my_t1)1 - 2)",
        "((my_fl)1 / 4)", "((my_fl)(1 / 4))", "((my_fl)-(5) / 2)", "((my_t0)(my_fl)3.5)", "0xF0000000", "(0x80000000)", "0x8000000000000000", "((my_t0)250 | 0x100)", "(5 * (my_t0)60)"]

# those of them that are C expressions
USABLE = ["sizeof(int)", "(1 ? 2 : 3)", "(2 > 1)", "!0", "(1 && 0)", "L\"wide\"", "'\\0'", "\"a\" \"b\"", "(int)3.7", "(unsigned char)300", "((void*)0)", "__LINE__", "1.5L",
          "\"\\?\"", "(-1)", "\"\\'\"", "\"abc\"[1]"]


class Gen:
    def __init__(self, seed, full=False):
        R = self.R = random.Random(seed)
        self.lines, self.must, self.may, self.enums, self.kinds = [], {}, {}, [], {}
        self.ntypes = []
        irefs, frefs = [], []
        scal = [("int", "int32"), ("unsigned int", "uint32"), ("long long", "int64"), ("unsigned char", "byte"), ("short", "int16")]
        for i in range(2):
            c, g = scal[3 * i - 2] if full else R.choice(scal)      # unsigned int, unsigned char
            self.lines.append("typedef %s my_t%d;" % (c, i))
            self.ntypes.append(("my_t%d" % i, c))
        self.lines.append("typedef %s my_fl;" % R.choice(["double", "float"]))
        enames = []
        bare = []            # (name, depth)
        decls = []
        k = 0

        def name(p="MY_"):
            nonlocal k
            k += 1
            return p + R.choice(["A", "FLAG", "MAX", "K_X", "val", "Z9"]) + str(k)
        for i in range(R.randrange(10, 26)):
            kind = R.choice(["int", "int", "int", "bare", "bare", "suffix", "uexpr", "llexpr", "flt", "fexpr", "chr", "cexpr", "str", "cast", "par", "alias"])
            n = name()
            if kind == "int":
                t = expr(R, irefs, R.randrange(0, 4)).text
                # a reference to an unparenthesised expression is substituted as text by C: keep operands atomic
                decls.append((n, "(" + t + ")", kind))
                irefs.append((n, self.ev(t, irefs)))
            elif kind == "par":
                e = expr(R, irefs, R.randrange(1, 4))
                decls.append((n, e.text, kind))       # unparenthesised: used by nobody
            elif kind == "bare":
                # C substitutes the text: the operators of several macros bind each other
                ops = [R.choice(bare) if bare and R.random() < 0.6 else (str(R.randrange(1, 4)), 0) for _ in range(2)]
                if max(d for _, d in ops) < 3:
                    pre = R.choice(["", "", "", "-", "~"])
                    t = pre + R.choice(["", " "]).join(
                        [ops[0][0], R.choice(["+", "-", "*", "|", "&", "^", "*", "+"]), ops[1][0]])
                    if R.random() < 0.2:
                        t = "(%s)" % t
                    t = t.replace("--", "- -")
                    decls.append((n, t, kind))
                    bare.append((n, max(d for _, d in ops) + 1))
                elif bare:
                    decls.append((n, R.choice(bare)[0], kind))
                    bare.append((n, 2))
            elif kind == "alias" and irefs:
                m, v = R.choice(irefs)
                decls.append((n, m, kind))
                irefs.append((n, v))
            elif kind == "suffix":
                decls.append((n, R.choice([u_lit, ll_lit, ull_lit])(R).text, kind))
            elif kind == "uexpr":
                e = expr(R, [], 2, lambda v: 0 <= v < (1 << 32), u_lit)
                if "-" not in e.text and "~" not in e.text and "+" != e.text[0]:
                    decls.append((n, "(" + e.text + ")", kind))
            elif kind == "llexpr":
                e = expr(R, [], 2, lambda v: -(1 << 62) < v < (1 << 62), ll_lit)
                decls.append((n, "(" + e.text + ")", kind))
            elif kind == "flt":
                decls.append((n, R.choice(["", "", "-"]) + flt_lit(R), kind))
            elif kind == "fexpr":
                t, v = flt_expr(R, frefs, 2)
                decls.append((n, t, kind))
                if abs(v) < 1e6:
                    frefs.append((n, v))
            elif kind == "chr":
                decls.append((n, R.choice(CHARS), kind))
            elif kind == "cexpr":
                decls.append((n, "(%s + %d)" % (R.choice(CHARS[:4]), R.randrange(5)), kind))
            elif kind == "str":
                decls.append((n, " ".join(str_lit(R) for _ in range(R.choice([1, 1, 1, 1, 2, 3]))), kind))
            elif kind == "cast":
                c, d, e = R.randrange(2, 9), R.randrange(5), R.randrange(1, 4)
                t = R.choice(["((@)%d)" % R.randrange(100), "((@)%d)" % R.randrange(100), "(@)%d" % c, "((@)(%d))" % c, "((@)(%d*(%d+%d)))" % (c, d, e), "((@)(%d+%d)*(%d))" % (c, d, e),
                              "((@)%d*%d)" % (c, d), "(%d*(@)%d+%d)" % (c, d, e), "((@)%d / %d)" % (c, e), "(@)(@)%d" % c, "((@)'a' - (@)%d)" % c, "((@)%d << %d)" % (c, e), "((@)((%d)))" % c])
                if "<<" not in t and R.random() < 0.4:
                    t = t.replace("@", "my_fl")
                decls.append((n, re.sub("@", lambda m: t0, t) if (t0 := R.choice(self.ntypes)[0]) else t, kind))
        R2 = list(range(len(decls)))
        if R.random() < 0.5:
            R.shuffle(R2)            # macros may refer to later ones
        for j in R2:
            n, t, kind = decls[j]
            sp = R.choice([" ", "  ", "\t"])
            self.lines.append("#define %s%s%s%s" % (n, sp, t, R.choice(["", "", " /* note */", " // note"])))
            self.must[n] = kind
            self.kinds[n] = kind
        hostile = []
        for i in range(len(HOSTILE) if full else R.randrange(2, 7)):
            n = name("MY_H")
            t = HOSTILE[i] if full else R.choice(HOSTILE)
            hostile.append((n, t))
            self.lines.append("#define %s %s" % (n, t))
            self.may[n] = "hostile"
        wr = []
        for i in range(len(WRAP) if full else R.randrange(0, 6)):
            n = name("MY_W")
            t = WRAP[i] if full else R.choice(WRAP)
            if not full and wr and R.random() < 0.35:
                t = R.choice(["%s", "(%s)", "(%s + 1)", "(%s & 15)", "(%s - 1)", "-%s", "(%s | 1u)"]) % R.choice(wr)
            wr.append(n)
            self.lines.append("#define %s %s" % (n, t))
            self.may[n] = "wrap"
        self.lines.append("#define MY_FN%d(x) ((x) + 1)" % k)
        self.absent = ["MY_FN%d" % k]
        # enums
        eall = []
        for i in range(R.randrange(2, 6)):
            form = R.choice(["typedef", "anon", "tag", "untagged"])
            mem, v, own, names = [], 0, [], []
            big = R.random() < 0.1
            for j in range(R.randrange(1, 9)):
                n = name()
                q = R.random()
                if q < 0.5:
                    mem.append(n)
                elif q < 0.7:
                    v = R.choice([0, 1, -1, 5, 0x10, 1000, -100, 1 << 30])
                    mem.append("%s = %s" % (n, R.choice([str(v), hex(v)]) if v >= 0 else str(v)))
                elif q < 0.8:
                    e = expr(R, own + irefs + eall, 2)
                    if not -(1 << 30) < e.val < (1 << 30):
                        e = E("3", 3, 20)
                    v = e.val
                    mem.append("%s = %s" % (n, e.text))
                elif q < 0.9 and irefs:
                    m, v = R.choice(irefs)
                    if not -(1 << 30) < v < (1 << 30):
                        m, v = "2", 2
                    mem.append("%s = %s" % (n, m))
                elif q < 0.93:
                    t, v = R.choice([("(my_t0)5", 5), ("5u", 5), ("~0xF0000000", 0xfffffff), ("((my_t1)(2*(3+4)))", 14), ("(0xFFFFFFFF + 3)", 2), ("1u - 2 + 3", 2),
                                     ("0x10u | 1", 17), ("(int)3", 3), ("-0xFFFFFFFF", 1), ("(5 > 3)", 1), ("(2 ? 4 : 5)", 4), ("!7", 0), ("-5 / 2u > 5", 1), ("(unsigned char)300", 44),
                                     ("7ll % 4", 3), ("2*0x80000000 + 7", 7)])
                    mem.append("%s = %s" % (n, t))
                elif q < 0.95:
                    v = ord("x")
                    mem.append("%s = 'x'" % n)
                else:
                    v = 4
                    mem.append("%s = sizeof(int)" % n)
                if "sizeof" not in mem[-1] and not 0.9 <= q < 0.93:
                    own.append((n, v))
                names.append(n)
                v += 1
                self.must[n] = "enum " + form
                self.kinds[n] = "enum " + form
            eall += own
            body = ", ".join(mem) + R.choice(["", ","])
            tn = "my_e%d" % i
            if form == "typedef":
                self.lines.append("typedef enum %s { %s } %s;" % (tn, body, tn))
                for n in names:
                    self.enums.append((n, tn))
            elif form == "untagged":
                self.lines.append("typedef enum { %s } %s;" % (body, tn))
                for n in names:
                    self.enums.append((n, tn))
            elif form == "tag":
                self.lines.append("enum %s { %s };" % (tn, body))
            else:
                self.lines.append("enum { %s };" % body)
            for n in names:
                if R.random() < 0.1:        # tells the preprocessor that the enumerator is there
                    same = [n, "(%s)" % n] + [str(v) for m, v in own if m == n] * 2
                    self.lines.append("#define %s %s" % (n, R.choice(same)))
            if R.random() < 0.5:
                n = name()
                self.lines.append("#define %s %s" % (n, R.choice([R.choice(names), "(%s | %s)" % (R.choice(names), R.choice(names)), "(%s + 2)" % R.choice(names)])))
                self.must[n] = self.kinds[n] = "enumref"
        # const variables; weak, because cgo includes the header in several units
        for i in range(R.randrange(0, 4)):
            n = name()
            c = R.choice(["int", "unsigned int", "long long", "double", "float", "short", "unsigned char", "char"])
            if c in ("double", "float"):
                t = R.choice(["2.5", "0.125", "4.75", "(1e10)", "-2.5", "+0.125", "(-4.75)", "-(1e10)", "- 8.f", "-.5"])
            else:
                lo, hi = {"unsigned char": (0, 255), "char": (0, 127), "short": (-32768, 32767), "unsigned int": (0, 2**32 - 1)}.get(c, (-2**31, 2**31 - 1))
                v = R.choice([lo, hi, 1, 7, R.randint(lo, hi)])
                t = R.choice([str(v), "(%d)" % v, "3 + 4 * 2", "0x41" ])
                if v == -2**31 and "3" not in t:
                    t = "5"
                if c == "unsigned int" and v > 2**31 - 1 and not t.startswith(("3", "0x")):
                    t = "%du" % v
            self.lines.append("const %s %s __attribute__((weak)) = %s;" % (c, n, t))
            self.must[n] = self.kinds[n] = "const " + c

        # code of the header that uses some of the macros, which lets the C front end evaluate them
        if R.random() < 0.7:
            use = [n for n, t, kind in decls if R.random() < 0.4]
            body = ["(void)(%s);" % n if self.kinds[n] == "str" or R.random() < 0.3 else "d %s %s;" % (R.choice(["=", "+="]), n) for n in use]
            for n, t in hostile:
                if t in USABLE and R.random() < 0.5:
                    body.append("(void)(%s);" % n)
            self.lines.append("static inline double zuse(void) { double d = 0; %s return d; }" % " ".join(body))

    def ev(self, t, refs):
        d = dict(refs)
        t2 = re.sub(r"\bMY_\w+", lambda m: "(%d)" % d[m.group(0)], t)
        return self.cv(t2)

    def cv(self, t):
        # C semantics of / and % through a tiny evaluator on Python's AST
        import ast
        t = re.sub(r"\b0X", "0x", t)
        t = re.sub(r"(?<![\w.])0([0-7]+)\b", r"0o\1", t)

        def go(n):
            if isinstance(n, ast.Constant):
                return n.value
            if isinstance(n, ast.UnaryOp):
                v = go(n.operand)
                return {ast.USub: -v, ast.Invert: ~v, ast.UAdd: +v}[type(n.op)]
            a, b = go(n.left), go(n.right)
            o = type(n.op)
            if o in (ast.Div, ast.FloorDiv, ast.Mod):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return a - q * b if o is ast.Mod else q
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.LShift: lambda: a << b,
                    ast.RShift: lambda: a >> b, ast.BitAnd: lambda: a & b, ast.BitXor: lambda: a ^ b, ast.BitOr: lambda: a | b}[o]()
        return go(ast.parse(t.strip(), mode="eval").body)


CPRINT = r"""
#include <stdio.h>
#include <string.h>
static void ps(const char *n, const char *s, size_t len) { printf("%s s ", n); for (size_t i = 0; i < len; i++) printf("%02x", (unsigned char)s[i]); puts(""); }
static void pi(const char *n, long long v) { printf("%s i %lld\n", n, v); }
static void pu(const char *n, unsigned long long v) { printf("%s i %llu\n", n, v); }
static void pd(const char *n, double v) { printf("%s d %a\n", n, v); }
static void pf(const char *n, float v) { printf("%s f %a\n", n, v); }
static void px(const char *n, const void *v) { printf("%s x\n", n); }
#define P(N, V) _Generic((V), char*: ps, const char*: ps, float: pf, double: pd, long double: pd, \
  unsigned int: pu, unsigned long: pu, unsigned long long: pu, _Bool: pi, char: pi, signed char: pi, unsigned char: pi, short: pi, unsigned short: pi, int: pi, long: pi, long long: pi, default: px)
"""


def c_values(ctx, d, names_kinds):
    """name -> ('i', int) | ('d'|'f', hex text) | ('s', bytes), as gcc computes them; names gcc rejects are absent."""
    out = {}

    def prog(names):
        t = ['#include "foo.h"', CPRINT, "int main(void) {"]
        for n in names:
            if names_kinds[n] == "str":
                t.append('ps("%s", %s, sizeof(%s) - 1);' % (n, n, n))
            else:
                t.append('P("%s", %s)("%s", %s);' % (n, n, n, n))
        return "\n".join(t + ["return 0; }"])

    def attempt(names, tag):
        write(d, "v%s.c" % tag, prog(names))
        r = vlib.run(["gcc", "-w", "-O0", "-o", "v%s.bin" % tag, "v%s.c" % tag], cwd=d, env=ctx.env, timeout=60)
        if r.rc != 0:
            return r
        r = vlib.run([os.path.join(d, "v%s.bin" % tag)], cwd=d, env=ctx.env, timeout=20)
        for l in r.out.decode().splitlines():
            p = l.split(" ")
            if p[1] == "s":
                out[p[0]] = ("s", bytes.fromhex(p[2]) if len(p) > 2 else b"")
            elif p[1] == "i":
                out[p[0]] = ("i", int(p[2]))
            elif p[1] in "df":
                out[p[0]] = (p[1], p[2])
        return r
    must = [n for n in names_kinds if names_kinds[n] not in ("hostile", "wrap")]
    r = attempt(must, "m")
    if r.rc != 0:
        return None, r.text
    for i, n in enumerate(n for n in names_kinds if names_kinds[n] in ("hostile", "wrap")):
        attempt_h(ctx, d, n, i, out)
    return out, ""


def attempt_h(ctx, d, n, i, out):
    t = ['#include "foo.h"', CPRINT, 'int main(void) { P("%s", %s)("%s", %s); return 0; }' % (n, n, n, n)]
    write(d, "h%d.c" % i, "\n".join(t))
    r = vlib.run(["gcc", "-w", "-O0", "-o", "h%d.bin" % i, "h%d.c" % i], cwd=d, env=ctx.env, timeout=60)
    if r.rc == 0:
        r = vlib.run([os.path.join(d, "h%d.bin" % i)], cwd=d, env=ctx.env, timeout=20)
        p = r.out.decode("utf-8", "replace").split()
        if r.rc == 0 and len(p) == 3 and p[1] in "idf":
            out[n] = (p[1], int(p[2]) if p[1] == "i" else p[2])


def go_test(names, vals, enums, gname):
    t = ["package foo", "", 'import ("os")', "", "func zzbad(n string) { os.Stdout.WriteString(\"BAD \" + n + \"\\n\") }",
         "func ZZMain() {", "n := 0"]
    for n in names:
        if n not in vals:
            continue
        k, v = vals[n]
        g = gname(n)
        if k == "i":
            t.append("if %s != %d { zzbad(%s) }; n++" % (g, v, '"%s"' % n))
        elif k == "d":
            t.append("if float64(%s) != %s { zzbad(\"%s\") }; n++" % (g, v, n))
        elif k == "f":
            t.append("if float32(%s) != %s { zzbad(\"%s\") }; n++" % (g, v, n))
        else:
            t.append("if %s != \"%s\" { zzbad(\"%s\") }; n++" % (g, "".join("\\x%02x" % b for b in v), n))
    for n, ty in enums:
        if n in names:
            t.append("{ var v %s = %s; _ = v }" % (gname_t(ty), gname(n)))
    t += ['os.Stdout.WriteString("SEEN " + zzitoa(n) + "\\n")', "}",
          "func zzitoa(n int) string { if n < 10 { return string(rune('0'+n)) }; return zzitoa(n/10) + string(rune('0'+n%10)) }"]
    return "\n".join(t) + "\n"


def gname_t(c):
    return "".join(p[:1].upper() + p[1:] for p in c.split("_"))


def gname(c):
    # const names keep their letters; snakecase joins the parts
    parts = c.split("_")
    return parts[0][:1].upper() + parts[0][1:] + "".join("_" + p if not p else p[:1].upper() + p[1:] for p in parts[1:])


def one(ctx, i, seed, rules):
    g = Gen(seed, i in (9, 10))
    ignore = random.Random(seed * 3 + 1).random() < 0.4
    if ignore:
        gone = {n for n in g.must if n.startswith("MY_K_X") and not g.must[n].startswith("const ")}
        text = {m.group(1): m.group(2) for l in g.lines for m in [re.match(r"#define\s+(\w+)\s+(.*)", l)] if m}
        loose = set(gone)
        while True:         # what refers to an ignored name may be left out
            more = {n for n in text if n not in loose and loose & set(re.findall(r"\w+", text[n]))}
            if not more:
                break
            loose |= more
        g.absent += sorted(gone)
        for n in loose:
            if n in g.must:
                del g.must[n]
                if n not in gone:
                    g.may[n] = g.kinds[n]
        g.kinds = {n: k for n, k in g.kinds.items() if n not in gone}
        g.enums = [e for e in g.enums if e[0] not in gone]
    d = ctx.mkdir("case%d" % i)
    try:
        hdr = "#pragma once\n" + "\n".join(g.lines) + "\n"
        write(d, "foo.h", hdr)
        y = """GENERATOR: {PackageName: foo, Includes: ["foo.h"]}
PARSER: {SourcesPaths: ["foo.h"]}
TRANSLATOR:
  ConstRules: {%s}
  Rules:
    global:
      - {action: accept, from: "^my_"}
      - {transform: export}
    const:
      - {action: accept, from: "^MY_"}%s
    public:
      - {action: accept, from: "^(MY|my)_"}
    post-global:
      - {load: snakecase}
""" % (", ".join("%s: %s" % r for r in rules if r[1]), '\n      - {action: ignore, from: "^MY_K_X"}' if ignore else "")
        write(d, "foo.yml", y)
        src = {"foo.h": hdr, "foo.yml": y}
        what = "case %d %s" % (i, dict(rules))
        kinds = dict(g.kinds)
        kinds.update(g.may)
        vals, err = c_values(ctx, d, kinds)
        if vals is None:
            ctx.inconclusive_case("gcc rejects the model of case %d: %s" % (i, err[:300]))
            return
        r = ctx.gen(d, ["foo.yml"])
        if r.rc != 0 or not os.path.isdir(os.path.join(d, "foo")):
            ctx.violation("%s: c-for-go fails (rc %s)\n%s" % (what, r.rc, r.text[-2000:]), src)
            return
        decls = {x["Name"]: x for x in harness.scan(ctx, os.path.join(d, "foo"))[0]["Decls"] if x["Kind"] in ("const", "var")}
        missing = [n for n in g.must if gname(n) not in decls]
        if missing:
            ctx.violation("%s: no constant for %s\n" % (what, [(n, g.must[n], [l for l in g.lines if re.search(r"\b%s\b" % n, l)][:1]) for n in missing[:4]]), src)
        wrongkind = [n for n in g.must if gname(n) in decls and decls[gname(n)]["Kind"] != "const"]
        if wrongkind:
            ctx.violation("%s: declared as variables: %s" % (what, wrongkind[:4]), src)
        extra = [n for n in g.absent if gname(n) in decls]
        if extra:
            ctx.violation("%s: not accepted but declared: %s" % (what, extra), src)
        names = [n for n in list(g.must) + list(g.may) if gname(n) in decls and decls[gname(n)]["Kind"] == "const"]
        write(d, "go.mod", "module p\n\ngo 1.21\n")
        shutil.copy(os.path.join(d, "foo.h"), os.path.join(d, "foo", "foo.h"))
        write(d, "foo/zz.go", go_test(names, vals, g.enums, gname))
        write(d, "cmd/main.go", 'package main\n\nimport "p/foo"\n\nfunc main() { foo.ZZMain() }\n')
        b = ctx.go(d, ["build", "-o", "drv", "./cmd"], env={"CGO_CFLAGS": "-O1 -g -w"})
        if b.rc != 0:
            ctx.violation("%s: the package with these constants does not compile\n%s" % (what, b.text[:1500]), src, copy_dir=os.path.join(d, "foo"))
            return
        x = vlib.run([os.path.join(d, "drv")], cwd=d, env=ctx.env, timeout=60)
        lines = x.out.decode().split("\n")
        bad = [l[4:] for l in lines if l.startswith("BAD ")]
        seen = [int(l[5:]) for l in lines if l.startswith("SEEN ")]
        if bad:
            ctx.violation("%s: %s" % (what, "; ".join("%s is %s in Go, gcc says %s (%s)" % (
                n, decls[gname(n)]["Value"], vals[n], [l for l in g.lines if re.search(r"#define %s\b|\b%s\b" % (n, n), l)][0][:150]) for n in bad[:5])), src)
        elif not seen:
            ctx.violation("%s: the program with these constants does not run: %s" % (what, x.text[:500]), src)
        for n in names:
            ctx.stat("kind " + kinds[n])
        ctx.evaluated(len(names), key=None, events=seen[0] if seen else 0)
        for n in names:
            ctx.distinct.add((kinds[n], decls[gname(n)]["Value"])) if len(ctx.distinct) < 500000 else None
        if i < 3:
            ctx.samples.append({"rules": dict(rules), "constants": [(n, decls[gname(n)]["Value"], str(vals.get(n))) for n in names[:4]]})
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


def known(ctx):
    """Findings recorded in known_findings.json, and the neighbours that must stay right."""
    d = ctx.mkdir("known")
    hdr = """#pragma once
#define MY_P 1+2
#define MY_Q MY_P*2
#define MY_R MY_P+2
const double MY_D1 = -4.75;
const double MY_D2 = 1.0+2.5;
const double MY_D3 = 4.75;
const int MY_D4 = -4;
#define MY_C1 '\\377'
#define MY_C2 '\\177'
"""
    write(d, "foo.h", hdr)
    write(d, "foo.yml", """GENERATOR: {PackageName: foo, Includes: ["foo.h"]}
PARSER: {SourcesPaths: ["foo.h"]}
TRANSLATOR:
  Rules:
    const:
      - {action: accept, from: "^MY_"}
    public:
      - {action: accept, from: "^MY_"}
""")
    r = ctx.gen(d, ["foo.yml"])
    decls = {x["Name"]: x for x in harness.scan(ctx, os.path.join(d, "foo"))[0]["Decls"]} if r.rc == 0 else {}

    def val(n):
        x = decls.get(n)
        return "missing" if x is None else x["Kind"] + " " + re.sub(r"\s", "", x["Value"])
    ctx.evaluated(9, events=9)
    for n, good, key, bad in [("MY_P", ("const 1+2", "const (1+2)", "const 3"), None, None), ("MY_Q", ("const 5", "const 1+2*2"), None, None),
                              ("MY_R", ("const MY_P+2", "const 1+2+2", "const 5"), None, None), ("MY_D1", ("const -4.75",), None, None),
                              ("MY_D2", ("const 3.5", "const 1.0+2.5"), "float-initializer-operator", "var "), ("MY_D3", ("const 4.75",), None, None),
                              ("MY_D4", ("const -4",), None, None),
                              ("MY_C1", ("const -1",), "character-beyond-ascii", "const '\\377'"), ("MY_C2", ("const '\\177'", "const 127"), None, None)]:
        v = val(n)
        if v in good or key and v == bad and ctx.known_finding(key, ""):
            continue
        ctx.violation("%s is generated as %s" % (n, v), {"foo.h": hdr})


def check(ctx):
    ctx.build_tool()
    harness.build_goscan(ctx)
    known(ctx)
    n = int(os.environ.get("VERIF_N") or (64 if ctx.tier == "quick" else 4000))
    budget = 60 if not os.environ.get("VERIF_N") and ctx.tier == "quick" else 780
    R = random.Random(ctx.seed * 31 + 7)
    jobs = []
    for i in range(n):
        rules = [(s, R.choice(["expand", "eval", "cgo", ""])) for s in ("defines", "enum", "decl")]
        if i < 9:
            rules = [(s, ["expand", "eval", "cgo"][(i + j * (i // 3)) % 3]) for j, s in enumerate(("defines", "enum", "decl"))]
        elif i in (9, 10):
            rules = [(s, ["expand", "eval"][i - 9]) for s in ("defines", "enum", "decl")]
        jobs.append((i, ctx.seed * 100003 + i, rules))

    def go(j):
        if time.time() - ctx.t0 > budget and ctx.count > 200:
            ctx.stat("cases_not_run_for_time")
            return
        one(ctx, *j)
    ctx.pmap(go, jobs)
    return ctx.finish(
        "an evaluation is one constant of a generated package compared inside a running Go program with the value gcc computed for the same name; "
        "distinct by kind and Go expression",
        ["amd64 gcc is the reference for C values", "macros whose C value depends on wrap-around, or that mix literal suffixes, may be left out; where they are there they have the value gcc computes",
         "macros that have no Go constant expression may be left out"], min_eval=100)
