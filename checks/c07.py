"""C07: the types of a generated package, as reflection sees them at run time (or a type checker for another target), against the C compiler."""
import os, random, re, shutil, time
import harness, vlib
from capi import goname
from harness import write

INTS = ["char", "signed char", "unsigned char", "short", "short int", "signed short", "unsigned short", "unsigned short int", "short unsigned int", "int", "signed", "signed int", "unsigned",
        "unsigned int", "long", "long int", "signed long", "signed long int", "unsigned long", "unsigned long int", "long unsigned int", "long long", "long long int",
        "signed long long", "unsigned long long", "unsigned long long int", "long long unsigned int", "int unsigned", "int long", "int short", "long int unsigned long"]
FLOATS = ["float", "double"]
TARGET = ["__SIZE_TYPE__", "__PTRDIFF_TYPE__", "__INTPTR_TYPE__", "__UINTPTR_TYPE__"]
STD = ["int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "size_t", "ptrdiff_t", "intptr_t", "uintptr_t", "int_fast16_t", "uint_least8_t", "intmax_t", "uint_fast64_t"]
CLANG = {"386": "i386-linux-gnu", "arm": "arm-linux-gnueabihf", "arm64": "aarch64-linux-gnu", "ppc64le": "powerpc64le-linux-gnu", "s390x": "s390x-linux-gnu", "riscv64": "riscv64-linux-gnu"}
KEYS = {"type", "func", "range", "map", "go", "chan", "select", "package", "import", "interface", "var", "defer", "fallthrough"}


class Ty:
    const = ro = raw = False

    """A C type: spelling and what it is underneath."""
    def __init__(self, c, kind, base=None):
        self.c, self.kind, self.base = c, kind, base or c      # base: the scalar behind typedefs


class Model:
    def __init__(self, seed, native, raw):
        R = self.R = random.Random(seed)
        self.native, self.rawp = native, raw
        self.lines, self.expect, self.go, self.c = [], [], [], []
        self.n = 0
        self.alias, self.enums, self.unions, self.structs, self.funcs, self.cbs = [], [], [], [], [], []
        self.scal = [Ty(c, "sc") for c in INTS + FLOATS + ["_Bool"] + TARGET] + ([Ty(c, "sc") for c in STD] if native else [])
        kinds = ["alias"] * 8 + ["enum"] * 3 + ["union"] * 3 + ["struct"] * 6 + ["cb"] * 2 + ["func"] * 12
        R.shuffle(kinds)
        for k in kinds:
            getattr(self, "mk_" + k)()

    def name(self, hidden=False):
        self.n += 1
        return "%s_%s%d" % ("hid" if hidden else "my", self.R.choice("abcdefg"), self.n)

    def scalar(self, const_ok=True):
        R = self.R
        if self.alias and R.random() < 0.45:
            return R.choice(self.alias)
        return R.choice(self.scal)

    def any(self):
        R, k = self.R, self.R.random()
        if k < 0.1 and self.enums:
            return R.choice(self.enums)
        if k < 0.2 and self.unions and self.native:
            return R.choice(self.unions)
        if k < 0.35 and self.structs:
            return R.choice(self.structs)
        return self.scalar()

    def desc(self, t):
        return {"sc": "{%s}" % t.base, "en": "{e:%s}" % t.c, "un": "{u:%s}" % t.c, "st": "S:" + goname(t.base)}[t.kind]

    # declarations
    def mk_alias(self):
        t = self.scalar()
        hidden = self.R.random() < 0.25
        n = self.name(hidden)
        self.lines.append("typedef %s%s %s;" % (self.R.choice(["", "", "", "const "]) if t.base == t.c else "", t.c, n))
        a = Ty(n, "sc", t.base)
        a.const = t.const or self.lines[-1].startswith("typedef const")
        self.alias.append(a)
        if not hidden:
            self.expect.append(("type " + goname(n), self.desc(a)))
            self.go.append("\tztype(%s, new(%s))" % (q(goname(n)), goname(n)))

    def mk_enum(self):
        n = self.name()
        R = self.R
        vals = R.sample([-7, -1, 0, 1, 2, 100, 40000, 2147483647, -2147483648], 3)
        tag = R.random() < 0.5
        self.lines.append("typedef enum %s{ %s } %s;" % (n + " " if tag else "", ", ".join("MY_%s_%d = %d" % (n.upper(), i, v) for i, v in enumerate(vals)), n))
        self.enums.append(Ty(n, "en"))
        self.expect.append(("type " + goname(n), "{e:%s}" % n))
        self.go.append("\tztype(%s, new(%s))" % (q(goname(n)), goname(n)))

    def mk_union(self):
        n = self.name()
        ts = [t for t in [self.scalar() for _ in range(8)] if not t.const] or self.scal
        ms = ["%s m%d%s;" % (self.R.choice(ts).c, i, self.R.choice(["", "[%d]" % self.R.randrange(1, 30)])) for i in range(self.R.randrange(1, 4))]
        self.lines.append("typedef union %s{ %s } %s;" % (self.R.choice(["", n + " "]), " ".join(ms), n))
        if self.native:
            self.unions.append(Ty(n, "un"))
            self.expect.append(("type " + goname(n), "{u:%s}" % n))
            self.go.append("\tztype(%s, new(%s))" % (q(goname(n)), goname(n)))

    def mk_struct(self):
        R = self.R
        n = self.name()
        raw = self.rawp and R.random() < 0.5
        ms, names, ro = [], [], False
        for i in range(R.randrange(1, 9)):
            t = self.any()
            ro |= t.const or t.ro
            m = R.choice(["a", "b", "width", "x_y", "type", "func", "range", "map"]) + (str(i) if R.random() < 0.9 else "")
            if m in names:
                m = "f%d" % i
            k = R.random()
            d = self.desc(t)
            if t.kind in ("un", "st") and k < 0.5:
                k = 0.1
            if k < 0.45 or (t.kind == "st" and t.raw):
                ms.append("%s %s" % (t.c, m))
            elif k < 0.75:
                dims = [R.randrange(1, 6) for _ in range(R.choice([1, 1, 2, 2, 3]))]
                ar = "".join("[%d]" % x for x in dims)
                ms.append("%s %s%s" % (t.c, m, ar))
                d = ar + d
            elif t.kind == "st" or t.kind == "un":
                ms.append("%s *%s" % (t.c, m))
                d = "^" + d
            elif k < 0.9 and "char" not in t.base:
                depth = R.choice([1, 1, 1, 2, 3])
                ms.append("%s%s %s%s" % (R.choice(["", "const "]) if not t.const else "", t.c, "*" * depth, m))
                d = "^" * depth + d
            elif k < 0.95 and "char" not in t.base:
                ms.append("%s *%s[3]" % (t.c, m))
                d = "[3]^" + d
            else:
                ms.append("void *%s" % m)
                d = "ptr"
            names.append(m)
            if not raw:
                self.expect.append(("field %s.%s" % (goname(n), goname(m)), d))
        self.lines.append("typedef struct %s{ %s; } %s;" % (R.choice(["", n + "_ ", n + " "]), "; ".join(ms), n))
        s = Ty(n, "st", n)
        s.raw, s.names, s.ro = raw, names, ro
        self.structs.append(s)
        if self.native:
            self.expect.append(("layout " + goname(n), s))
            self.go.append("\t%s(%s, new(%s))" % ("zraw" if raw else "zstruct", q(goname(n)), goname(n)))

    def param(self, cb=False):
        """C declaration before and after the name, description"""
        R = self.R
        t = self.any()
        while cb and (t.const or t.ro):       # nor these
            t = self.any()
        d = self.desc(t)
        k = R.random()
        if k < 0.4 or (t.kind in ("st", "un") and k < 0.5):
            return t.c + " ", "", d
        if k < 0.5:
            return "void *", "", "ptr"
        ch = "char" in t.base or t.base in ("int8_t", "uint8_t", "uint_least8_t")
        if k < 0.6:
            return t.c + " ", "[%d]" % R.randrange(1, 9), "^" + d
        depth = 1 if cb or t.kind != "sc" else R.choice([1, 1, 2, 3])
        const = "" if ch or t.const or depth > 1 else R.choice(["", "const "])
        return const + t.c + " " + "*" * depth, "", "^" * depth + d

    def sig(self, cb=False):
        ps = [self.param(cb) for _ in range(self.R.randrange(0, 7))]
        r = ("void ", "void")
        if self.R.random() < 0.6:
            t = self.any()
            while t.const or t.ro:      # cgo does not support it
                t = self.any()
            # results refer to C memory by one pointer
            r = (t.c + " ", self.desc(t)) if self.R.random() < 0.7 or cb or t.kind == "un" else (t.c + " *", "^" + self.desc(t))
        if cb and r[0] != "void ":
            t = self.scalar()
            while t.const:
                t = self.scalar()
            r = (t.c + " ", self.desc(t))
        return ps, r

    def mk_cb(self):
        n = self.name()
        ps, r = self.sig(True)
        self.lines.append("typedef %s(*%s)(%s);" % (r[0], n, ", ".join("%sp%d%s" % (a, i, b) for i, (a, b, _) in enumerate(ps)) or "void"))
        d = "func(%s)%s" % (",".join(p[2] for p in ps), r[1])
        self.expect.append(("type " + goname(n), d))
        self.go.append("\tztype(%s, new(%s))" % (q(goname(n)), goname(n)))
        # the type is generated when a function uses it
        f = self.name()
        self.lines.append("void %s(%s cb);" % (f, n))
        self.c.append("void %s(%s cb) {}" % (f, n))
        self.expect.append(("func " + goname(f), "func(%s)void" % d))
        self.go.append("\tzfunc(%s, %s)" % (q(goname(f)), goname(f)))

    def mk_func(self):
        n = self.name()
        ps, r = self.sig()
        decl = "%s%s(%s)" % (r[0], n, ", ".join("%sp%d%s" % (a, i, b) for i, (a, b, _) in enumerate(ps)) or "void")
        self.lines.append(decl + ";")
        self.c.append("%s { %s }" % (decl, "" if r[0] == "void " else "static %s z; return z;" % r[0]))
        self.expect.append(("func " + goname(n), "func(%s)%s" % (",".join(p[2] for p in ps), r[1])))
        self.go.append("\tzfunc(%s, %s)" % (q(goname(n)), goname(n)))

    # texts
    def header(self):
        return "#ifndef FOO_H\n#define FOO_H\n%s%s\n#endif\n" % ("#include <stdint.h>\n#include <stddef.h>\n" if self.native else "", "\n".join(self.lines))

    def manifest(self, arch, tips):
        raw = [s.c for s in self.structs if s.raw]
        t = ""
        if raw:
            t += "  MemTips:\n" + "".join('    - {target: "^%s$", self: raw}\n' % r for r in raw)
        if tips:
            t += "  PtrTips: {function: [{target: ., default: %s}]}\n" % tips
        return ("GENERATOR:\n  PackageName: foo\n  Includes: [\"foo.h\"]\n%sPARSER:\n%s  IncludePaths: [\"/usr/include\"]\n  SourcesPaths: [\"foo.h\"]\nTRANSLATOR:\n%s"
                "  Rules: {global: [{action: accept, from: \"(?i)^my_\"}, {transform: export}], post-global: [{load: snakecase}]}\n") % (
            "  Options: {StructAccessors: true}\n" if raw and self.R.random() < 0.5 else "", "  Arch: %s\n" % arch if arch else "", t)

    def questions(self):
        """a C file whose arrays have the sizes asked for"""
        out = ["#include \"foo.h\""]
        ask = {}
        for t in self.scal:
            i = len(ask)
            ask["{%s}" % t.base] = i
            out += ["char zs_%d[sizeof(%s)];" % (i, t.c), "char zg_%d[((%s)-1 < (%s)0) + 1];" % (i, t.c, t.c),
                    "char zf_%d[((%s)0.5 != 0) + ((%s)2 == (%s)1) + 1];" % (i, t.c, t.c, t.c)]
        for k, l in (("e", self.enums), ("u", self.unions)):
            for t in l:
                i = len(ask)
                ask["{%s:%s}" % (k, t.c)] = i
                out.append("char zs_%d[sizeof(%s)];" % (i, t.c))
        for s in self.structs if self.native else []:
            out.append("char zs_%s[sizeof(%s)];" % (s.c, s.c))
            for m in s.names:
                out.append("char zo_%s__%s[__builtin_offsetof(%s, %s) + 1];" % (s.c, m, s.c, m))
        return "\n".join(out) + "\n", ask


def q(s):
    return '"%s"' % s


def answers(ctx, d, m, arch):
    text, ask = m.questions()
    write(d, "ask.c", text)
    if arch and arch in CLANG:
        cmd = ["clang", "--target=" + CLANG[arch], "-w", "-S", "-emit-llvm", "-o", "-", "ask.c"]
        r = vlib.run(cmd, cwd=d, env=ctx.env, timeout=60)
        val = {a: int(b) for a, b in re.findall(r"^@(z\w+) = [^\n]*?\[(\d+) x i8\]", r.out.decode(), re.M)}
    else:
        r = vlib.run(["gcc", "-w", "-fcommon", "-S", "-o", "-", "ask.c"], cwd=d, env=ctx.env, timeout=60)
        val = {a: int(b) for a, b in re.findall(r"\.comm\s+(z\w+),(\d+),", r.out.decode())}
    if r.rc != 0 or not val:
        raise vlib.Inconclusive("the C compiler does not answer: " + r.text[-600:])
    tab = {}
    for k, i in ask.items():
        if k.startswith("{e:"):
            tab[k] = "e%d" % (8 * val["zs_%d" % i])
        elif k.startswith("{u:"):
            tab[k] = "[%d]u8" % val["zs_%d" % i]
        else:
            n, g, f = 8 * val["zs_%d" % i], val["zg_%d" % i] - 1, val["zf_%d" % i] - 1
            # bool: 0.5 and 2 both convert to 1; floating point: 0.5 stays
            tab[k] = "bool" if f == 2 else "f%d" % n if f == 1 else "%s%d" % ("u" if k == "{char}" or not g else "i", n)
    return tab, val


def one(ctx, i, seed):
    arch = [None, None, "amd64", None, "386", "arm", None, "arm64", "s390x", None, "ppc64le", "386", None, "riscv64"][i % 14]
    native = arch in (None, "amd64")
    R = random.Random(seed * 7 + 1)
    m = Model(seed, native, native and R.random() < 0.6)
    tips = R.choice(["", "", "arr", "ref", "sref"]) if not native else ""
    d = ctx.mkdir("case%d" % i)
    files = {"foo.h": m.header(), "foo.yml": m.manifest(arch, tips)}
    what = "case %d (%s)" % (i, arch or "native")
    try:
        write(d, "go.mod", "module p\n\ngo 1.21\n")
        for n, t in files.items():
            write(d, n, t)
        r = ctx.gen(d, ["foo.yml"])
        if r.rc != 0:
            ctx.violation("%s: c-for-go %s on a supported API\n%s" % (what, "does not end" if r.timeout else "fails", r.text[-1500:]), files)
            return
        tab, val = answers(ctx, d, m, arch)
        p = os.path.join(d, "foo")
        if native:
            write(p, "foo.h", m.header())
            write(p, "foo.c", '#include "foo.h"\n' + "\n".join(m.c) + "\n")
            write(p, "zz_items.go", "package foo\n\nfunc zitems() {\n%s\n}\n" % "\n".join(m.go))
            harness.copy_rt(p, ["zz_types.go"])
            os.makedirs(os.path.join(d, "cmd"), exist_ok=True)
            harness.copy_rt(os.path.join(d, "cmd"), ["main.go"])
            r = ctx.go(d, ["build", "-o", "drv", "./cmd"], env={"CGO_CFLAGS": "-O0 -w"})
            if r.rc != 0:
                ctx.violation("%s: the generated package does not compile\n%s" % (what, r.text[:2500]), files, copy_dir=p)
                return
            r = vlib.run([os.path.join(d, "drv")], cwd=d, env=ctx.env, timeout=60)
        else:
            r = vlib.run([ctx.typescan, arch, p], cwd=d, env=ctx.env, timeout=120)
        if r.rc != 0:
            ctx.violation("%s: the types cannot be listed: %s" % (what, r.text[-1500:]), files, copy_dir=p)
            return
        got = {}
        for l in r.out.decode().splitlines():
            k, n, t = l.split(" ", 2)
            got[k + " " + n] = t
        bad = []
        for k, e in m.expect:
            if isinstance(e, Ty):
                want = " ".join([str(val["zs_" + e.c])] + ["%s:%d" % ("_" + n if n in KEYS else n, val["zo_%s__%s" % (e.c, n)] - 1) for n in e.names])
                have = got.get(k, "<none>")
                if want != have:
                    bad.append("%s: is %s, C has %s" % (k, have, want))
                ctx.stat("structure layouts compared")
                continue
            want = re.sub(r"\{[^}]*\}", lambda x: tab[x.group()], e)
            have = got.get(k, "<none>")
            if not re.fullmatch(re.sub(r"\\?\be(\d+)", r"[iu]\1", re.escape(want)), have):
                bad.append("%s: is %s, C has %s" % (k, have, want))
            ctx.stat("types compared", len(re.findall(r"[a-z]+\d+|bool|ptr|S:", want)))
        if bad:
            ctx.violation("%s: %d types differ from C\n%s" % (what, len(bad), "\n".join(bad[:12])), files, copy_dir=p)
        ctx.stat("targets %s" % (arch or "native"))
        ctx.evaluated(1, key=(arch, files["foo.h"]), events=len(got), sample={"case": i, "target": arch or "native", "first": ["%s %s" % x for x in list(got.items())[:4]]})
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


def probe_known(ctx):
    """int64_t for a target with 32 bit longs: the macros of the host make it long (known finding)"""
    d = ctx.mkdir("probe")
    write(d, "foo.h", "#include <stdint.h>\ntypedef int64_t my_t;\n")
    write(d, "foo.yml", "GENERATOR:\n  PackageName: foo\nPARSER:\n  Arch: 386\n  IncludePaths: [\"/usr/include\"]\n  SourcesPaths: [\"foo.h\"]\nTRANSLATOR:\n  Rules: {global: [{action: accept, from: \"^my_\"}, {transform: export}]}\n")
    r = ctx.gen(d, ["foo.yml"])
    f = os.path.join(d, "foo", "types.go")
    t = open(f).read() if os.path.exists(f) else ""
    if r.rc == 0 and re.search(r"type My_t int32\b", t):
        if not ctx.known_finding("host-macros", ""):
            ctx.violation("int64_t is int32 with Arch 386", {"types.go": t})
    elif r.rc != 0 or not re.search(r"type My_t int64\b", t):
        ctx.violation("int64_t with Arch 386: rc %s\n%s" % (r.rc, t[-600:]), {"types.go": t})


def check(ctx):
    ctx.build_tool()
    d = ctx.mkdir("typescan")
    for n in ("main.go", "go.mod"):
        shutil.copy(os.path.join(vlib.VERIF, "tools", "typescan", n), d)
    r = ctx.go(d, ["build", "-o", "typescan.bin", "."])
    if r.rc != 0:
        raise vlib.Inconclusive("typescan does not build: " + r.text[-500:])
    ctx.typescan = os.path.join(d, "typescan.bin")
    probe_known(ctx)
    n = int(os.environ.get("VERIF_N") or (42 if ctx.tier == "quick" else 2500))
    budget = 60 if ctx.tier == "quick" and not os.environ.get("VERIF_N") else 780

    def go(i):
        if time.time() - ctx.t0 > budget and ctx.count > 12:
            ctx.stat("cases_not_run_for_time")
            return
        one(ctx, i, ctx.seed * 100003 + i)
    ctx.pmap(go, range(n))
    return ctx.finish(
        "an evaluation is one random header generated for one target; every parameter, result, field, alias, enumeration, union and callback type of the package as reflection (native) or a Go "
        "type checker with the sizes of the target (others) reports it is compared with what gcc, or clang for the target, says of the C type; structure layouts through the C type behind Ref; distinct by header and target",
        ["plain char stands for a byte and the signedness of enumerations is not compared", "fixed width types of <stdint.h> on the native target only"], min_eval=10)
