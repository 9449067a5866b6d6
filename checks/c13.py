"""C13: pointer and type tips against a reference model of the documented lookup."""
import collections, os, random, re, shutil, time
import harness, profiles, vlib
from harness import write

SCAL = [("int", "int32"), ("unsigned int", "uint32"), ("short", "int16"), ("unsigned short", "uint16"), ("signed char", "int8"),
        ("float", "float32"), ("double", "float64"), ("long long", "int64"), ("uint8_t", "byte"), ("uint64_t", "uint64"),
        ("long", "int64"), ("size_t", "uint64")]
PTR = ["arr", "ref", "sref"]


def yq(s):
    return "'%s'" % s.replace("'", "''")


def export(n):
    return "".join(p[:1].upper() + p[1:] for p in n.split("_"))


class Entry:
    """One tip entry: target regular expression, tips, default, self."""

    def __init__(self, target, tips, default=None, self_=None):
        self.target, self.tips, self.default, self.self_ = target, tips, default, self_

    def yaml(self):
        o = ["target: %s" % yq(self.target)]
        if self.tips is not None:
            o.append("tips: [%s]" % ", ".join(str(t or 0) for t in self.tips))
        if self.default:
            o.append("default: " + self.default)
        if self.self_:
            o.append("self: " + self.self_)
        return "{%s}" % ", ".join(o)


class Tips:
    def __init__(self):
        self.by = collections.OrderedDict()

    def add(self, scope, e):
        self.by.setdefault(scope, []).append(e)

    def find(self, scope, name):
        order = list(self.by.get(scope, []))
        if scope == "type":
            order += self.by.get("struct", [])
        for e in order + self.by.get("any", []):
            if re.search(e.target, name):
                return e
        return None

    def at(self, scope, name, i):
        e = self.find(scope, name)
        if not e:
            return None
        if e.tips and i < len(e.tips) and e.tips[i]:
            return e.tips[i]
        return e.default

    def self_(self, scope, name):
        e = self.find(scope, name)
        return (e.self_ or e.default) if e else None

    def yaml(self, R):
        out = []
        for s in R.sample(list(self.by), len(self.by)):
            out.append("    %s:" % s)
            out += ["      - " + e.yaml() for e in self.by[s]]
        return out


class Ty:
    """kind: prim, alias, struct, enum, opq, union, cstr, voidp, cb; d: pointer depth; arr: array parameter."""

    def __init__(self, kind, c, base, d=0, arr=None, named=None):
        self.kind, self.c, self.base, self.d, self.arr, self.named = kind, c, base, d, arr, named

    def decl(self, n):
        if self.arr:
            return "%s %s[%d]" % (self.c, n, self.arr)
        return "%s %s%s" % (self.c, "*" * self.d, n)

    def go(self, ptr, typ, cstring):
        """The Go type, or None when the combination is not supported."""
        k = self.kind
        if k == "voidp":
            return "unsafe.Pointer"
        if k == "cb":
            return self.base
        if k == "cstr":
            if cstring or typ == "string":
                return "string"
            return {"arr": "[]byte"}.get(ptr)
        b = self.named if k == "alias" and typ != "plain" else self.base
        d = 1 if self.arr else self.d
        if d == 0:
            return b
        if d == 1:
            return {"arr": "[]" + b, "ref": "*" + b, "sref": "*" + b}.get(ptr)
        if ptr == "arr" and not (k == "opq"):
            return "[]" * d + b
        return None


class Case:
    def __init__(self, seed):
        R = self.R = random.Random(seed)
        self.n = 0
        self.cstring = R.random() < 0.7
        self.alias = [(self.cn(),) + R.choice(SCAL) for _ in range(3)]
        self.enums = [self.cn() for _ in range(2)]
        self.unsigned = set()
        self.opqs = [self.cn()]
        self.unions = [self.cn()]
        self.cbs, self.structs, self.funcs = [], [], []
        self.structs = [[self.cn(), R.random() < 0.6, []] for _ in range(R.randrange(2, 5))]
        names = [self.cn() for _ in range(R.randrange(4, 9))]
        cbn = [self.cn() for _ in range(2)]
        self.ptr, self.typ = Tips(), Tips()
        fn = names + cbn
        self.mk_tips(self.ptr, PTR, fn)
        self.mk_tips(self.typ, ["plain", "named"] + ([] if self.cstring else ["string"]), fn)
        self.typeself = set()
        for a in self.alias:
            if R.random() < 0.25:
                self.typ.add("type", Entry("^%s$" % a[0], None, self_=R.choice(["plain", "named"])))
        self.typeself = {a[0] for a in self.alias if self.typ.self_("type", a[0])}
        for e in self.enums:
            if R.random() < 0.4:
                self.typ.add("enum", Entry("^(%s|%s)$" % (e, export(e)), ["unsigned"]))
                self.unsigned.add(e)
        for c in cbn:
            ps = [self.pick("function", c, i, "cbparam") for i in range(R.randrange(0, 4))]
            self.cbs.append((c, ps))
        for f in names:
            np = R.randrange(0, 6)
            ps, seen = [], set()
            for i in range(np):
                t = self.pick("function", f, i, "param", seen)
                if t[0].kind == "cb":
                    seen.add(t[0].base)
                ps.append(t)
            self.funcs.append((f, ps, self.pick_ret(f), None))
        for _ in range(R.choice([0, 1, 1, 2])):
            self.mk_inst()
        for s in self.structs:
            s[2] = [("f%d" % i,) + self.pick("type", s[0], i, "field") for i in range(R.randrange(1, 6))]

    def mk_inst(self):
        """A function with an instance parameter: a method of the type the parameter points to."""
        R = self.R
        f = self.cn() + "i"
        np = R.randrange(1, 5)
        at = R.randrange(np)
        k = R.choice(["struct", "struct", "opq", "alias"])
        if k == "struct":
            s = R.choice(self.structs)
            t = Ty("struct", s[0] if s[1] else "struct " + s[0], export(s[0]), 1)
        elif k == "opq":
            t = Ty("opq", self.opqs[0], export(self.opqs[0]), 1)
        else:
            al = [a for a in self.alias if a[0] not in self.typeself]
            if not al:
                return
            n, c, g = R.choice(al)
            t = Ty("alias", n, g, 1, None, export(n))
        tips = [R.choice(PTR + [None]) for _ in range(np)]
        tips[at] = "inst"
        self.ptr.by.setdefault("function", []).insert(0, Entry("^%s$" % f, tips))
        if self.typ.find("function", f):
            self.typ.by.setdefault("function", []).insert(0, Entry("^%s$" % f, [None]))
        ps = [self.pick("function", f, i, "param", {x[0] for x in self.cbs}) if i != at else (t, "*" + (t.named or t.base)) for i in range(np)]
        self.funcs.append((f, ps, self.pick_ret(f), at))

    def cn(self):
        self.n += 1
        return "my_%s%s%d" % (self.R.choice(["get", "set", "box", "row", "item", "net"]), self.R.choice(["", "_a", "_b"]), self.n)

    def target(self, names):
        R = self.R
        n = R.choice(names)
        k = R.random()
        if k < 0.6:
            return "^%s$" % n
        if k < 0.75:
            return "^" + re.sub(r"\d+$", "", n)
        if k < 0.85:
            return n[3:7]
        if k < 0.95:
            return "%s$" % n[-1]
        return "."

    def mk_tips(self, t, words, fn):
        R = self.R
        sn = [s[0] for s in self.structs]
        for _ in range(R.randrange(0, 7)):
            scope = R.choice(["function", "function", "struct", "type", "any"])
            pool = fn if scope == "function" else sn if scope in ("struct", "type") else fn + sn
            tips = [R.choice(words + [None]) for _ in range(R.randrange(0, 6))] if R.random() < 0.85 else None
            t.add(scope, Entry(self.target(pool), tips, R.choice(words) if R.random() < 0.3 else None,
                               R.choice(words) if R.random() < 0.3 and scope != "type" else None))

    def any_type(self, where):
        R = self.R
        k = R.choice(["prim"] * 4 + ["alias"] * 4 + ["struct"] * 3 + ["enum"] * 2 + ["opq", "union", "cstr", "voidp", "bytes", "cb"])
        d = R.choice([0, 1, 1, 1, 1, 2])
        arr = R.randrange(2, 5) if where == "param" and R.random() < 0.1 and d == 0 and k in ("prim", "alias", "enum") else None
        if k == "bytes":
            return Ty("prim", "char", "byte", 1)
        if k == "prim":
            c, g = R.choice(SCAL)
            return Ty("prim", c, g, d, arr)
        if k == "alias":
            n, c, g = R.choice(self.alias)
            if where != "param" and n in self.typeself:
                return Ty("prim", "int", "int32")
            return Ty("alias", n, g, d, arr, export(n))
        if k == "enum":
            n = R.choice(self.enums)
            return Ty("enum", n, export(n), min(d, 1), arr)
        if k == "struct":
            s = R.choice(self.structs)
            if where == "field":
                j = [x[0] for x in self.structs].index(s[0])
                d = 1
            return Ty("struct", s[0] if s[1] else "struct " + s[0], export(s[0]), min(d, 1) if where != "param" else d)
        if k == "opq":
            return Ty("opq", self.opqs[0], export(self.opqs[0]), 1)
        if k == "union":
            return Ty("union", self.unions[0], export(self.unions[0]), min(d, 1))
        if k == "cstr" and where in ("param", "ret"):
            return Ty("cstr", "const char", "string", 1)
        if k == "cb" and where == "param" and self.cbs:
            c = R.choice(self.cbs)[0]
            return Ty("cb", c, export(c))
        return Ty("voidp", "void", "", 1)

    def pick(self, scope, name, i, where, seen=()):
        """A type for the item the model can say something about, with its Go type."""
        ptr = self.ptr.at(scope, name, i) or "arr"
        for _ in range(50):
            t = self.any_type(where)
            typ = self.typ.at(scope, name, i)
            if not typ and where in ("param", "cbparam") and t.kind in ("prim", "alias", "enum", "struct", "opq", "union", "cstr"):
                typ = self.typ.self_("type", t.c.replace("struct ", "").replace("const ", ""))
            g = t.go(ptr, typ, self.cstring)
            if g is None or t.kind == "cb" and t.base in seen:
                continue
            if where == "cbparam" and t.d > 1:
                continue
            return t, g
        return Ty("prim", "int", "int32"), "int32"

    def pick_ret(self, f):
        ptr, typ = self.ptr.self_("function", f) or "ref", self.typ.self_("function", f)
        if self.R.random() < 0.25:
            return None
        for _ in range(50):
            t = self.any_type("ret")
            if t.kind == "cstr" and not self.cstring and typ != "string":
                continue
            g = t.go(ptr, typ, self.cstring) if t.d < 2 else None
            if g:
                return t, g
        return Ty("prim", "int", "int32"), "int32"

    def header(self):
        out = ["#pragma once", "#include <stdint.h>", "#include <stddef.h>"]
        for n, c, _ in self.alias:
            out.append("typedef %s %s;" % (c, n))
        for e in self.enums:
            out.append("typedef enum %s { MY_%s_A, MY_%s_B = 5 } %s;" % (e, e.upper(), e.upper(), e))
        out += ["typedef struct %s %s;" % (o, o) for o in self.opqs]
        out += ["typedef union %s { int a; double b; } %s;" % (u, u) for u in self.unions]
        for n, td, _ in self.structs:
            out.append("struct %s;" % n + (" typedef struct %s %s;" % (n, n) if td else ""))
        for c, ps in self.cbs:
            out.append("typedef void (*%s)(%s);" % (c, ", ".join(t.decl("q%d" % i) for i, (t, g) in enumerate(ps)) or "void"))
        for n, td, fs in self.structs:
            out.append("struct %s { %s };" % (n, " ".join(t.decl(f) + ";" for f, t, g in fs)))
        for f, ps, r, _ in self.funcs:
            out.append("%s %s(%s);" % (r[0].decl("").strip() if r else "void", f,
                                       ", ".join(t.decl("p%d" % i) for i, (t, g) in enumerate(ps)) or "void"))
        return "\n".join(out) + "\n"

    def manifest(self):
        o = ["---", "GENERATOR:", "  PackageName: foo", '  Includes: ["foo.h"]', "PARSER:",
             '  IncludePaths: ["/usr/include"]', '  SourcesPaths: ["foo.h"]', "TRANSLATOR:"]
        if not self.cstring:
            o.append("  ConstCharIsString: false")
        for key, t in (("PtrTips", self.ptr), ("TypeTips", self.typ)):
            if t.by:
                o += ["  %s:" % key] + t.yaml(self.R)
        o += ["  Rules:", "    global:", '      - {action: accept, from: "^my_"}', "      - {transform: export}",
              "    const:", '      - {action: accept, from: "^MY_"}', "    private:", "      - {transform: unexport}",
              "    post-global:", "      - {load: snakecase}"]
        return "\n".join(o) + "\n"

    def expect(self):
        """{(declaration, item): Go type}"""
        e = {}
        for f, ps, r, inst in self.funcs:
            for i, (t, g) in enumerate(ps):
                e[("func " + export(f), "parameter p%d" % i if i != inst else "receiver")] = g
            e[("func " + export(f), "parameters")] = str(len(ps) - (inst is not None))
            e[("func " + export(f), "result")] = r[1] if r else ""
        for c, ps in self.cbs:
            for i, (t, g) in enumerate(ps):
                e[("type " + export(c), "parameter q%d" % i)] = g
        for n, td, fs in self.structs:
            for f, t, g in fs:
                e[("type " + export(n), "field " + export(f))] = g
        for n in self.enums:
            e[("type " + export(n), "underlying")] = "uint32" if n in self.unsigned else "int32"
        for n, c, g in self.alias:
            e[("type " + export(n), "underlying")] = g
        return e


def norm(t):
    return t.replace("uint8", "byte").replace(" ", "")


def observe(sc):
    got = {}
    for f in [sc]:
        for d in f["Decls"] or []:
            if d["Kind"] == "func":
                k = "func " + d["Name"]
                if d.get("Recv"):
                    if (k, "parameters") in got:
                        continue
                    got[(k, "receiver")] = norm(d["Recv"])
                got[(k, "parameters")] = str(len(d.get("Params") or []))
            elif d["Kind"] == "type":
                k = "type " + d["Name"]
                got[(k, "underlying")] = norm(d.get("Type") or "")
            else:
                continue
            for x in d.get("Params") or []:
                got[(k, "parameter " + x["Name"])] = norm(x["Type"])
            for x in d.get("Fields") or []:
                got[(k, "field " + x["Name"])] = norm(x["Type"])
            if d["Kind"] == "func":
                rs = d.get("Results") or []
                got[(k, "result")] = norm(rs[0]["Type"]) if rs else ""
    return got


def one(ctx, i, seed, compile_):
    c = Case(seed)
    h, m = c.header(), c.manifest()
    src = {"foo.h": h, "foo.yml": m}
    d = ctx.mkdir("case%d" % i)
    try:
        write(d, "go.mod", "module p\n\ngo 1.21\n")
        write(d, "foo.h", h)
        write(d, "foo.yml", m)
        r = ctx.gen(d, ["foo.yml"])
        if r.rc != 0 or r.timeout:
            ctx.violation("case %d: c-for-go fails\n%s" % (i, r.text[-2000:]), src)
            return
        got = observe(harness.scan(ctx, os.path.join(d, "foo"))[0])
        exp = c.expect()
        bad = ["%s, %s: %s instead of %s" % (k[0], k[1], got.get(k, "missing"), v) for k, v in sorted(exp.items())
               if got.get(k) != v.replace("uint8", "byte")]
        if bad:
            ctx.violation("case %d: %d items are not represented as their tips say\n%s" % (i, len(bad), "\n".join(bad[:12])), src,
                          copy_dir=os.path.join(d, "foo"))
        elif compile_:
            shutil.copy(os.path.join(d, "foo.h"), os.path.join(d, "foo"))
            r = ctx.go(d, ["build", "./foo"], env={"CGO_CFLAGS": "-O0 -w"})
            if r.rc != 0:
                ctx.violation("case %d: the package does not compile\n%s" % (i, r.text[:2500]), src, copy_dir=os.path.join(d, "foo"))
            ctx.stat("packages_compiled")
        tipped = sum(1 for f, ps, _, _ in c.funcs for j in range(len(ps)) if c.ptr.at("function", f, j) or c.typ.at("function", f, j))
        ctx.stat("parameters_with_a_tip", tipped)
        ctx.evaluated(1, key=m + h, events=len(exp),
                      sample={"case": i, "manifest": m[:600], "some": [list(map(str, x)) for x in list(exp.items())[:5]]} if i < 2 else None)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


FAMS = [
    ("refs", dict(pk=["pref", "pref", "val", "sref", "opq"], rk=["void", "val", "ptr", "rarr"])),
    ("instances", dict(pk=["inst", "val", "pref", "arr"], rk=["void", "val", "ptr", "rarr"])),
    ("plain", dict(pk=["plain", "plain", "arr", "val"], rk=["void", "val", "rarr"])),
    ("mixed", dict(pk=["inst", "plain", "pref", "sref", "arr", "pp", "str"], rk=["void", "val", "ptr", "rarr", "str"], gc=0.3)),
]


def check(ctx):
    ctx.build_tool()
    harness.build_goscan(ctx)
    census(ctx)
    shapes = profiles.trace_run(ctx, FAMS, int(os.environ.get("VERIF_N") or 16), 1200)
    return ctx.finish(
        "an evaluation is one header with random tip entries in all scopes, of which the Go type of every parameter, receiver, result, field, "
        "enum and alias is compared with the reference model and every third is compiled, or one header whose tipped functions are called and "
        "judged on the recorded trace; events are the items and trace lines compared; distinct by manifest and header",
        ["pointers to pointers only with the arr tip"], {"shapes": shapes}, min_eval=10)


def census(ctx):
    n = int(os.environ.get("VERIF_N") or (100 if ctx.tier == "quick" else 2500))
    budget = 40 if ctx.tier == "quick" and not os.environ.get("VERIF_N") else 400

    def go(i):
        if time.time() - ctx.t0 > budget and ctx.count > 30:
            ctx.stat("cases_not_run_for_time")
            return
        one(ctx, i, ctx.seed * 100003 + i, i % 3 == 0)
    ctx.pmap(go, range(n))
