"""C09: names of generated declarations against a reference interpreter of the rules."""
import os, random, re, shutil, time
import harness, rules, vlib
from harness import write

WORDS = ["alpha", "beta", "get", "size", "max", "type", "func", "map", "go", "init_x", "flag", "_u", "vec2d", "HTTP", "xY", "z"]
SCOPES = ["global", "const", "type", "function", "private", "public", "post-global"]
IDENT = re.compile(r"[A-Za-z_]\w*$")


class Model:
    def __init__(self, R):
        self.R = R
        self.n = 0
        self.structs = [(self.cn(), [(self.fn(i), R.choice(["int", "float", "unsigned char"])) for i in range(R.randrange(1, 5))], R.random() < 0.5)
                        for _ in range(R.randrange(1, 4))]
        self.alias = [(self.cn(), R.choice(["int", "double", "unsigned short"])) for _ in range(R.randrange(1, 4))]
        self.enums = [(self.cn(), [self.cn("MY") for _ in range(R.randrange(1, 4))]) for _ in range(R.randrange(1, 3))]
        self.cbs = [self.cn() for _ in range(R.randrange(0, 3))]
        self.unions = [self.cn() for _ in range(R.randrange(0, 2))]
        self.opq = [self.cn() for _ in range(R.randrange(0, 2))]
        self.macros = []
        for i in range(R.randrange(1, 6)):
            ref = R.choice(self.macros)[0] if self.macros and R.random() < 0.6 else R.choice(R.choice(self.enums)[1]) if R.random() < 0.3 else None
            self.macros.append((self.cn(R.choice(["MY", "my"])), "(%s + %d)" % (ref, i) if ref else str(i), ref))
        # enumerators that refer to enumerators
        self.enums2 = (self.cn(), self.cn("MY"), R.choice(R.choice(self.enums)[1]))
        self.funcs = []
        for _ in range(R.randrange(1, 6)):
            ps = []
            for j in range(R.randrange(0, 5)):
                k = R.choice(["int", "alias", "enum", "struct", "structp", "cb", "opq", "union"])
                pool = dict(alias=[a for a, _ in self.alias], enum=[e for e, _ in self.enums], struct=[s[0] for s in self.structs],
                            structp=[s[0] for s in self.structs], cb=self.cbs, opq=self.opq, union=self.unions).get(k)
                if k != "int" and not pool:
                    k = "int"
                if k == "cb" and any(p[1] == "cb" for p in ps):
                    k = "int"
                ps.append((self.fn(j), k, R.choice(pool) if k != "int" else "int"))
            ret = R.choice([None, ("alias", self.alias[0][0]), ("struct", self.structs[0][0]), ("enum", self.enums[0][0])])
            self.funcs.append((self.cn(), ps, ret))

    def cn(self, p="my"):
        self.n += 1
        w = self.R.choice(WORDS)
        s = "%s_%s" % (p, w)
        if self.R.random() < 0.5:
            s += "_" + self.R.choice(WORDS)
        s += "%s%d" % (self.R.choice(["", "_", "k"]), self.n)
        return s.upper() if p == "MY" and self.R.random() < 0.6 else s

    def fn(self, i):
        return "%s%s%d" % (self.R.choice(["", "", "p_", "the_"]), self.R.choice([w for w in WORDS if w not in rules.KEYWORDS]), i)

    def header(self):
        out = ["#pragma once"]
        for m, v, _ in self.macros:
            out.append("#define %s %s" % (m, v))
        for a, t in self.alias:
            out.append("typedef %s %s;" % (t, a))
        for e, ms in self.enums:
            out.append("typedef enum %s { %s } %s;" % (e, ", ".join(ms), e))
        out.append("typedef enum { %s = %s + 1 } %s;" % (self.enums2[1], self.enums2[2], self.enums2[0]))
        for s, fs, tag in self.structs:
            out.append("typedef struct %s { %s } %s;" % (s if tag else "", " ".join("%s %s;" % (t, n) for n, t in fs), s))
        for u in self.unions:
            out.append("typedef union { int a; char b[4]; } %s;" % u)
        for o in self.opq:
            out.append("typedef struct %s %s;" % (o, o))
        for c in self.cbs:
            out.append("typedef int (*%s)(int a);" % c)
        for f, ps, ret in self.funcs:
            out.append("%s %s(%s);" % (ret[1] if ret else "void", f, ", ".join(
                "%s%s %s" % (t, "*" if k in ("structp", "opq") else "", n) for n, k, t in ps) or "void"))
        return "\n".join(out) + "\n"

    def names(self, ru):
        types = {c: ru.name("type", c) for c in [a for a, _ in self.alias] + [e for e, _ in self.enums] + [s[0] for s in self.structs] +
                 self.unions + self.opq + self.cbs + [self.enums2[0]]}
        consts = {c: ru.name("const", c) for c in [m for m, _, _ in self.macros] + [m for _, ms in self.enums for m in ms] + [self.enums2[1]]}
        funcs = {f: ru.name("function", f, "public") for f, _, _ in self.funcs}
        fields = {(s, n): ru.name("type", n, "public") for s, fs, _ in self.structs for n, _ in fs}
        params = {(f, n): ru.name("type", n, "private") for f, ps, _ in self.funcs for n, k, _ in ps}
        return types, consts, funcs, fields, params

    def usable(self, ru):
        types, consts, funcs, fields, params = self.names(ru)
        top = list(types.values()) + list(consts.values()) + list(funcs.values())
        low = [x.lower() for x in top]
        if len(set(low)) != len(low) or not all(IDENT.match(x) for x in top + list(fields.values()) + list(params.values())):
            return False
        bad = {"_", "unsafe", "runtime", "c", "bool", "byte", "int32", "string", "error", "interface", "init", "main"}
        if bad & set(low) or any(x.startswith("new") or x in rules.KEYWORDS for x in low):
            return False
        for s, fs, _ in self.structs:
            l = [fields[(s, n)] for n, _ in fs]
            if len(set(l)) != len(l) or {"Ref", "Free", "PassRef", "PassValue", "Deref"} & set(l) or "_" in l or any(x.lower().startswith(("ref", "allocs")) for x in l):
                return False
        for f, ps, _ in self.funcs:
            l = [params[(f, n)] for n, _, _ in ps]
            if len({x.lower() for x in l}) != len(l) or set(l) & set(top) or {x.lower() for x in l} & bad or \
                    any(x.startswith(("__", "c", "C", "s", "S")) or x in rules.KEYWORDS or x == "_" for x in l):
                return False
        # helpers derive names from type names with the first letter lowered
        lows = {t[:1].lower() + t[1:] for t in types.values()}
        return len(lows) == len(types) and not lows & set(list(consts.values()) + list(funcs.values()))


def one(ctx, i, seed, build):
    R = random.Random(seed)
    for attempt in range(400):
        m = Model(R)
        words = WORDS + ["p_", "the"]
        spec = {s: rules.random_renames(R, words) for s in SCOPES if R.random() < 0.7}
        scopes = list(spec)
        R.shuffle(scopes)
        spec = {s: spec[s] for s in scopes}
        spec.setdefault("global", [])
        spec["global"].insert(R.randrange(len(spec["global"]) + 1), dict(action="accept", **{"from": "(?i)^my_"}))
        ru = rules.Rules(spec)
        if m.usable(ru):
            break
    else:
        ctx.stat("no usable rules")
        return
    ctx.stat("rule sets drawn", attempt + 1)
    d = ctx.mkdir("case%d" % i)
    hdr = m.header()
    y = "GENERATOR: {PackageName: foo, Includes: [\"foo.h\"]}\nPARSER: {SourcesPaths: [\"foo.h\"]}\nTRANSLATOR:\n  ConstRules: {defines: %s, enum: %s}\n  Rules:\n%s\n" % (
        R.choice(["expand", "eval"]), R.choice(["expand", "eval"]), ru.yaml())
    src = {"foo.h": hdr, "foo.yml": y}
    what = "case %d" % i
    try:
        write(d, "foo.h", hdr)
        write(d, "foo.yml", y)
        r = ctx.gen(d, ["foo.yml"])
        if r.rc != 0:
            ctx.violation("%s: c-for-go fails\n%s" % (what, r.text[-1000:]), src)
            return
        s = harness.scan(ctx, os.path.join(d, "foo"))[0]
        types, consts, funcs, fields, params = m.names(ru)
        have = {}
        for x in s["Decls"]:
            if not x.get("Recv"):
                have.setdefault((x["Kind"], x["Name"]), x)
        for kind, t in (("type", types), ("const", consts), ("func", funcs)):
            miss = [(c, g) for c, g in t.items() if (kind, g) not in have]
            if miss:
                ctx.violation("%s: no %s named as the rules say: %s; declared %s" % (
                    what, kind, miss[:3], [n for k, n in have if k == kind][:14]), src)
                return
        for st, fs, _ in m.structs:
            got = [f["Name"] for f in have[("type", types[st])].get("Fields") or []]
            exp = [fields[(st, n)] for n, _ in fs]
            if got[:len(exp)] != exp:
                ctx.violation("%s: fields of %s are %s, the rules say %s" % (what, st, got, exp), src)
                return
        for f, ps, ret in m.funcs:
            x = have[("func", funcs[f])]
            got = [(p["Name"], p["Type"].lstrip("*[]")) for p in x.get("Params") or []]
            exp = [(params[(f, n)], types[t] if k != "int" else "int32") for n, k, t in ps]
            res = [p["Type"] for p in x.get("Results") or []]
            if [g[1] for g in got] != [e[1] for e in exp] or [g[0] for g in got] != [e[0] for e in exp] or \
                    res != ([types[ret[1]]] if ret else []):
                ctx.violation("%s: parameters of %s are %s %s, the rules say %s" % (what, f, got, res, exp), src)
                return
        n = len(types) + len(consts) + len(funcs) + len(fields) + len(params)
        if build:
            b = ctx.go(d, ["build", "./foo"], env={"CGO_CFLAGS": "-w -I" + d}) if write(d, "go.mod", "module p\n\ngo 1.21\n") else None
            if b.rc != 0:
                ctx.violation("%s: the renamed package does not compile\n%s" % (what, b.text[:1200]), src, copy_dir=os.path.join(d, "foo"))
                return
            ctx.stat("compiled")
        changed = {(c, g) for t in (types, consts, funcs) for c, g in t.items()}
        ctx.evaluated(1, key=y, events=n)
        ctx.stat("names checked", n)
        ctx.stat("names changed by rules", sum(1 for c, g in changed if c != g))
        if i < 3:
            ctx.samples.append({"rules": spec, "names": sorted(changed)[:5]})
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


def check(ctx):
    ctx.build_tool()
    harness.build_goscan(ctx)
    n = int(os.environ.get("VERIF_N") or (120 if ctx.tier == "quick" else 6000))
    budget = 60 if ctx.tier == "quick" and not os.environ.get("VERIF_N") else 780

    def go(i):
        if time.time() - ctx.t0 > budget and ctx.count > 30:
            ctx.stat("cases_not_run_for_time")
            return
        one(ctx, i, ctx.seed * 100003 + i, i % 2 == 0)
    ctx.pmap(go, range(n))
    return ctx.finish(
        "an evaluation is one header with random rules in all seven scopes: every declared name, field, parameter and type reference is compared with "
        "the name the reference interpreter derives, and every second package is compiled; distinct by manifest; events are the names compared",
        ["rule sets whose names collide, are no Go identifiers or shadow what generated code uses are drawn again"], min_eval=20)
