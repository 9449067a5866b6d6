"""C08: which declarations of a header are generated, against a reference interpreter of the accept and ignore rules."""
import os, random, re, shutil, time
import harness, rules
from harness import write

WORDS = ["alpha", "beta", "get", "size", "max", "kind", "vec", "HTTP", "xY", "node", "list", "flag", "mode", "set"]
SCOPES = ["const", "type", "function", "public", "global"]
SYS = "/usr/include/inttypes.h"


class Model:
    """Declarations spread over a main header and included ones; each C name with its scope."""

    def __init__(self, R):
        self.R, self.n = R, 0
        self.files = ["foo.h"] + R.sample(["sub.h", "inc/deep.h", "inc/sub.h", "xsub.h"], R.randrange(0, 4))
        self.decls = []          # (file, C text, [(kind, scope, name, needs)])
        self.types = []          # (text to use it as a pointer target, name)
        self.consts = []         # macro or enumerator names usable in expressions
        for _ in range(R.randrange(8, 40)):
            self.add()

    def cn(self):
        R = self.R
        self.n += 1
        p = R.choice(["my", "my", "my", "ext", "EXT", "My"])
        return "%s_%s%s%d" % (p, R.choice(WORDS), R.choice(["", "_" + R.choice(WORDS), "_t"]), self.n)

    def add(self):
        R = self.R
        f = R.choice(self.files)
        k = R.choice(["func", "func", "func", "alias", "struct", "structtag", "fwd", "union", "opaque", "enum", "enumanon", "enumtag", "enumbare", "fntype",
                      "macro", "macro", "macroref", "constvar", "tagstruct", "redecl", "strmacro"])
        n = self.cn()
        T = lambda: R.choice([None, "int", "double", "unsigned char *"] + [t + " *" for t, _ in self.types]) or "int"
        if k == "func":
            ret = R.choice(["void", "int", T()])
            self.put(f, "%s %s(%s);" % (ret, n, ", ".join("%s a%d" % (T(), i) for i in range(R.randrange(0, 4))) or "void"), [("func", "function", n, ())])
        elif k == "alias":
            self.put(f, "typedef %s %s;" % (R.choice(["int", "double", "unsigned short"]), n), [("type", "type", n, ())])
            self.types.append((n, n))
        elif k == "struct":
            self.put(f, "typedef struct { int a; %s } %s;" % (self.member(), n), [("type", "type", n, ())])
            self.types.append((n, n))
        elif k == "structtag":
            tag = R.choice([n, n, n + "_tag"])
            self.put(f, "typedef struct %s { int a; %s } %s;" % (tag, self.member(), n), [("type", "type", n, ())])
            if tag == n:
                self.types.append((n, n))
        elif k == "fwd":
            self.put(f, "typedef struct %s %s;\nstruct %s { int a; };" % (n, n, n), [("type", "type", n, ())])
            self.types.append((n, n))
        elif k == "union":
            self.put(f, "typedef union %s { int a; char b[4]; } %s;" % (R.choice([n, ""]), n), [("type", "type", n, ())])
        elif k == "opaque":
            self.put(f, "typedef struct %s %s;" % (n, n), [("type", "type", n, ())])
            self.types.append((n, n))
        elif k == "fntype":
            self.put(f, "typedef int (*%s)(int a);" % n, [("type", "type", n, ())])
        elif k in ("enum", "enumanon", "enumtag", "enumbare"):
            ms = [self.cn() for _ in range(R.randrange(1, 4))]
            body = ", ".join("%s%s" % (m, R.choice(["", " = %d" % R.randrange(99)])) for m in ms)
            need = () if k == "enumanon" else (("type", n),)
            text = {"enum": "typedef enum { %s } %s;" % (body, n), "enumtag": "typedef enum %s { %s } %s;" % (n, body, n),
                    "enumanon": "enum { %s };" % body, "enumbare": "enum %s { %s };" % (n, body)}[k]
            self.put(f, text, ([] if k == "enumanon" else [("type", "type", n, ())]) + [("const", "const", m, need) for m in ms])
            if k == "enum":
                self.types.append((n, n))
            self.consts += [] if k == "enum" else ms
        elif k == "macro":
            self.put(f, "#define %s %s" % (n, R.choice(["1", "0x20", "(1 << 3)", "2.5", "'x'", "-7"])), [("const", "const", n, ())])
            self.consts.append(n)
        elif k == "strmacro":
            self.put(f, "#define %s \"text\"" % n, [("const", "const", n, ())])
        elif k == "macroref" and self.consts:
            self.put(f, "#define %s (%s + 1)" % (n, R.choice(self.consts)), [("const", "const", n, None)])
        elif k == "constvar":
            self.put(f, "extern const int %s;\nconst int %s __attribute__((weak)) = 4;" % (n, n), [("const", "public", n, ())])
        elif k == "tagstruct":
            self.put(f, "struct %s { int a; };" % n, [("type", "tag", n, ())])
        elif k == "redecl":
            old = [d for d in self.decls if d[2] and d[2][0][0] == "func" and d[1].count("*") == d[1].count("unsigned char *")]
            if old:
                d = R.choice(old)
                self.put(f, d[1], d[2])

    def member(self):
        R = self.R
        return R.choice(["", "int b;", "double c[3];"] + ["struct %s *p;" % n for t, n in self.types if any("struct %s " % n in x[1] for x in self.decls)] + ["%s *q;" % t for t, _ in self.types])

    def put(self, f, text, items):
        self.decls.append((f, text, items))

    def sources(self):
        """Sub headers are included at the head of the main one, but their text may use what precedes it, so everything goes through
        line markers: the file a declaration is in changes, the order stays."""
        out, chunks = {}, []
        i = 0
        for f, text, _ in self.decls:
            if f == "foo.h":
                chunks.append(text)
            else:
                i += 1
                out.setdefault(f, []).append("#if PART == %d\n%s\n#endif" % (i, text))
                chunks.append("#undef PART\n#define PART %d\n#include \"%s\"" % (i, f))
        res = {f: "\n".join(t) + "\n" for f, t in out.items()}
        for f in self.files[1:]:
            if f not in res:
                continue
        res["foo.h"] = "#ifndef FOO_H\n#define FOO_H\n#include <stdint.h>\n%s\n#endif\n" % "\n".join(chunks)
        return res

    def expect(self, ru, ignored):
        """{(kind, C name): True | False | None (not judged)}"""
        live = {}
        for f, _, items in self.decls:
            path = "/base/" + f
            ign = any(path.endswith(s) for s in ignored)
            for kind, scope, name, needs in items:
                if ign:
                    ok = False
                elif scope == "tag":
                    t, p = ru.accepts("type", name), ru.accepts("public", name)
                    ok = t if t == p else False if not t else None
                else:
                    ok = ru.accepts(scope, name)
                    for sc, other in needs or ():
                        if ok and not ru.accepts(sc, other):
                            ok = False
                    if needs is None and ok:
                        ok = None
                both = (live.get((kind, name), ok), ok)
                live[(kind, name)] = True if True in both else None if None in both else False
        # a macro that refers to constants is judged if these are accepted, too
        for f, text, items in self.decls:
            if items and items[0][3] is None:
                ref = re.search(r"\((\w+)", text).group(1)
                if live[("const", items[0][2])] is None and live.get(("const", ref)) is True:
                    live[("const", items[0][2])] = True
        return live


def random_rules(R, m):
    names = [i[2] for d in m.decls for i in d[2]]

    def rx():
        k = R.randrange(11)
        w = R.choice(WORDS)
        if k == 0:
            return "^my_"
        if k == 1:
            return "^(?:my|ext)_"
        if k == 2:
            return "(?i)^my"
        if k == 3:
            return w
        if k == 4:
            return "_%s" % w
        if k == 5:
            return "[%s]$" % "".join(R.sample("0123456789", R.randrange(1, 6)))
        if k == 6:
            return "^%s$" % R.choice(names) if names else "^$"
        if k == 7:
            return "^(%s)$" % "|".join(R.sample(names, min(len(names), R.randrange(1, 6))) or ["x"])
        if k == 8:
            return "_t[0-9]*$"
        if k == 9:
            return "^[A-Z]"
        return "."
    spec = {}
    for s in R.sample(SCOPES, R.randrange(1, 6)):
        spec[s] = []
        for _ in range(R.randrange(0, 4)):
            a = R.choice(["accept", "accept", "ignore"])
            r = dict(action=a)
            if R.random() < 0.93:
                r["from"] = rx()
            spec[s].append(r)
    if R.random() < 0.7:
        spec.setdefault("global", []).insert(0, dict(action="accept", **{"from": R.choice(["^my_", "(?i)^(my|ext)", "^my_|^EXT"])}))
    if R.random() < 0.3:          # rules of scopes that decide nothing here
        for s in ("private", "callback", "post-global"):
            spec[s] = [dict(action=R.choice(["accept", "ignore"]), **{"from": rx()})]
    if R.random() < 0.3:
        spec.setdefault("global", []).append({"action": "replace", "from": "^(?:my|ext)_", "to": "Go_"})
    if R.random() < 0.2:
        spec.setdefault("type", []).append({"transform": "export"})
    keys = list(spec)
    R.shuffle(keys)
    return {k: spec[k] for k in keys}


def one(ctx, i, seed):
    R = random.Random(seed)
    m = Model(R)
    spec = random_rules(R, m)
    ru = rules.Rules(spec)
    ignored = []
    for f in m.files[1:]:
        if R.random() < 0.4:
            ignored.append(R.choice([f, f[f.find("/"):] if "/" in f else f, os.path.basename(f), f[1:]]))
    if R.random() < 0.2:
        ignored.append(R.choice(["nowhere.h", "foo.hh", "sub"]))
    universe = {}
    for _, _, items in m.decls:
        for kind, scope, n, _ in items:
            universe[(kind, n)] = "type" if scope == "tag" else "const" if kind == "const" else scope
    gonames = {}
    for (kind, n), scope in universe.items():
        g = ru.name(scope, n, "public" if kind == "func" else None) if not (kind == "const" and any(it[1] == "public" and it[2] == n for d in m.decls for it in d[2])) else ru.name("const", n)
        if (kind, g) in gonames:
            return
        gonames[(kind, g)] = n
    d = ctx.mkdir("case%d/base" % i)
    y = "GENERATOR: {PackageName: foo, Includes: [\"foo.h\"]}\nPARSER: {SourcesPaths: [\"foo.h\"], IgnoredPaths: [%s]}\nTRANSLATOR:\n%s  Rules:\n%s\n" % (
        ", ".join('"%s"' % s for s in ignored),
        R.choice(["", "  ConstRules: {defines: expand, enum: expand}\n", "  ConstRules: {defines: eval, enum: eval}\n", "  ConstRules: {defines: cgo, enum: cgo}\n"]), ru.yaml())
    src = dict(m.sources(), **{"foo.yml": y})
    what = "case %d" % i
    try:
        for n, t in src.items():
            write(d, n, t)
        r = ctx.gen(d, ["foo.yml"])
        if r.rc != 0:
            ctx.violation("%s: c-for-go fails\n%s" % (what, r.text[-1000:]), src)
            return
        out = os.path.join(d, "foo")
        have = set()
        if os.path.isdir(out):
            s = harness.scan(ctx, out)[0]
            if any(f.get("Error") for f in s["Files"] or []):
                ctx.violation("%s: the package does not parse: %s" % (what, [f["Error"] for f in s["Files"] if f.get("Error")][0]), src)
                return
            have = {(x["Kind"], x["Name"]) for x in s["Decls"] or [] if not x.get("Recv")}
        exp = m.expect(ru, ignored)
        bad, judged, pos = [], 0, 0
        for (kind, g), c in gonames.items():
            e = exp[(kind, c)]
            if e is None:
                continue
            judged += 1
            pos += e
            if e != ((kind, g) in have):
                bad.append("%s %s is %s, the rules %s it" % (kind, c, "left out" if e else "declared", "admit" if e else "do not admit"))
        if bad:
            ctx.violation("%s: %s" % (what, "; ".join(bad[:4])), src)
        ctx.evaluated(1, key=(y, tuple(sorted(src))), events=judged)
        ctx.stat("names judged", judged)
        ctx.stat("names admitted", pos)
        ctx.stat("names of ignored files", sum(1 for f, _, it in m.decls if any(("/base/" + f).endswith(s) for s in ignored)))
        if i < 3:
            ctx.samples.append({"rules": spec, "ignored": ignored, "expected": sorted("%s %s: %s" % (k, n, v) for (k, n), v in exp.items())[:6]})
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(os.path.dirname(d), ignore_errors=True)


def check(ctx):
    ctx.build_tool()
    harness.build_goscan(ctx)
    n = int(os.environ.get("VERIF_N") or (300 if ctx.tier == "quick" else 15000))
    budget = 60 if ctx.tier == "quick" and not os.environ.get("VERIF_N") else 780

    def go(i):
        if time.time() - ctx.t0 > budget and ctx.count > 60:
            ctx.stat("cases_not_run_for_time")
            return
        one(ctx, i, ctx.seed * 100003 + i)
    ctx.pmap(go, range(n))
    return ctx.finish(
        "an evaluation is one tree of headers with random accept and ignore rules and ignored paths: for every C name the declarations parsed from the output are "
        "compared with the decision of the reference interpreter, both ways; distinct by manifest; events are the names judged",
        ["an enumerator also needs its named enum accepted", "structs that have only a tag are judged where the type and public rules agree"], min_eval=50)
