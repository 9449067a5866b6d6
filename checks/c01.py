"""C01: generated packages are complete, formatted and compile, judged by the Go and C tool chains
and by a syntax scan of what was declared."""
import os, random, re, shutil, time
import harness, profiles, vlib
from capi import goname
from harness import write
import snippets

FILES = {"doc.go", "const.go", "types.go", "unions.go", "cgo_helpers.go", "cgo_helpers.h", "cgo_helpers.c"}
ALLP = ["val", "arr", "pp", "str", "strs", "opq", "sval", "sref", "sarr", "cb"]
ALLR = ["void", "val", "ptr", "str", "opq", "sval", "sptr"]
ALLF = ("val", "arr", "ptr", "sptr", "sarr", "pp", "sval")

HIDDEN = """typedef int hidden_int; typedef struct hidden_s { int a; } hidden_s; typedef enum { HIDDEN_A, HIDDEN_B } hidden_e;
typedef union hidden_u { int a; } hidden_u; typedef void (*hidden_cb)(int); int hidden_fn(int a); hidden_s hidden_fn2(hidden_s *s, hidden_cb c);
#define HIDDEN_C 5
struct hidden_tag { int x; };
static const int hidden_const = 3;
"""


def cname(c):
    parts = c.split("_")
    return "".join(p[:1].upper() + p[1:] for p in parts)


def manifest(o, R):
    lines = ["---", "GENERATOR:", "  PackageName: %s" % o["pkg"]]
    if o["desc"]:
        lines += ['  PackageDescription: "A description with */ and // inside."', '  PackageLicense: "A licence."']
    lines += ["  Includes: [%s]" % ", ".join('"%s"' % i for i in o["includes"])]
    if o["sys"]:
        lines.append('  SysIncludes: ["stdio.h", "stdint.h"]')
    flags = ['-I${SRCDIR}/%s' % o["up"]]
    lines += ["  FlagGroups:", "    - {name: CFLAGS, flags: [%s]}" % ", ".join('"%s"' % f for f in flags)]
    if o["sys"]:
        lines += ['    - {name: LDFLAGS, traits: ["linux"], flags: ["-lm"]}']
    if o["options"]:
        lines.append("  Options: {%s}" % ", ".join("%s: true" % x for x in o["options"]))
    lines += ["PARSER:"] + ([] if o["ccincl"] else ['  IncludePaths: ["/usr/include"]']) + \
        ["  SourcesPaths: [%s]" % ", ".join('"%s"' % i for i in o["includes"]), "TRANSLATOR:", "  ConstRules: {defines: %s}" % o["const"]]
    if o["api"]:
        t = [l for l in o["api"].manifest().split("\n")]
        lo, hi = t.index("TRANSLATOR:") + 2, t.index("  Rules:")
        lines += t[lo:hi]
    lines += ["  Rules:", "    global:", '      - {action: accept, from: "^my_"}', "      - {transform: export}",
              "    const:", '      - {action: accept, from: "^MY_"}', "    private:", "      - {transform: unexport}",
              "    post-global:", "      - {load: snakecase}"]
    return "\n".join(lines) + "\n"


def one(ctx, i, seed):
    R = random.Random(seed)
    api = None
    if i % 3 != 2:
        pk = R.sample(ALLP, R.randrange(3, len(ALLP) + 1)) + ["val"]
        rk = R.sample(ALLR, R.randrange(2, len(ALLR) + 1)) + ["void"]
        api = profiles.model(seed, pk, rk, R.choice([ALLF, ("val", "arr"), ("val", "arr", "sval", "sarr")]), nfunc=R.randrange(2, 20), ncall=0)
    keys = sorted(snippets.TEXT)
    chosen = R.sample(keys, R.randrange(4, 14)) if i % 3 else []
    if i % 3 == 2:                     # cycle, so that every snippet is met in a quick run
        chosen = [keys[(i // 3 * 9 + j) % len(keys)] for j in range(9)]
    types, names, consts = [], set(), set()
    if api:
        names |= {f.name for f in api.funcs} | {x.name for l in (api.structs, api.unions, api.opqs, api.cbs, api.enums) for x in l} | {a.c for a in api.aliases}
        names |= {h.name for h in api.handles + api.arrtds if h.name.startswith("my_")} | set(api.strtds) | {t.ptd for t in api.structs + api.opqs if t.ptd}
        consts |= {m for e in api.enums for m, _ in e.members}
    parts = []
    for j, k in enumerate(chosen):
        t, n, c = snippets.snippet(k, "%s%d" % (R.choice("qwz"), j))
        parts.append(t)
        names |= n
        consts |= c
    hidden = HIDDEN.strip().split("\n") if R.random() < 0.7 else []
    split = R.random() < 0.4
    o = dict(api=api, pkg=R.choice(["foo", "foo", "zoo", "sub/bar", "a/b/quux"]), desc=R.random() < 0.4, sys=R.random() < 0.4,
             options=R.sample(["SafeStrings", "StructAccessors", "KeepAlive"], R.choice([0, 0, 1, 2, 3])), ccincl=R.random() < 0.3,
             const=R.choice(["expand", "eval"]), includes=["foo.h"])
    out = R.choice(["", "", "", "out", "x/y"])
    o["up"] = "/".join([".."] * (len(o["pkg"].split("/")) + len([p for p in out.split("/") if p])))
    head = "#include <stdint.h>\n#include <stddef.h>\n"
    body = api.header().split("\n", 4)[4] if api else ""
    guard = R.random() < 0.5
    files = {}
    if split:
        files["foo.h"] = head + body
        files["inc_b.h"] = head + "\n".join(hidden + parts) + "\n"
        o["includes"] = ["foo.h", "inc_b.h"]
    else:
        files["foo.h"] = head + "\n".join(hidden[:2]) + "\n" + body + "\n".join(parts) + "\n" + "\n".join(hidden[2:]) + "\n"
    for n in list(files):
        files[n] = ("#ifndef G_%s\n#define G_%s\n%s\n#endif\n" % (n[:3], n[:3], files[n])) if guard else "#pragma once\n" + files[n]
    d = ctx.mkdir("case%d" % i)
    what = "case %d (%s)" % (i, {k: v for k, v in o.items() if k != "api"})
    try:
        write(d, "go.mod", "module p\n\ngo 1.21\n")
        for n, t in files.items():
            write(d, n, t)
        write(d, "foo.yml", manifest(o, R))
        src = dict(files)
        src["foo.yml"] = manifest(o, R)
        before = set(os.listdir(d))
        args = (["-out", out] if out else []) + (["-ccincl"] if o["ccincl"] else []) + (["-nostamp"] if R.random() < 0.3 else [])
        r = ctx.gen(d, args + ["foo.yml"])
        pd = os.path.join(d, out, o["pkg"])
        base = o["pkg"].split("/")[-1]
        if r.rc != 0:
            ctx.violation("%s: c-for-go fails (%s)\n%s" % (what, "timeout" if r.timeout else r.rc, r.text[-1500:]), src)
            return
        if not os.path.isdir(pd):
            ctx.violation("%s: no package at %s" % (what, os.path.relpath(pd, d)), src)
            return
        got = set(os.listdir(pd))
        if base + ".go" not in got or got - FILES - {base + ".go"}:
            ctx.violation("%s: files %s" % (what, sorted(got)), src)
        top = (out or o["pkg"]).split("/")[0]
        walk = [os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs]
        stray = [f for f in walk if not f.startswith(os.path.relpath(pd, d) + "/") and f not in before]
        if stray:
            ctx.violation("%s: written outside the package: %s" % (what, stray), src)
        s = harness.scan(ctx, pd)[0]
        for f in s["Files"]:
            if f.get("Error") or not f["Formatted"] or f["Package"] != base:
                ctx.violation("%s: %s: %s" % (what, f["Name"], f.get("Error") or ("package " + f["Package"] if f["Formatted"] else "is not formatted")), src,
                              copy_dir=pd)
        # exactly the declarations of the accepted names
        have = {}
        for x in s["Decls"]:
            if not x.get("Recv"):
                have.setdefault(x["Name"], []).append(x)
        want = {cname(n) for n in names}
        missing = sorted(n for n in want if n not in have) + sorted(n for n in consts if cname(n) not in have)
        if missing:
            ctx.violation("%s: not declared: %s" % (what, missing[:6]), src, copy_dir=pd)
        allowed = want | {cname(c) for c in consts}
        extra = sorted(n for n in have if n[:1].isupper() and n not in allowed and
                       not (n.startswith("New") and (n[3:] in want or n.endswith("Ref") and n[3:-3] in want)) and n != "RawString")
        if extra:
            ctx.violation("%s: declared but not accepted: %s" % (what, extra[:6]), src, copy_dir=pd)
        twice = sorted(n for n, l in have.items() if len(l) > 1 and n not in ("init", "_"))
        if twice:
            ctx.violation("%s: declared more than once: %s" % (what, twice[:5]), src, copy_dir=pd)
        leaks = sorted(n for n in have if "hidden" in n.lower())
        if leaks:
            ctx.violation("%s: helpers or declarations of names that are not accepted: %s" % (what, leaks[:5]), src, copy_dir=pd)
        for f in ("cgo_helpers.h", "cgo_helpers.c"):
            if f in got:
                t = open(os.path.join(pd, f)).read()
                protos = re.findall(r"(?m)^[A-Za-z_][\w \*]*?\b(\w+)\(", t)
                dup = sorted({p for p in protos if protos.count(p) > 1})
                if dup:
                    ctx.violation("%s: %s declares %s more than once" % (what, f, dup[:5]), src, copy_dir=pd)
        b = ctx.go(d, ["build", "./" + os.path.relpath(pd, d)])
        if b.rc != 0:
            ctx.violation("%s: does not compile (snippets %s)\n%s" % (what, chosen, b.text[:1500]), src, copy_dir=pd)
        ctx.evaluated(1, key=sorted(files.items()), events=len(s["Decls"]))
        ctx.stat("declarations", len(s["Decls"]))
        ctx.stat("names expected", len(want) + len(consts))
        for k in chosen:
            ctx.stat("snippet " + k)
        if i < 2:
            ctx.samples.append({"case": i, "package": o["pkg"], "files": sorted(got), "declared": sorted(have)[:8]})
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


def check(ctx):
    ctx.build_tool()
    harness.build_goscan(ctx)
    n = int(os.environ.get("VERIF_N") or (40 if ctx.tier == "quick" else 3000))
    budget = 60 if ctx.tier == "quick" and not os.environ.get("VERIF_N") else 780

    def go(i):
        if time.time() - ctx.t0 > budget and ctx.count > 12:
            ctx.stat("cases_not_run_for_time")
            return
        one(ctx, i, ctx.seed * 100003 + i)
    ctx.pmap(go, range(n))
    return ctx.finish(
        "an evaluation is one header and manifest generated, scanned declaration by declaration against the accepted names, and compiled with cgo; "
        "distinct by header text; events are the declarations scanned",
        ["the supported dialect is that of lib/capi.py and lib/snippets.py", "compiled with go and gcc of this machine, amd64"], min_eval=10)
