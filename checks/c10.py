"""C10: the bytes written in repeated runs under perturbed schedules, hash seeds, places and environments."""
import hashlib, os, random, re, shutil, time
import c06, c08, capi, harness, profiles, rules
from harness import write

STAMP = re.compile(rb"WARNING: This file has automatically been generated( on [^\n]*\.)? *\n?")
ALLP = ["val", "arr", "pp", "str", "strs", "opq", "sval", "sref", "sarr", "cb"]
ALLR = ["void", "val", "ptr", "str", "opq", "sval", "sptr"]
ALLF = ("val", "arr", "ptr", "sptr", "sarr", "pp", "sval")
EXTRA = ["int zz_hidden_fn(int a, double b);", "typedef struct zz_hidden_s { int a; double b[4]; } zz_hidden_s;", "#define zz_HIDDEN 17",
         "typedef enum { zz_HIDDEN_A, zz_HIDDEN_B } zz_hidden_e;", "typedef int (*zz_hidden_cb)(const char *s);\nvoid zz_hidden_reg(zz_hidden_cb cb);",
         "typedef union zz_hidden_u { int a; char b[8]; } zz_hidden_u;\nzz_hidden_u *zz_hidden_uf(zz_hidden_u **u);", "enum { zz_HIDDEN_C = 5 };",
         "extern const int zz_hidden_v;\nconst int zz_hidden_v = 5;", "struct zz_hidden_tag { char *s; struct zz_hidden_tag *next; };", "typedef unsigned long long zz_hidden_t;"]


def defines(R):
    ks = R.sample(["MY_DEF%d" % i for i in range(20)], R.randrange(2, 9))
    return "{%s}" % ", ".join("%s: %s" % (k, R.choice(["1", "2", "-7", '"text"', "2.5", "{}", "0x10"])) for k in ks)


def tips(R):
    """Overlapping patterns in several scopes."""
    pats = ["^my_", "_s$", "node", "^my_.*[0-9]$", "."]
    out = []
    for key, kinds in (("PtrTips", ["ref", "arr", "sref"]), ("TypeTips", ["named", "plain"])):
        out.append("  %s:" % key)
        for sc in R.sample(["function", "struct", "type", "any", "enum"], R.randrange(2, 5)):
            out.append("    %s:" % sc)
            for _ in range(R.randrange(1, 4)):
                out.append("      - {target: %s, %sdefault: %s, tips: [%s]}" % (
                    '"%s"' % R.choice(pats), R.choice(["", "self: %s, " % R.choice(kinds)]), R.choice(kinds),
                    ", ".join(R.choice(kinds + ["0"]) for _ in range(R.randrange(0, 4)))))
    out += ["  MemTips:", "    - {target: \"%s\", self: raw}" % R.choice(["raw", "_t[0-9]+$", "node"])]
    return "\n".join(out)


def insert(y, section, text):
    """Text after the line that opens a top level section."""
    i = y.index("\n%s:" % section) + len(section) + 2
    j = y.index("\n", i)
    if y[i:j].strip():                  # inline mapping
        return y
    return y[:j + 1] + text + "\n" + y[j + 1:]


def crowd(R):
    """Many declarations of every kind, tagged and not, in several files."""
    decls = []
    for i in range(R.randrange(12, 40)):
        decls.append(["typedef enum my_e%d { MY_E%d_A = %d, MY_E%d_B } my_e%d;" % (i, i, i, i, i), "enum my_f%d { MY_F%d_A, MY_F%d_B = %d };" % (i, i, i, i),
                      "typedef enum { MY_G%d_A = 1, MY_G%d_B } my_g%d;" % (i, i, i), "enum { MY_H%d_A = %d };" % (i, i)][i % 4])
    for i in range(R.randrange(12, 40)):
        decls.append(["typedef struct my_s%d { int a[%d]; struct my_s%d *n; } my_s%d;" % (i, i + 1, i, i), "struct my_t%d { double d; char b[%d]; };" % (i, i + 1),
                      "typedef struct { short a[%d]; } my_q%d;" % (i + 1, i), "typedef struct my_o%d_ my_o%d;" % (i, i)][i % 4])
    for i in range(R.randrange(12, 40)):
        decls.append(["typedef union my_u%d { int a[%d]; double d; } my_u%d;" % (i, i + 1, i), "union my_v%d { int a; char b[%d]; };" % (i, i + 1), "typedef union { int a[%d]; long b; } my_w%d;" % (i + 1, i)][i % 3])
    for i in range(R.randrange(12, 40)):
        decls.append(["typedef int my_i%d;" % i, "typedef int (*my_cb%d)(int a%d, const char *s);" % (i, i), "#define MY_D%d %d" % (i, i), "#define MY_S%d \"s%d\"" % (i, i), "static const int my_k%d = %d;" % (i, i)][i % 5])
    R.shuffle(decls)
    for i in range(R.randrange(12, 40)):
        decls.append("int my_fn%d(int a, const char *s%d, double *d);" % (i, i))
    n = R.randrange(1, 4)
    files = {"foo.h": "".join('#include "part%d.h"\n' % k for k in range(n)) + "\n".join(decls[::n + 1]) + "\n"}
    for k in range(n):
        files["part%d.h" % k] = "\n".join(decls[k + 1::n + 1]) + "\n"
    return files, None


def source(R, seed, kind):
    """files, names that an added declaration may not be accepted by"""
    if kind == 0:
        api = profiles.model(seed, R.sample(ALLP, 6) + ["val"], R.sample(ALLR, 4), ALLF, nfunc=R.randrange(4, 24), ncall=0,
                             opts={o: True for o in R.sample(["SafeStrings", "StructAccessors"], R.randrange(3))})
        y = "\n" + api.manifest()
        y = insert(y, "PARSER", "  Defines: " + defines(R))
        return {"foo.h": api.header(), "foo.yml": y.lstrip("\n")}, True
    if kind == 1:
        m = c08.Model(R)
        spec = c08.random_rules(R, m)
        ru = rules.Rules(spec)
        y = "GENERATOR:\n  PackageName: foo\n  Includes: [\"foo.h\"]\nPARSER:\n  SourcesPaths: [\"foo.h\"]\n  Defines: %s\nTRANSLATOR:\n%s\n  ConstRules: {defines: %s, enum: %s}\n  Rules:\n%s\n" % (
            defines(R), tips(R), R.choice(["expand", "eval", "cgo"]), R.choice(["expand", "eval", "cgo"]), ru.yaml())
        hidden = not any(ru.accepts(s, n) for s in c08.SCOPES for n in ("zz_hidden_fn", "zz_hidden_s", "zz_HIDDEN", "zz_hidden_e", "zz_HIDDEN_A", "zz_HIDDEN_B", "zz_HIDDEN_C", "zz_hidden_cb",
                                                                           "zz_hidden_reg", "zz_hidden_u", "zz_hidden_uf", "zz_hidden_v", "zz_hidden_tag", "zz_hidden_t"))
        return dict(m.sources(), **{"foo.yml": y}), hidden
    if kind == 3:
        files, _ = crowd(R)
        y = "GENERATOR:\n  PackageName: foo\n  Includes: [\"foo.h\"]\nPARSER:\n  SourcesPaths: [\"foo.h\"]\n  Defines: %s\nTRANSLATOR:\n%s\n  ConstRules: {defines: %s, enum: %s}\n  Rules:\n    global: [{action: accept, from: \"(?i)^my_\"}, {transform: export}]\n" % (
            defines(R), tips(R), R.choice(["expand", "eval"]), R.choice(["expand", "eval"]))
        return dict(files, **{"foo.yml": y}), True
    g = c06.Gen(seed)
    y = ("GENERATOR:\n  PackageName: a/foo\n  Includes: [\"foo.h\"]\n  FlagGroups:\n    - {name: LDFLAGS, traits: [linux, darwin], flags: [-lm, -lc]}\n    - {name: CFLAGS, flags: [-DX=1]}\n"
         "PARSER:\n  SourcesPaths: [\"foo.h\", \"two.h\"]\n  Defines: %s\nTRANSLATOR:\n  ConstRules: {defines: %s, enum: %s}\n  Rules:\n    global: [{action: accept, from: \"(?i)^my_\"}, {transform: export}]\n") % (
        defines(R), R.choice(["expand", "eval"]), R.choice(["expand", "eval"]))
    return {"foo.h": "#ifndef FOO_H\n#define FOO_H\n" + "\n".join(g.lines) + "\n#endif\n", "two.h": "#pragma once\n#include \"foo.h\"\ntypedef struct my_two { int a; int *b; struct my_two *n; } my_two;\nint my_f2(my_two *t, int *a, const char *s);\n",
            "foo.yml": y}, True


def tree(d):
    out = {}
    for a, _, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(a, f), d)] = open(os.path.join(a, f), "rb").read()
    return out


def one(ctx, i, seed, race, reps):
    R = random.Random(seed)
    files, hidden = source(R, seed, i % 4)
    top = ctx.mkdir("case%d" % i)
    d = os.path.join(top, "base")
    what = "case %d" % i
    try:
        for n, t in files.items():
            write(d, n, t)
        first = None
        r1 = [None]

        def run(label, cwd, args, tool=None, env=None, out=None, stamped=False):
            nonlocal first
            r = r1[0] = ctx.gen(cwd, ([] if stamped else ["-nostamp"]) + args, tool=tool, env=env, timeout=80)
            if r.timeout:
                ctx.violation("%s, run %s: c-for-go does not end" % (what, label), files)
                return False
            got = tree(out)
            if first is None:
                first = (r.rc, got)
                return r.rc == 0
            exp = first[1]
            if stamped:
                n = sum(len(STAMP.findall(t)) for t in got.values())
                if n != sum(len(STAMP.findall(t)) for t in exp.values()):
                    ctx.violation("%s: notices with and without timestamp differ in number" % what, files)
                got = {f: STAMP.sub(b"", t) for f, t in got.items()}
                exp = {f: STAMP.sub(b"", t) for f, t in exp.items()}
            if label.startswith("over"):
                got = {f: t for f, t in got.items() if f in exp}
            if r.rc != first[0] or got != exp:
                delta = sorted(f for f in set(got) | set(exp) if got.get(f) != exp.get(f))
                txt = ""
                if delta:
                    a, b = exp.get(delta[0], b"<no file>").split(b"\n"), got.get(delta[0], b"<no file>").split(b"\n")
                    k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                    txt = "%s:%d\n  first run: %s\n  this run:  %s" % (delta[0], k + 1, a[k:k + 1], b[k:k + 1])
                ctx.violation("%s: the run \"%s\" gives other output than the first: rc %s/%s, files %s\n%s" % (what, label, first[0], r.rc, delta[:6], txt), files)
                return False
            ctx.stat("runs compared")
            return True

        o = os.path.join(top, "o1")
        if not run("first", d, ["-out", o, "foo.yml"], out=o):
            ctx.violation("%s: c-for-go fails on the first run\n%s" % (what, r1[0].text[-600:]), files)
            return
        ok = True
        for k in range(reps):
            o = os.path.join(top, "r%d" % k)
            ok = ok and run("again, GOMAXPROCS=%d" % (1, 8, 2, 3)[k % 4], d, ["-out", o, "foo.yml"], env={"GOMAXPROCS": str((1, 8, 2, 3)[k % 4]), "GOGC": ("off", "1", "50", "5")[k % 4]}, out=o)
        ok = ok and run("over its own output", d, ["-out", os.path.join(top, "o1"), "foo.yml"], out=os.path.join(top, "o1"))
        # over the output of another input, and longer files
        o = os.path.join(top, "o2")
        for f, t in first[1].items():
            write(o, f, t + b"\n// left over\n" * 50 + b"\nvar leftOver%d = 1\n" % len(t) if f.endswith(".go") else b"/* left over */\n" * 900 + t)
        write(o, "foo/unions.go", "package foo\n\nimport \"C\"\n\nvar leftOver = 1\n")
        ok = ok and run("over other output", d, ["-out", o, "foo.yml"], out=o)
        o = os.path.join(top, "o3")
        os.makedirs(o)
        ok = ok and run("from another directory", o, ["../base/foo.yml"], out=o, env={"TZ": "Asia/Tokyo", "LANG": "tr_TR.UTF-8", "HOME": "/nonexistent", "GOPATH": "/nonexistent/go"})
        o = os.path.join(top, "o4")
        ok = ok and run("with an absolute path", "/", ["-out", o, os.path.join(d, "foo.yml")], out=o)
        o = os.path.join(top, "o5")
        if race:
            ok = ok and run("race detector build", d, ["-out", o, "foo.yml"], tool=race, env={"GORACE": "halt_on_error=1 exitcode=66"}, out=o)
        o = os.path.join(top, "o6")
        ok = ok and run("with timestamps", d, ["-out", o, "foo.yml"], out=o, stamped=True)
        if hidden:
            last = "two.h" if "two.h" in files else "foo.h"
            text = files[last]
            add = "\n".join(R.sample(EXTRA, R.randrange(1, 6))) + "\n"
            if text.rstrip().endswith("#endif"):
                k = text.rstrip().rindex("#endif")
                text = text[:k] + add + text[k:]
            else:
                text += add
            write(d, last, text)
            o = os.path.join(top, "o7")
            ok = ok and run("with declarations added that are not accepted", d, ["-out", o, "foo.yml"], out=o)
            ctx.stat("cases with an added declaration")
        ctx.evaluated(1, key=sorted(files.items()), events=sum(len(t) for t in first[1].values()))
        if i < 3:
            ctx.samples.append({"case": i, "files": {f: hashlib.sha1(t).hexdigest()[:12] for f, t in first[1].items()}})
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(top, ignore_errors=True)


def check(ctx):
    ctx.build_tool()
    race = ctx.build_tool(race=True)
    n = int(os.environ.get("VERIF_N") or (27 if ctx.tier == "quick" else 1200))
    budget = 60 if ctx.tier == "quick" and not os.environ.get("VERIF_N") else 780

    def go(i):
        if time.time() - ctx.t0 > budget and ctx.count > 9:
            ctx.stat("cases_not_run_for_time")
            return
        one(ctx, i, ctx.seed * 100003 + i, race, 5 if ctx.tier == "quick" else 14)
    # models are built from their seed only, in any order
    ctx.pmap(go, range(n))
    return ctx.finish(
        "an evaluation is one set of headers and manifest run a dozen times and more under other schedules, collector settings, places, environments, leftovers and with declarations added "
        "that are not accepted; all trees are compared byte for byte; distinct by input; events are bytes of output compared",
        ["map iteration orders are sampled by repeated runs, they cannot be forced from outside"], min_eval=6)
