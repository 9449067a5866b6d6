"""C21: the mode without cgo, built with cgo switched off and compared, value by value and type by type, with the normal mode."""
import os, random, re, shutil, time
import c06, c10, harness, profiles, vlib
from harness import write

RULES = """TRANSLATOR:
  ConstRules: {%s}
  Rules:
    global:
      - {action: accept, from: "(?i)^my_"}
      - {transform: export}
    post-global:
      - {load: snakecase}
"""
OWN = re.compile(r"^(ref|allocs)[0-9a-f]{1,8}$")


def mode(R):
    return "defines: %s, enum: %s" % (R.choice(["expand", "eval"]), R.choice(["expand", "eval"]))


def own_model(R):
    """Plain structures, unions, opaques, callbacks, enums, aliases and constants that refer to each other."""
    L, ints, sizes = ["#include <stddef.h>", "#include <stdint.h>"], [], []
    scal = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long",
            "float", "double", "_Bool", "int8_t", "uint16_t", "int32_t", "uint64_t", "size_t", "intptr_t"]
    types, enums, structs, unions, opqs, cbs = list(scal), [], [], [], [], []
    cell = [0]

    def nm(p):
        cell[0] += 1
        return "my_%s%d" % (p, cell[0])

    def alias():
        n = nm("al")
        L.append("typedef %s %s;" % (R.choice(types), n))
        types.append(n)

    def enum():
        n = nm("en")
        vals, v = [], R.choice([0, 0, 1, -3, 100])
        for j in range(R.randrange(1, 6)):
            vals.append("MY_%s_%d%s" % (n[3:].upper(), j, R.choice(["", "", " = %d" % R.randrange(-50, 500), " = 1 << %d" % R.randrange(12), " = 0x%x" % R.randrange(4096)])))
        form = R.randrange(3)
        L.append(["typedef enum %s { %s } %s;" % (n, ", ".join(vals), n), "typedef enum { %s } %s;" % (", ".join(vals), n), "enum { %s };" % ", ".join(vals)][form])
        if form < 2:
            enums.append(n)
            types.append(n)

    def define():
        n = "MY_D%d" % cell[0]
        cell[0] += 1
        k = R.randrange(6)
        if k == 0:
            t = '"%s"' % "".join(R.choice("ab %/z") for _ in range(R.randrange(6)))
        elif k == 1:
            t = R.choice(["1.5", "2e3", "0.25f", "-3.5"])
        elif k == 2 and ints:
            t = "(%s %s %d)" % (R.choice(ints), R.choice("+-*|&^"), R.randrange(1, 99))
        elif k == 3:
            t = R.choice(["'a'", "'\\n'", "'0'"])
        elif k == 4:
            t = "%du" % R.randrange(1 << 31)
        else:
            t = str(R.randrange(-5000, 5000))
            t = "(%s)" % t if t[0] == "-" else t
            ints.append(n)
        L.append("#define %s %s" % (n, t))

    def member(j, allow=True):
        k = R.randrange(13)
        t = R.choice(types)
        if k < 4:
            return "%s f%d;" % (t, j)
        if k == 4:
            return "%s f%d[%d];" % (t, j, R.randrange(1, 9))
        if k == 5:
            return "%s%s *f%d;" % (R.choice(["", "const "]), R.choice(scal), j)
        if k == 6:
            return "%s *f%d;" % (R.choice(["void", "const void"]), j)
        if k == 7:
            return "%schar *f%d;" % (R.choice(["const ", ""]), j)
        if k == 8 and structs:
            return "%s %sf%d%s;" % (R.choice(structs), R.choice(["", "", "*"]), j, R.choice(["", "[3]"]))
        if k == 9 and unions:
            return "%s f%d%s;" % (R.choice(unions), j, R.choice(["", "[2]"]))
        if k == 10 and opqs:
            return "%s *f%d;" % (R.choice(opqs), j)
        if k == 11 and cbs:
            return "%s f%d;" % (R.choice(cbs), j)
        if k == 12:
            return "int **f%d;" % j
        return "int f%d;" % j

    def struct():
        n = nm("st")
        b = " ".join(member(j) for j in range(R.randrange(1, 7)))
        form = R.randrange(4)
        if form == 0:
            b += " struct %s *next;" % n
        L.append(["typedef struct %s { %s } %s;" % (n, b, n), "typedef struct { %s } %s;" % (b, n), "struct %s { %s };\ntypedef struct %s %s;" % (n, b, n, n)][form % 3])
        structs.append(n)
        if R.random() < 0.25:
            a = nm("sa")
            L.append("typedef %s %s;" % (n, a))
            structs.append(a)

    def union():
        n = nm("un")
        b = " ".join("%s f%d%s;" % (R.choice(scal + structs), j, R.choice(["", "[%d]" % R.randrange(1, 40)])) for j in range(R.randrange(1, 5)))
        L.append("typedef union %s { %s } %s;" % (R.choice([n, ""]), b, n))
        unions.append(n)

    def opq():
        n = nm("op")
        L.append("typedef struct %s %s;" % (n + R.choice(["", "_"]), n))
        opqs.append(n)

    def cb():
        n = nm("cb")
        ps = []
        for j in range(R.randrange(0, 5)):
            ps.append(R.choice(["%s p%d" % (R.choice(scal), j), "const char *p%d" % j, "void *p%d" % j, "int *p%d" % j,
                                "%s *p%d" % (R.choice(structs or opqs or ["int"]), j), "%s p%d" % (R.choice(enums or ["int"]), j)]))
        L.append("typedef %s (*%s)(%s);" % (R.choice(["void", "int", "double", "void *"]), n, ", ".join(ps) or "void"))
        cbs.append(n)

    def func():
        n = nm("fn")
        L.append("%s %s(%s);" % (R.choice(["void", "int", "const char *"]), n, ", ".join(
            R.choice(["int p%d", "const char *p%d", "double *p%d", "%s *p%%d" % R.choice(structs or ["int"])]) % j for j in range(R.randrange(1, 4)))))
    kinds = [alias, enum, define, define, struct, struct, union, opq, cb, func]
    for _ in range(R.randrange(15, 45)):
        R.choice(kinds)()
    return "\n".join(L) + "\n"


def source(i, seed):
    R = random.Random(seed * 7 + 1)
    head = 'GENERATOR:\n  PackageName: foo\n  Includes: ["foo.h"]%s\nPARSER:\n  SourcesPaths: ["foo.h"]\n' % R.choice(["", "\n  PackageDescription: text", "\n  Options: {SafeStrings: true}"])
    k = i % 4
    if k == 0:
        api = profiles.model(seed, R.sample(c10.ALLP, 6) + ["val"], R.sample(c10.ALLR, 4), c10.ALLF, nfunc=R.randrange(2, 10), ncall=0, nstruct=R.randrange(3, 9), ncb=R.randrange(1, 6),
                             raw=R.choice([0, 0, 2]), opts={o: True for o in R.sample(["SafeStrings", "StructAccessors"], R.randrange(3))})
        return {"foo.h": api.header(), "foo.yml": api.manifest()}, "api"
    if k == 1:
        g = c06.Gen(seed)
        text = "#pragma once\n" + "\n".join(g.lines) + "\n"
        return {"foo.h": text, "foo.yml": head + RULES % mode(R)}, "constants"
    return {"foo.h": "#ifndef FOO_H\n#define FOO_H\n%s#endif\n" % own_model(R), "foo.yml": head + RULES % mode(R)}, "types"


PROBE = '''package foo

import (
	"os"
	"reflect"
	"fmt"
)

var zzTypes = map[string]reflect.Type{}

func zzFields(n string, t reflect.Type) {
	fmt.Fprintf(os.Stdout, "T %%s %%s", n, t.Kind())
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			fmt.Fprintf(os.Stdout, " ; %%s %%s", f.Name, f.Type)
		}
	case reflect.Array:
		fmt.Fprintf(os.Stdout, " [%%d]%%s", t.Len(), t.Elem())
	case reflect.Func:
		for i := 0; i < t.NumIn(); i++ {
			fmt.Fprintf(os.Stdout, " , %%s", t.In(i))
		}
		for i := 0; i < t.NumOut(); i++ {
			fmt.Fprintf(os.Stdout, " > %%s", t.Out(i))
		}
	case reflect.Ptr, reflect.Slice:
		fmt.Fprintf(os.Stdout, " %%s", t.Elem())
	}
	fmt.Fprintln(os.Stdout)
}

func ZZMain() {
%s}
'''


LARGE = re.compile(r"zz\.go:\d+:\d+: cannot use (\w+) \(untyped int constant[^)]*\) as int value in variable declaration \(overflows\)")


def observe(ctx, d, pkg, decls, cgo, wide=()):
    """What a program sees of the package: {name: line}, or (None, text). The untyped constants
    in wide don't fit an int."""
    body = []
    for x in decls:
        if x["Name"] == "_" or x["Name"].startswith("zz"):
            continue
        if x["Kind"] in ("const", "var"):
            if x["Name"].startswith("sizeof"):
                continue
            kw = x["Kind"]
            body.append("{ %s; fmt.Fprintf(os.Stdout, \"C %s %s %%T %%#v\\n\", c, c) }" % (("var c interface{} = uint64(%s)" if x["Name"] in wide else "var c interface{} = %s") % x["Name"], x["Name"], kw))
        elif x["Kind"] == "type":
            body.append("zzFields(\"%s\", reflect.TypeOf((*%s)(nil)).Elem())" % (x["Name"], x["Name"]))
    write(d, pkg + "/zz.go", PROBE % "\n".join(body))
    write(d, "cmd_%s/main.go" % pkg, 'package main\n\nimport foo "p/%s"\n\nfunc main() { foo.ZZMain() }\n' % pkg)
    b = ctx.go(d, ["build", "-o", "drv_" + pkg, "./cmd_" + pkg], env={"CGO_CFLAGS": "-w", "CGO_LDFLAGS": "-Wl,--unresolved-symbols=ignore-all"} if cgo else {"CGO_ENABLED": "0", "CC": "/nonexistent/cc", "PATH": nocc(ctx)})
    if b.rc != 0:
        large = {n for n in LARGE.findall(b.text) if n not in wide}
        if large:
            return observe(ctx, d, pkg, decls, cgo, large | set(wide))
        return None, b.text
    x = vlib.run([os.path.join(d, "drv_" + pkg)], cwd=d, env=ctx.env, timeout=60)
    if x.rc != 0:
        return None, x.text
    out = {}
    for l in x.out.decode().replace("foo.", "").splitlines():
        p = l.split(" ; ")
        f = p[0].split(" ")
        out[f[0] + " " + f[1]] = " ; ".join([" ".join(f[2:])] + [q for q in p[1:] if not OWN.match(q.split(" ")[0])])
    return out, ""


def nocc(ctx):
    """A PATH with go alone."""
    p = os.path.join(ctx.mkdir("nocc"), "bin")
    os.makedirs(p, exist_ok=True)
    g = os.path.join(p, "go")
    if not os.path.exists(g):
        try:
            os.symlink(shutil.which("go", path=ctx.env.get("PATH")), g)
        except FileExistsError:
            pass
    return p


def one(ctx, i):
    files, kind = source(i, ctx.seed * 100003 + i)
    d = ctx.mkdir("case%d" % i)
    what = "case %d (%s)" % (i, kind)
    try:
        for n, t in files.items():
            write(d, n, t)
        write(d, "go.mod", "module p\n\ngo 1.21\n")
        a = ctx.gen(d, ["-nostamp", "-out", "n", "foo.yml"])
        b = ctx.gen(d, ["-nostamp", "-nocgo", "-out", "c", "foo.yml"])
        if a.rc != 0 or b.rc != 0 or a.timeout or b.timeout:
            ctx.violation("%s: c-for-go gives rc %s in the normal mode, %s without cgo\n%s%s" % (what, a.rc, b.rc, a.text[-600:], b.text[-600:]), files)
            return
        names = sorted(os.listdir(os.path.join(d, "c", "foo"))) if os.path.isdir(os.path.join(d, "c", "foo")) else []
        bad = ["the file %s is written" % n for n in names if n not in ("const.go", "types.go", "doc.go")]
        if not names:
            bad.append("nothing is written")
        scan = harness.scan(ctx, os.path.join(d, "c", "foo"), os.path.join(d, "n", "foo"))
        plain, full = scan
        for f in plain["Files"]:
            if f.get("Error"):
                bad.append("%s does not parse: %s" % (f["Name"], f["Error"]))
            if any('"C"' in x for x in f.get("Imports") or []) or f.get("CRefs"):
                bad.append("%s needs cgo: imports %s, refers to %s" % (f["Name"], f["Imports"], (f["CRefs"] or [])[:4]))
            if f.get("Preamble") or "#include" in "".join(f.get("Comments") or []) or "#cgo" in "".join(f.get("Comments") or []):
                bad.append("%s has a C preamble" % f["Name"])
        funcs = [x["Name"] for x in plain["Decls"] if x["Kind"] in ("func", "method")]
        if funcs:
            bad.append("functions are declared: %s" % funcs[:4])
        if bad:
            ctx.violation("%s: the output without cgo: %s" % (what, "; ".join(bad[:6])), files, copy_dir=os.path.join(d, "c", "foo"))
            return
        for m in ("n", "c"):
            shutil.move(os.path.join(d, m, "foo"), os.path.join(d, "p" + m))
        shutil.copy(os.path.join(d, "foo.h"), os.path.join(d, "pn", "foo.h"))
        helpers = {x["Name"] for x in full["Decls"] if x["File"] == "cgo_helpers.go"}
        want = [x for x in full["Decls"] if x["Kind"] in ("const", "var", "type") and x["Name"] not in helpers]
        have = [x for x in plain["Decls"] if x["Kind"] in ("const", "var", "type")]
        c, err = observe(ctx, d, "pc", have, False)
        if c is None:
            ctx.violation("%s: the package without cgo does not build where there is no C compiler\n%s" % (what, err[:1500]), files, copy_dir=os.path.join(d, "pc"))
            return
        n, err = observe(ctx, d, "pn", want, True)
        if n is None:
            ctx.violation("%s: the package of the normal mode does not build\n%s" % (what, err[:1500]), files)
            return
        cg = {"T " + x["Name"] for x in want if x["Kind"] == "type" and re.match(r"^(\*?)C\.", x["Type"] or "")}
        for k in sorted(set(n) | set(c)):
            if k not in n or k not in c:
                bad.append("%s is only in the output %s cgo" % (k[2:], "with" if k in n else "without"))
            elif n[k] != c[k] and k not in cg:
                bad.append("%s is %s without cgo, %s with it" % (k[2:], c[k], n[k]))
            elif k in cg:
                ctx.stat("types that are C types in the normal mode")
                if not c[k].startswith("struct") and not (n[k].startswith("ptr ") and c[k] == "unsafe.Pointer"):
                    bad.append("%s, a C struct in the normal mode, is %s" % (k[2:], c[k]))
        if bad:
            ctx.violation("%s: %s" % (what, "; ".join(bad[:6])), files, copy_dir=os.path.join(d, "pc"))
        ctx.stat("constants compared", sum(k[0] == "C" for k in n))
        ctx.stat("types compared", sum(k[0] == "T" for k in n) - len(cg))
        for k, v in n.items():
            ctx.stat("kind " + ("constant" if k[0] == "C" else v.split(" ")[0]))
        ctx.evaluated(1, key=sorted(files.items()), events=len(n) + len(c))
        if i < 3:
            ctx.samples.append({"case": i, "kind": kind, "seen": [k + " " + v for k, v in sorted(c.items())[:4]]})
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


def check(ctx):
    ctx.build_tool()
    harness.build_goscan(ctx)
    nocc(ctx)
    quick = ctx.tier == "quick"
    n = int(os.environ.get("VERIF_N") or (64 if quick else 2500))
    budget = 60 if quick and not os.environ.get("VERIF_N") else 780

    def go(i):
        if time.time() - ctx.t0 > budget and ctx.count >= 12:
            ctx.stat("cases_not_run_for_time")
            return
        one(ctx, i)
    ctx.pmap(go, range(n))
    return ctx.finish(
        "an evaluation is one header and manifest generated with and without cgo; the output without cgo is built with cgo switched off and no C compiler on the path, and a program in each "
        "package prints the type and value of every constant and the type of every declared type, which must be the same; distinct by header and manifest",
        ["constants configured to be cgo references need cgo, and are outside the dialect", "a type that is a C type in the normal mode (raw, opaque) has no counterpart to compare with but its name"], min_eval=10)
