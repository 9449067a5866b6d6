"""C20: validations, judged on the trace of validation calls, C calls and results, and by comparing the output with that of a run without any."""
import os, random, re, shutil, time
import harness
from harness import write

WORDS = ["get", "set", "open", "row", "item", "net", "Dev", "buf", "X", "v2", "q1", "end"]


def goname(n):
    return "".join(p[:1].upper() + p[1:] for p in n.split("_"))


# result kinds: C type, Go type, (C expression, logged value), (Ret in the manifest, logged value), how Go logs r
RES = {
    "v": ("void", "", [(None, "")], [("", ""), ("", "")], None),
    "i": ("int", "int32", [("7", "7"), ("-3", "-3"), ("0", "0")], [("-1", "-1"), ("0x10", "16"), ("zzconst + 2", "42"), ("zzcount(5)", "5")], "zi(int64(r))"),
    "u": ("unsigned long long", "uint64", [("18446744073709551615ull", "18446744073709551615"), ("1", "1")],
          [("^uint64(0)", "18446744073709551615"), ("99", "99")], "zu(uint64(r))"),
    "d": ("double", "float64", [("1.5", "15"), ("-2", "-20")], [("0.5", "5"), ("-1", "-10")], "zi(int64(r * 10))"),
    "s": ("const char *", "string", [('"text"', "text"), ('""', "")], [('"denied"', "denied"), ("``", ""), ('"a" + "b"', "ab")], "zt(r)"),
    "p": ("int *", "*int32", [("0", "nil"), ("&cell", "set")], [("nil", "nil"), ("zzcell", "set")], "if r == nil {\nzt(\"nil\")\n} else {\nzt(\"set\")\n}"),
    "r": ("my_rec", "MyRec", [("(my_rec){4, 8}", "4/8"), ("(my_rec){0, -1}", "0/-1")], [("MyRec{}", "0/0"), ("MyRec{A: 3, B: zzconst}", "3/40")],
          "zi(int64(zzrec(&r).A)); zt(\"/\"); zi(int64(r.B))"),
    "b": ("_Bool", "bool", [("1", "1"), ("0", "0")], [("false", "0"), ("true", "1")], "zb(r)"),
    "e": ("my_kind", "MyKind", [("my_two", "2")], [("MyOne", "1"), ("MyKind(9)", "9")], "zi(int64(r))"),
}


class Case:
    def __init__(self, seed):
        R = self.R = random.Random(seed)
        self.safe = R.random() < 0.3
        self.inst = []
        self.funcs, self.vals = [], []
        names = set()
        for _ in range(R.randrange(8, 16)):
            k = R.choice(list(RES))
            n = "my_%s_%s" % (k, "_".join(R.sample(WORDS, R.randrange(1, 4))))
            if self.funcs and R.random() < 0.2:     # a name that goes on where another ends
                n, k = self.funcs[-1][0] + "_" + R.choice(WORDS), self.funcs[-1][1]
            if n in names or goname(n) in {goname(x) for x in names}:
                continue
            names.add(n)
            ps = [R.choice(["int", "arr", "str", "rec", "recref", "dbl"]) for _ in range(R.randrange(0, 4))]
            self.funcs.append((n, k, ps))
            if ps and ps[0] == "recref" and R.random() < 0.5:
                self.inst.append(n)
        for j in range(R.randrange(0, 7)):
            self.mk_validation(j)
        self.nfn = 3
        self.body = {n: [] for n, _, _ in self.funcs}
        self.drv, self.expect, self.calls, self.denied, self.guarded = [], [], 0, 0, 0
        for _ in range(4):
            for f in R.sample(self.funcs, len(self.funcs)):
                self.call(*f)

    def mk_validation(self, j):
        """A validation whose pattern only names functions with one kind of result."""
        R = self.R
        n, k, _ = R.choice(self.funcs)
        w = R.choice(WORDS)
        p = R.choice(["^%s$" % n, "^%s$" % n, "^my_%s_" % k, "my_%s_.*%s" % (k, w), "^my_%s_(?!.*%s)" % (k, w), "_%s_(?=%s)" % (k, n.split("_")[2]), "^my_%s_\\w+$" % k,
                      "(?<=my_)%s_%s" % (k, n.split("_")[2]), "(?i)^MY_%s_.*%s" % (k.upper(), w.upper()), "^(my)_%s_(%s|%s)" % (k, w, R.choice(WORDS)),
                      n[:-1] + "[%s]$" % n[-1], "^my_%s_.{3,4}$" % k, "my_%s_nothing" % k,
                      n, n, "^" + n.swapcase().replace("MY_" + k.upper(), "my_" + k) + "$", "^my_%s_%s" % (k, w.swapcase()), "^%s$" % goname(n), "%s" % goname(n)])
        self.vals.append((R.randrange(3), p, k, R.choice(RES[k][3])))

    def first(self, n):
        for v in self.vals:
            if re.search(v[1], n):
                return v
        return None

    def call(self, n, k, ps):
        R = self.R
        c = self.calls
        self.calls += 1
        v = self.first(n)
        C, pre, args, post = ['vl_t("C %s");' % n], [], [], []
        cx, unchanged, changed = "C %s" % n, "", ""
        recv = None
        for i, p in enumerate(ps):
            a, q = "a%d" % i, "p%d" % i
            x = R.randrange(-50, 50)
            if p == "int":
                pre.append("%s := int32(%d)" % (a, x))
                C.append('vl_t(" "); vl_i(%s);' % q)
                cx += " %d" % x
            elif p == "dbl":
                pre.append("%s := float64(%d)" % (a, x))
                C.append('vl_t(" "); vl_i((long long)%s);' % q)
                cx += " %d" % x
            elif p == "str":
                pre.append('%s := zheap("s%d")' % (a, x))
                C.append('vl_t(" "); vl_t(%s);' % q)
                cx += " s%d" % x
            elif p == "arr":
                y = R.randrange(1000)
                pre.append("%s := []int32{%d, 5}" % (a, x))
                C.append('vl_t(" "); vl_i(%s[0]); %s[0] = %d;' % (q, q, y))
                cx += " %d" % x
                post.append('zt(" "); zi(int64(%s[0]))' % a)
                unchanged += " %d" % x
                changed += " %d" % y
            elif p == "rec":
                pre.append("%s := MyRec{A: %d, B: 6}" % (a, x))
                C.append('vl_t(" "); vl_i(%s.a);' % q)
                cx += " %d" % x
            else:
                y = R.randrange(1000)
                pre.append("%s := &MyRec{A: %d, B: 6}" % (a, x))
                C.append('vl_t(" "); vl_i(%s->a); %s->a = %d;' % (q, q, y))
                cx += " %d" % x
                # a denied call does not touch the structure: it has no C side afterwards
                post.append("if %s.Ref() == nil {\nzt(\" untouched \")\n} else {\nzt(\" passed \")\n%s.Deref()\n}\nzi(int64(%s.A))" % (a, a, a))
                unchanged += " untouched %d" % x
                changed += " passed %d" % y
                if i == 0 and n in self.inst:
                    recv = a
            if recv != a:
                args.append(a)
        C.append("vl_nl();")
        deny = R.random() < 0.4
        ct, gt, outs, _, lg = RES[k]
        res = R.choice(outs)
        self.drv += ["{"] + pre
        self.drv.append("zzdeny = %s" % ("true" if deny else "false"))
        call = "%s%s(%s)" % (recv + "." if recv else "", goname(n), ", ".join(args))
        g = "G%d" % c
        if v:
            self.guarded += 1
            self.expect.append("V%d %s" % (v[0], n))
        denied = bool(v and deny)
        if not denied:
            if ct != "void":
                C.append("return %s;" % res[0])
            self.drv.append("zzsetcall(%d)" % len(self.body[n]))
            self.body[n].append(C)
            self.expect.append(cx)
        else:
            self.denied += 1
            self.drv.append("zzsetcall(-1)")
        if lg:
            self.drv += ["r := " + call, 'zt("%s ")' % g, lg]
            g += " " + (v[3][1] if denied else res[1])
        else:
            self.drv += [call, 'zt("%s")' % g]
        self.drv += post + ["znl()", "}"]
        self.expect.append(g + (unchanged if denied else changed))

    def proto(self, n, k, ps):
        ct = {"int": "int %s", "dbl": "double %s", "str": "const char *%s", "arr": "int *%s", "rec": "my_rec %s", "recref": "my_rec *%s"}
        return "%s %s(%s)" % (RES[k][0], n, ", ".join(ct[p] % ("p%d" % i) for i, p in enumerate(ps)) or "void")

    def header(self):
        return "\n".join(["#pragma once", "typedef struct my_rec { int a; int b; } my_rec;", "typedef enum { my_one = 1, my_two } my_kind;"] +
                         [self.proto(*f) + ";" for f in self.funcs]) + "\n"

    def manifest(self, validations=True):
        o = ["---", "GENERATOR:", "  PackageName: foo", '  Includes: ["foo.h"]']
        if self.safe:
            o.append("  Options: {SafeStrings: true, KeepAlive: true}")
        o += ["PARSER:", '  IncludePaths: ["/usr/include"]', '  SourcesPaths: ["foo.h"]', "TRANSLATOR:"]
        if validations and self.vals:
            o.append("  Validations:")
            for f, p, k, r in self.vals:
                o += ["    - matchedfunc: '%s'" % p, "      validatefunc: %s" % ["zzCheck0", "zzChecks.Check1", "zzCheck2"][f]]
                if r[0]:
                    o.append("      ret: '%s'" % r[0])
        o += ["  PtrTips:", "    function:"]
        for n, k, ps in self.funcs:
            if "recref" in ps:
                o.append("      - {target: ^%s$, tips: [%s]}" % (n, ", ".join(("inst" if i == 0 and n in self.inst else "ref") if p == "recref" else "0" for i, p in enumerate(ps))))
        o.append("      - {target: ^never$, tips: [ref]}")
        o += ["  Rules:", "    global:", '      - {action: accept, from: "^my_"}', "      - {transform: export}",
              "    private:", "      - {transform: unexport}", "    post-global:", "      - {load: snakecase}"]
        return "\n".join(o) + "\n"

    def impl(self):
        o = ['#include "foo.h"', '#include "vrt.h"', "static int cell;"]
        for n, k, ps in self.funcs:
            o.append(self.proto(n, k, ps) + " {\nswitch (v_getcall()) {")
            for j, b in enumerate(self.body[n]):
                o += ["case %d: {" % j] + b + ["break; }"]
            o.append('default: vl_t("C %s without leave"); vl_nl();\n}' % n)
            if k != "v":
                o.append("return %s;" % RES[k][2][0][0])
            o.append("}")
        return "\n".join(o) + "\n"

    def driver(self):
        return "\n".join(['''package foo

import (
	"errors"
	"runtime"
)

const zzconst = 40

var zzdeny bool
var zzcell = new(int32)

type zzset struct{}

var zzChecks zzset

func zzcount(i int32) int32  { return i }
func zzrec(r *MyRec) *MyRec {
	if r.Ref() != nil {
		r.Deref()
	}
	return r
}
func zzlog(i int64, s string) bool {
	zt("V")
	zi(i)
	zt(" " + s)
	znl()
	return zzdeny
}

// an error, a method with an error, and a pointer
func zzCheck0(s string) error {
	if zzlog(0, s) {
		return errors.New("denied")
	}
	return nil
}
func (zzset) Check1(s string) error {
	if zzlog(1, s) {
		return errors.New("denied")
	}
	return nil
}
func zzCheck2(s string) *int {
	if zzlog(2, s) {
		return new(int)
	}
	return nil
}
''', "func ZZMain() {", "runtime.LockOSThread()"] + self.drv + ["}"]) + "\n"


def functions(text):
    """{header line: the text of the function}"""
    return {m.group(1): m.group(0) for m in re.finditer(r"^func ([^\n]*) \{\n.*?^\}\n", text, re.M | re.S)}


def one(ctx, i):
    c = Case(ctx.seed * 100003 + i)
    man = c.manifest()
    c.manifest = lambda validations=True, old=c.manifest: man if validations else old(False)
    o = harness.case(ctx, c, "case%d" % i, what="case %d" % i, key=man + c.header(), keep=True)
    try:
        if not (o and o.ok):
            return
        ctx.stat("calls", c.calls)
        ctx.stat("calls_with_a_guard", c.guarded)
        ctx.stat("calls_denied", c.denied)
        d = ctx.mkdir("case%d.plain" % i)
        write(d, "go.mod", "module p\n\ngo 1.21\n")
        write(d, "foo.h", c.header())
        write(d, "foo.yml", c.manifest(False))
        r = ctx.gen(d, ["foo.yml"])
        a = functions(open(os.path.join(o.dir, "foo", "foo.go")).read())
        try:
            b = functions(open(os.path.join(d, "foo", "foo.go")).read())
        except OSError:
            b = {}
        src = {"foo.h": c.header(), "foo.yml": man}
        guard = {n for n, _, _ in c.funcs if c.first(n)}
        norm = lambda t: re.sub(r"\bh?x?[0-9a-f]{6,8}\b", "X", t)
        bad = [h for h in b if h not in a]
        n = 0
        for name, k, _ in c.funcs:
            hs = [h for h in b if re.search(r"(^|\) )%s\(" % re.escape(goname(name)), h)]
            if len(hs) != 1:
                bad.append("%s: %d functions" % (name, len(hs)))
                continue
            same = norm(a.get(hs[0], "")) == norm(b[hs[0]])
            n += 1
            if name not in guard and not same:
                bad.append("%s is not named by a validation, and differs from the output without validations" % name)
        ctx.stat("functions_compared_with_a_run_without_validations", n)
        if r.rc != 0 or bad:
            ctx.violation("case %d: with and without validations: rc %d\n%s" % (i, r.rc, "\n".join(bad[:8])), src)
        shutil.rmtree(d, ignore_errors=True)
        if i < 2:
            ctx.samples.append({"case": i, "validations": [[v[1], v[3][0]] for v in c.vals], "events": c.expect[:5]})
    finally:
        if o and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(o.dir, ignore_errors=True)


def check(ctx):
    ctx.build_tool()
    quick = ctx.tier == "quick"
    n = int(os.environ.get("VERIF_N") or (40 if quick else 2500))
    budget = 60 if quick and not os.environ.get("VERIF_N") else 780

    def go(i):
        if time.time() - ctx.t0 > budget and ctx.count >= 12:
            ctx.stat("cases_not_run_for_time")
            return
        one(ctx, i)
    ctx.pmap(go, range(n))
    return ctx.finish(
        "an evaluation is one package generated with a random validation list, whose functions are called with validations that permit and deny from call to call; "
        "the trace of validation calls, C calls, results and arguments after the call is compared with the script, and the functions without a validation with the output of a run "
        "that has none; distinct by manifest and header",
        ["patterns in the part of the syntax that Python and regexp2 share", "return values fit the result type, as the configuration asks"], min_eval=5)
