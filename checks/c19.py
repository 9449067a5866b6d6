"""C19: string contents logged on both sides of the boundary, under every string option."""
import os, random, zlib
import harness

POOL = bytearray()


def pool():
    if not POOL:
        b, x = bytearray(), 12345
        for _ in range(1 << 18):
            x = (x * 1103515245 + 12345) & 0x7FFFFFFF
            b.append(1 + (x >> 16) % 255)
        POOL.extend(b)
    return POOL


def goname(n):
    return "".join(p[:1].upper() + p[1:] for p in n.split("_"))


C_SPELL = {"c": ["const char *%s", "char const *%s", "const char %s[]", "const char *const %s", "const char *restrict %s", "const char %s[16]"],
           "u": ["const unsigned char *%s", "unsigned char const *%s", "const unsigned char *const %s", "const unsigned char %s[]"],
           "m": ["char *%s", "char %s[]", "char *const %s"],
           "um": ["unsigned char *%s", "unsigned char %s[]"],
           "nc": ["const my_ch *%s", "my_ch const *%s", "const my_ch %s[]"],
           "nu": ["const my_uc *%s", "my_uc const *%s"],
           "nm": ["my_ch *%s"]}
CT = {"c": "char", "u": "unsigned char", "m": "char", "um": "unsigned char", "nc": "my_ch", "nu": "my_uc", "nm": "my_ch"}
GB = {"c": "byte", "u": "byte", "m": "byte", "um": "byte", "nc": "MyCh", "nu": "MyUc", "nm": "MyCh"}


class Val:
    """A piece of the pool, perhaps with a zero in it or at its end."""

    def __init__(self, off, n, nul=None, z=False):
        self.off, self.n, self.nul, self.z = off, n, nul, z

    def bytes(self):
        b = bytearray(pool()[self.off:self.off + self.n])
        if self.nul is not None:
            b[self.nul] = 0
        return bytes(b) + (b"\0" if self.z else b"")

    def cstr(self):
        return self.bytes().split(b"\0")[0]

    def go(self):
        return "zzval(%d, %d, %d, %s)" % (self.off, self.n, -1 if self.nul is None else self.nul, "true" if self.z else "false")

    def c(self):
        return "cval(%d, %d)" % (self.off, self.n)


def h(b):
    return "%d:%d" % (len(b), zlib.crc32(b))


class Case:
    def __init__(self, seed):
        R = self.R = random.Random(seed)
        self.cstr = R.random() < 0.7
        self.ustr = R.random() < 0.4
        self.safe = R.random() < 0.5
        self.keep = R.random() < 0.3
        self.names = ["my_f%d%s" % (i, R.choice(["", "_at", "_box"])) for i in range(R.randrange(7, 12))]
        self.tips, self.funcs, self.cbs = [], [], []
        self.body, self.drv, self.expect, self.calls = {}, [], [], 0
        self.nul = 0
        for i in range(R.randrange(1, 3)):
            n = "my_cb%d" % i
            self.tip(n, 3)
            self.cbs.append((n, [(R.choice(["c", "c", "u", "m", "nc"]), R.random() < 0.8) for _ in range(R.randrange(1, 4))]))
        for f in self.names:
            self.tip(f, 6)
            ps = []
            for _ in range(R.randrange(0, 5)):
                k = R.random()
                if k < 0.45:
                    kd = R.choice(["c", "c", "c", "u", "u", "m", "um", "nc", "nu", "nm"])
                    sp = R.choice(C_SPELL[kd])
                    ps.append(["one", kd, sp])
                elif k < 0.75:
                    kd = R.choice(["c", "c", "u", "m", "nc", "um"])
                    cc = kd in ("c", "u", "nc") and R.random() < 0.3
                    sp = ("const " if kd in ("c", "u", "nc") else "") + CT[kd] + (" *const *%s" if cc else R.choice([" **%s", " *%s[]", " *%s[4]"]))
                    ps.append(["many", kd, sp, cc])
                elif k < 0.85:
                    kd = R.choice(["c", "c", "u"])
                    ps.append(["deep", kd, "const " + CT[kd] + " ***%s"])
                elif not any(p[0] == "cb" for p in ps):
                    ps.append(["cb", R.choice(self.cbs)])
            r = R.choice([None, None, "c", "c", "c", "u", "m", "um"])
            # strings in the result position: the tip of the function itself
            self.funcs.append((f, ps, r))
            self.body[f] = []
        for _ in range(3):
            for f in self.funcs:
                self.call(*f)

    # ------------------------------------------------------------ options
    def tip(self, name, n):
        R = self.R
        if R.random() < 0.4:
            self.tips.append((name, [R.choice([None, None, "string", "plain"]) for _ in range(n)], R.choice([None, "string", "plain"])))

    def tip_at(self, name, i):
        for n, t, s in self.tips:
            if n == name:
                return t[i] if i < len(t) else None
        return None

    def self_tip(self, name):
        for n, t, s in self.tips:
            if n == name:
                return s
        return None

    def is_string(self, kd, tip):
        if kd in ("nc", "nu") and tip is None:
            return False
        if kd in ("c", "nc"):
            return self.cstr or tip == "string"
        if kd in ("u", "nu"):
            return self.ustr
        return False

    def base(self, kd, tip):
        return "byte" if tip == "plain" else GB[kd]

    def cbfuncs(self):
        """The Go functions that are passed as callbacks: one for every type, since the first one of a type stays."""
        out = []
        for n, ps in self.cbs:
            sig, body = [], ['zt("B")']
            for q, (kd, _) in enumerate(ps):
                tip = self.tip_at(n, q)
                if self.is_string(kd, tip):
                    sig.append("q%d string" % q)
                    body.append('zt(" q%d="); zzs(q%d)' % (q, q))
                    continue
                b = self.base(kd, tip)
                sig.append("q%d []%s" % (q, b))
                body.append("{\nx := q%d[:zzlen(%d)]\nzt(\" q%d=\")\nzzb(%s)" % (q, q, q, self.conv(b, "x")))
                if kd == "m":
                    body.append("if x[len(x)-1] != 0x55 {\nx[len(x)-1] ^= 0x55\n} else {\nx[len(x)-1] ^= 0x11\n}")
                body.append("}")
            body += ["znl()", "return zzret()"]
            out.append("func zz%s(%s) int32 {\n%s\n}" % (n, ", ".join(sig), "\n".join(body)))
        return out

    # ------------------------------------------------------------ values
    def val(self, nul=False, small=False):
        R = self.R
        n = R.choice([0, 0, 1, 1, 2, 3, 7, 8, 15, 16, 31, 63, 64, 255, 256, 1000] + ([] if small else [4095, 4096, 4097, 65535, 65536, 100001]))
        v = Val(R.randrange(0, len(pool()) - n), n)
        if nul and n and R.random() < 0.15:
            v.nul = R.choice([0, n - 1, R.randrange(n)])
            self.nul += 1
        elif nul and R.random() < 0.1:
            v.z = True
        return v

    # ------------------------------------------------------------ one call
    def call(self, f, ps, ret):
        R = self.R
        k = self.calls
        self.calls += 1
        C, pre, post, late, args = [], [], [], [], []
        ex = "C%d" % k
        expost, exlate = "", ""
        gc = R.random() < 0.25
        relog, relogx = [], ""
        made = False
        C.append('vl_t("C%d");' % k)
        tail, lines_mid = [], []
        for i, p in enumerate(ps):
            a = "a%d" % i
            n = "p%d" % i
            tip = self.tip_at(f, i)
            if p[0] == "one":
                kd = p[1]
                if self.is_string(kd, tip):
                    v = self.val(nul=True)
                    pre.append("%s := %s" % (a, v.go()))
                    lg = 'vl_t(" %s="); ls(%s);' % (n, n)
                    C.append(lg)
                    ex += " %s=%s" % (n, h(v.cstr()))
                    relog.append(lg)
                    relogx += " %s=%s" % (n, h(v.cstr()))
                    post.append('zt(" %s="); zzs(%s)' % (a, a))
                    expost += " %s=%s" % (a, h(v.bytes()))
                else:
                    b = self.base(kd, tip)
                    if R.random() < 0.12:
                        pre.append("var %s []%s" % (a, b))
                        C.append('vl_t(" %s="); vl_t(%s ? "set" : "NULL");' % (n, n))
                        ex += " %s=NULL" % n
                    else:
                        v = self.val(nul=True)
                        raw = bytearray(v.bytes())
                        if not raw:
                            v, raw = Val(0, 1), bytearray(pool()[0:1])
                        pre.append("%s := zz%s(%s)" % (a, b, v.go()))
                        C.append('vl_t(" %s="); lb(%s, %d);' % (n, n, len(raw)))
                        ex += " %s=%s" % (n, h(bytes(raw)))
                        if kd in ("m", "um", "nm"):
                            for _ in range(R.randrange(0, 4)):
                                j, x = R.randrange(len(raw)), R.randrange(256)
                                raw[j] = x
                                C.append("((unsigned char *)%s)[%d] = %d;" % (n, j, x))
                        post.append('zt(" %s="); zzb(%s)' % (a, self.conv(b, a)))
                        expost += " %s=%s" % (a, h(bytes(raw)))
                args.append(a)
            elif p[0] == "many":
                kd, cc = p[1], p[3]
                s = self.is_string(kd, tip)
                b = self.base(kd, tip)
                m = R.choice([0, 1, 1, 2, 3, 5, 40]) if R.random() < 0.9 else None
                if not m:
                    pre.append("var %s []%s" % (a, "string" if s else "[]" + b))
                    C.append('vl_t(" %s="); vl_t(%s ? "set" : "NULL");' % (n, n))
                    ex += " %s=NULL" % n
                    args.append(a)
                    continue
                vs = [self.val(nul=True, small=m > 5) for _ in range(m)]
                if s:
                    pre.append("%s := []string{%s}" % (a, ", ".join(v.go() for v in vs)))
                    cur = [v.bytes() for v in vs]
                    for j, v in enumerate(vs):
                        C.append('vl_t(" %s.%d="); ls((const char *)%s[%d]);' % (n, j, n, j))
                        ex += " %s.%d=%s" % (n, j, h(v.cstr()))
                        relog.append('vl_t(" %s.%d="); ls((const char *)%s[%d]);' % (n, j, n, j))
                        relogx += " %s.%d=%s" % (n, j, h(v.cstr()))
                    # every element is read back as C left it, up to its terminator
                    cur = [v.cstr() for v in vs]
                    if not cc:
                        for j in range(m):
                            if R.random() < 0.35:
                                w = self.val(small=True) if R.random() < 0.85 else None
                                tail.append("((char **)%s)[%d] = %s;" % (n, j, w.c() if w else "0"))
                                cur[j] = w.bytes() if w else b""
                                made = True
                else:
                    raws = []
                    el = []
                    for v in vs:
                        if R.random() < 0.1:
                            el.append("nil")
                            raws.append(None)
                        else:
                            r = bytearray(v.bytes())
                            if not r:
                                v, r = Val(5, 1), bytearray(pool()[5:6])
                            el.append("zz%s(%s)" % (b, v.go()))
                            raws.append(r)
                    pre.append("%s := [][]%s{%s}" % (a, b, ", ".join(el)))
                    for j, r in enumerate(raws):
                        if r is None:
                            C.append('vl_t(" %s.%d="); vl_t(%s[%d] ? "set" : "NULL");' % (n, j, n, j))
                            ex += " %s.%d=NULL" % (n, j)
                            continue
                        C.append('vl_t(" %s.%d="); lb(%s[%d], %d);' % (n, j, n, j, len(r)))
                        ex += " %s.%d=%s" % (n, j, h(bytes(r)))
                        if kd in ("m", "um") and R.random() < 0.5:
                            q, x = R.randrange(len(r)), R.randrange(256)
                            r[q] = x
                            C.append("((unsigned char **)%s)[%d][%d] = %d;" % (n, j, q, x))
                    post.append("for _, x := range %s {\nzt(\" %s.=\")\nzzb(%s)\n}" % (a, a, self.conv(b, "x")))
                    expost += "".join(" %s.=%s" % (a, h(bytes(r or b""))) for r in raws)
                    args.append(a)
                    continue
                lg = "for _, x := range %s {\nzt(\" %s.=\")\nzzs(x)\n}" % (a, a)
                lx = "".join(" %s.=%s" % (a, h(x)) for x in cur)
                post.append(lg)
                expost += lx
                late.append(lg)
                exlate += lx
                args.append(a)
            elif p[0] == "deep":
                kd = p[1]
                s = self.is_string(kd, tip)
                rows = [[self.val(nul=True, small=True) for _ in range(R.randrange(1, 4))] for _ in range(R.randrange(1, 4))]
                if not s:
                    for r in rows:
                        for q, v in enumerate(r):
                            if not v.bytes():
                                r[q] = Val(9, 2)
                t = "string" if s else "[]" + GB[kd]
                pre.append("%s := [][]%s{%s}" % (a, t, ", ".join("{" + ", ".join(v.go() if s else "zz%s(%s)" % (GB[kd], v.go()) for v in r) + "}" for r in rows)))
                cur = [[v.cstr() if s else v.bytes() for v in r] for r in rows]
                for x, r in enumerate(rows):
                    for y, v in enumerate(r):
                        w = v.cstr() if s else v.bytes()
                        C.append('vl_t(" %s.%d.%d="); %s;' % (n, x, y, "ls((const char *)%s[%d][%d])" % (n, x, y) if s else "lb(%s[%d][%d], %d)" % (n, x, y, len(w))))
                        ex += " %s.%d.%d=%s" % (n, x, y, h(w))
                        if s and R.random() < 0.25:
                            w = self.val(small=True)
                            tail.append("((char ***)%s)[%d][%d] = %s;" % (n, x, y, w.c()))
                            cur[x][y] = w.bytes()
                            made = True
                lg = "for _, y := range %s {\nfor _, x := range y {\nzt(\" %s..=\")\n%s\n}\n}" % (a, a, "zzs(x)" if s else "zzb(%s)" % self.conv(GB[kd], "x"))
                lx = "".join(" %s..=%s" % (a, h(x)) for r in cur for x in r)
                post.append(lg)
                expost += lx
                if s:
                    late.append(lg)
                    exlate += lx
                args.append(a)
            else:
                cbn, cps = p[1]
                self.callback(k, i, n, a, cbn, cps, pre, lines_mid)
                C.append('vl_t(" %s="); vl_t(%s ? "set" : "NULL");' % (n, n))
                ex += " %s=set" % n
                args.append(a)
        C.append("vl_nl();")
        self.expect.append(ex)
        for c, e in lines_mid:
            C += c
            self.expect += e
        if gc and relog:
            C.append("v_gc();")
            C.append('vl_t("C%d\'");' % k)
            C += relog
            C.append("vl_nl();")
            self.expect.append("C%d'%s" % (k, relogx))
        C += tail
        self.drv.append("{")
        self.drv.append("zzsetcall(%d)" % len(self.body[f]))
        self.drv += pre
        cl = "%s(%s)" % (goname(f), ", ".join(args))
        ex = "G%d" % k
        g = []
        if ret:
            st = self.self_tip(f)
            # the result tip reaches const char results; unsigned char and plain pointers stay pointers
            s = ret in ("c", "u") and self.is_string(ret, st)
            v = self.val(small=R.random() < 0.6) if R.random() < 0.85 else None
            C.append("return (void *)%s;" % (v.c() if v else "0"))
            g += ["r := %s" % cl, 'zt("G%d")' % k]
            if s:
                g.append('zt(" r="); zzs(r)')
                ex += " r=" + (h(v.bytes()) if v else "0:0")
                g.append("rr := RawString(r).Copy()\n_ = rr")
                late.insert(0, 'zt(" r="); zzs(rr)')
                late0 = " r=" + (h(v.bytes()) if v else "0:0")
            else:
                g.append('zt(" r="); zzp((*byte)(r))')
                ex += " r=" + (h(v.bytes()) if v else "NULL")
                late0 = ""
        else:
            g += [cl, 'zt("G%d")' % k]
            late0 = ""
        self.drv += g + post + ["znl()"]
        self.expect.append(ex + expost)
        self.body[f].append(C)
        if late and (made or R.random() < 0.3):
            # the elements that C put into slices belong to Go afterwards; a result string refers to C memory
            self.drv += ['zt("L%d")' % k, "zzscribble()"] + (["zzGC()"] if R.random() < 0.4 else []) + late + ["znl()"]
            self.expect.append("L%d" % k + late0 + exlate)
        elif R.random() < 0.3:
            self.drv.append("zzscribble()")
        self.drv.append("}")

    def conv(self, b, x):
        return x if b == "byte" else "*(*[]byte)(unsafe.Pointer(&%s))" % x

    def callback(self, k, i, n, a, cbn, cps, pre, mid):
        R = self.R
        reps = R.randrange(1, 4)
        for r in range(reps):
            C, ex, argv, chk, chkx = ["{"], "B", [], [], ""
            for q, (kd, _) in enumerate(cps):
                tip = self.tip_at(cbn, q)
                s = self.is_string(kd, tip)
                v = self.val() if R.random() < 0.85 or not s else None
                if not s and not v.n:
                    v = Val(3, 3)
                if s:
                    C.append("char *x%d = %s;" % (q, v.c() if v else "0"))
                    ex += " q%d=%s" % (q, h(v.bytes()) if v else "0:0")
                else:
                    C.append("char *x%d = %s; cblen[%d] = %d;" % (q, v.c(), q, v.n))
                    raw = bytearray(v.bytes())
                    ex += " q%d=%s" % (q, h(bytes(raw)))
                    if kd == "m":
                        raw[v.n - 1] ^= 0x55 if raw[v.n - 1] != 0x55 else 0x11
                        chk.append('vl_t(" x%d="); lb(x%d, %d);' % (q, q, v.n))
                        chkx += " x%d=%s" % (q, h(bytes(raw)))
                argv.append("(void *)x%d" % q)
            rv = R.randrange(-1000, 1000)
            C.append("cbret = %d; int rr = %s(%s);" % (rv, n, ", ".join(argv)))
            C.append('vl_t("R%d="); vl_i(rr);' % k)
            C += chk + ["vl_nl();", "}"]
            mid.append((C, [ex, "R%d=%d%s" % (k, rv, chkx)]))
        pre.append("%s := zz%s" % (a, cbn))

    # ------------------------------------------------------------ files
    def cdecl(self, p, n):
        if p[0] == "cb":
            return "%s %s" % (p[1][0], n)
        return (p[2] % n).replace("  ", " ")

    def protos(self, names=True):
        out = []
        rt = {None: "void ", "c": "const char *", "u": "const unsigned char *", "m": "char *", "um": "unsigned char *"}
        for f, ps, r in self.funcs:
            anon = names and random.Random(f + str(len(ps))).random() < 0.25
            l = []
            for i, p in enumerate(ps):
                l.append(self.cdecl(p, "" if anon else "p%d" % i))
            out.append("%s%s(%s)" % (rt[r], f, ", ".join(l) or "void"))
        return out

    def header(self):
        o = ["#pragma once", "typedef char my_ch;", "typedef unsigned char my_uc;"]
        for n, ps in self.cbs:
            l = [(C_SPELL[kd][0] % ("q%d" % q if named else "")).rstrip() for q, (kd, named) in enumerate(ps)]
            o.append("typedef int (*%s)(%s);" % (n, ", ".join(l)))
        return "\n".join(o + [p + ";" for p in self.protos()]) + "\n"

    def manifest(self):
        opt = ", ".join(["%s: true" % n for n, b in (("SafeStrings", self.safe), ("KeepAlive", self.keep)) if b])
        o = ["---", "GENERATOR:", "  PackageName: foo", '  Includes: ["foo.h"]']
        if opt:
            o.append("  Options: {%s}" % opt)
        o += ["PARSER:", '  IncludePaths: ["/usr/include"]', '  SourcesPaths: ["foo.h"]', "TRANSLATOR:"]
        if not self.cstr or self.R.random() < 0.3:
            o.append("  ConstCharIsString: %s" % str(self.cstr).lower())
        if self.ustr or self.R.random() < 0.3:
            o.append("  ConstUCharIsString: %s" % str(self.ustr).lower())
        if self.tips:
            o += ["  TypeTips:", "    function:"]
            for n, t, s in self.tips:
                o.append("      - {target: ^%s$, tips: [%s]%s}" % (n, ", ".join(x or "0" for x in t), ", self: " + s if s else ""))
        o += ["  Rules:", "    global:", '      - {action: accept, from: "^my_"}', "      - {transform: export}",
              "    private:", "      - {transform: unexport}", "    post-global:", "      - {load: snakecase}"]
        return "\n".join(o) + "\n"

    def impl(self):
        o = ['#include "foo.h"', '#include "vrt.h"', "#include <stdlib.h>", "#include <string.h>",
             """static unsigned char *pool;
static void mk(void) {
  if (pool) return;
  pool = malloc(1 << 18);
  unsigned long long x = 12345;
  for (int i = 0; i < 1 << 18; i++) { x = (x * 1103515245ull + 12345) & 0x7fffffff; pool[i] = 1 + (x >> 16) % 255; }
}
static unsigned crc(const void *p, size_t n) {
  const unsigned char *b = p; unsigned c = ~0u;
  while (n--) { c ^= *b++; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; }
  return ~c;
}
static char *own[4096]; static size_t ownn[4096]; static int nown;
static char *cval(int off, int n) {
  mk();
  int a = off & 15; /* at any alignment */
  char *b = malloc(a + n + 1), *r = b + a;
  memset(b, '!', a);
  memcpy(r, pool + off, n); r[n] = 0;
  own[nown] = b; ownn[nown++] = a + n + 1;
  return r;
}
void v_scribble(void) {
  while (nown) { nown--; memset(own[nown], '#', ownn[nown] - 1); own[nown][ownn[nown] - 1] = '#'; free(own[nown]); }
}
static int cblen[8], cbret;
int v_cblen(int i) { return cblen[i]; }
int v_cbret(void) { return cbret; }
unsigned char *v_pool(void) { mk(); return pool; }
static void lb(const void *p, size_t n) { vl_u(n); vl_t(":"); vl_u(crc(p, n)); }
static void ls(const void *p) { if (!p) vl_t("NULL"); else lb(p, strlen(p)); }
"""]
        for (f, ps, r), pr in zip(self.funcs, self.protos(False)):
            o.append(pr + " {\nswitch (v_getcall()) {")
            for j, b in enumerate(self.body[f]):
                o.append("case %d: {" % j)
                o += b
                o.append("break; }")
            o.append("}\n%s}" % ("return 0;\n" if r else ""))
        return "\n".join(o) + "\n"

    def driver(self):
        o = ["package foo", '''
/*
#include "vrt.h"
void v_scribble(void);
int v_cblen(int);
int v_cbret(void);
unsigned char *v_pool(void);
*/
import "C"

import (
	"hash/crc32"
	"runtime"
	"strconv"
	"unsafe"
)

var zzpool = C.GoBytes(unsafe.Pointer(C.v_pool()), 1<<18)

func zzscribble()      { C.v_scribble() }
func zzlen(i int) int  { return int(C.v_cblen(C.int(i))) }
func zzret() int32     { return int32(C.v_cbret()) }
func zzb(b []byte)     { zt(strconv.Itoa(len(b)) + ":" + strconv.FormatUint(uint64(crc32.ChecksumIEEE(b)), 10)) }
func zzs(s string)     { zzb([]byte(s)) }
func zzp(p *byte) {
	if p == nil {
		zt("NULL")
		return
	}
	n := 0
	for *(*byte)(unsafe.Add(unsafe.Pointer(p), n)) != 0 {
		n++
	}
	zzb(unsafe.Slice(p, n))
}

func zzval(off, n, nul int, z bool) string {
	b := make([]byte, n, n+1)
	copy(b, zzpool[off:off+n])
	if nul >= 0 {
		b[nul] = 0
	}
	if z {
		b = append(b, 0)
	}
	return zheap(string(b))
}
func zzbyte(s string) []byte { return []byte(s) }
''']
        for g in ("MyCh", "MyUc"):
            if "zz%s(" % g in "\n".join(self.drv):
                o.append("func zz%s(s string) []%s { b := []byte(s); return *(*[]%s)(unsafe.Pointer(&b)) }" % (g, g, g))
        return "\n".join(o + self.cbfuncs() + ["func ZZMain() {", "runtime.LockOSThread()"] + self.drv + ["}"]) + "\n"


MODES = [((), {}, {}), (("-asan",), {"CC": "gcc"}, {"ASAN_OPTIONS": "detect_leaks=0"}), ((), {}, {"GODEBUG": "clobberfree=1", "GOGC": "20"})]


def check(ctx):
    import time
    ctx.build_tool()
    pool()
    quick = ctx.tier == "quick"
    n = int(os.environ.get("VERIF_N") or (26 if quick else 2000))
    budget = 60 if quick and not os.environ.get("VERIF_N") else 780

    def go(i):
        if time.time() - ctx.t0 > budget and ctx.count >= 12:
            ctx.stat("cases_not_run_for_time")
            return
        c = Case(ctx.seed * 100003 + i)
        man = c.manifest()
        c.manifest = lambda: man
        flags, be, env = MODES[i % 3]
        mode = ["", " asan", " clobberfree"][i % 3]
        harness.case(ctx, c, "case%d" % i, flags=flags, build_env=be, env=env, key=man + c.header(),
                     what="case %d%s (ConstCharIsString %s, ConstUCharIsString %s, SafeStrings %s)" % (i, mode, c.cstr, c.ustr, c.safe))
        ctx.stat("calls", c.calls)
        ctx.stat("values_with_a_zero_inside", c.nul)
        ctx.stat("cases_safe=%s_const=%s_unsigned=%s" % (c.safe, c.cstr, c.ustr))
        if i < 2:
            ctx.samples.append({"case": i, "manifest": man[:400], "events": c.expect[:3]})
    ctx.pmap(go, range(n))
    return ctx.finish(
        "an evaluation is one generated package with random string options and tips, driven through its functions; C and Go log length and CRC-32 of every string and "
        "byte slice they see, before and after forced collections and after C frees its strings, compared with the script; every third case runs under the address "
        "sanitizer and every third with freed Go memory clobbered; distinct by manifest and header",
        ["a result string refers to C memory, and is read before C changes that", "Go strings with a zero inside reach C up to the zero",
         "const pointers to named char types have their own type unless a tip makes them strings"], min_eval=5)
