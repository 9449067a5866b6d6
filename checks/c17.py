"""C17: what survives of headers read under a configuration, against gcc -E given the same defines and search paths."""
import ast, os, random, re, shutil, time
import harness, vlib
from harness import write

NAMES = ["a.h", "b.h", "c.h", "sub/d.h", "e.h", "sub/f.h"]
NATIVE = ["__x86_64__", "__LP64__", "__linux__", "_WIN32", "__STDC__", "__GNUC__", "__i386__", "MY_NEVER"]


def cstr(v):
    return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')


def yval(R, v):
    if isinstance(v, bool):
        return R.choice(["true", "yes", "on"] if v else ["false", "no", "off"])
    if isinstance(v, int):
        return R.choice([str(v), hex(v)]) if v >= 0 else str(v)
    if isinstance(v, float):
        return repr(v) if "." in repr(v) or "e-" in repr(v) else repr(v)
    if v is None:
        return "{}"
    return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')


class Case:
    def __init__(self, seed, top):
        R = self.R = random.Random(seed)
        self.top = top
        self.n = 0
        self.files = {}
        self.defs = {}
        self.arch = R.choice(["", "", "amd64", "386"])
        # the macros the front end takes from the host do not follow the architecture, see C07
        self.native = [] if self.arch == "386" else NATIVE
        self.opts = R.choice([[], [], [], ["-ccdefs"], ["-ccincl"], ["-ccdefs", "-ccincl"]])
        self.host = R.random() < 0.5         # a preprocessor of the host that adds something of its own
        for j in range(R.randrange(0, 7)):
            self.defs["MY_D%d" % j] = R.choice([
                lambda: (1 << 64) - 1, lambda: R.choice([0, 1, 2, 7, -5, 255, 1 << 31, (1 << 63) - 1, -(1 << 31) + 1, R.randrange(1 << 40)]), lambda: R.randrange(5),
                lambda: R.choice([0.5, 2.0, 0.0123456789, 1e-9, 3.25, 1e20, float(1 << 60), -1.5, 123456789.125, 2.5e-7, R.uniform(-1, 1)]),
                lambda: R.choice(["", "text", "two words", 'qu"ote', "back\\slash", "C:\\new\\x", "v1.2.3", "%d", "a/b.h", "1", "yes"]),
                lambda: R.random() < 0.5, lambda: None, lambda: None])()
        if R.random() < 0.2:
            self.defs["MY_HOST"] = R.choice([5, "own", None])
        if self.native and R.random() < 0.3:
            self.defs[R.choice(["__x86_64__", "__linux__", "__GNUC__", "__LP64__"])] = R.choice([0, 5, 7])
        self.ints = [d for d, v in self.defs.items() if isinstance(v, (int, bool)) and v < 1 << 63]
        self.where = {}
        dirs = ["man", "inc0", "inc1", "inc2", "sys0", "sys1", "pk0", "cwd", "far", "hq0", "hs0"]
        for name in NAMES:
            self.where[name] = R.sample(dirs, R.choice([1, 1, 2, 3, 4]))
        self.inc = R.sample(["inc0", "inc1", "inc2"], R.randrange(0, 4))
        self.sys = R.sample(["sys0", "sys1"], R.randrange(0, 3))
        self.pk = ["pk0"] if R.random() < 0.3 else []
        if R.random() < 0.25:
            self.inc.append("cwd")
        # searched for quoted names besides the directory of the file
        incl = self.host and "-ccincl" in self.opts
        self.q = (["hq0"] if incl else []) + self.inc + self.pk + ["man"]
        self.s = (["hs0"] if incl else []) + self.sys
        self.search = self.q + self.s
        self.hdr = {}
        if R.random() < 0.4:                 # a name of a header through a define
            q = [n for n in NAMES[1:] if self.quoted(n)]
            if q:
                self.hdr["MY_HDR"] = R.choice(q)
                self.defs["MY_HDR"] = self.hdr["MY_HDR"]
        for i, name in enumerate(NAMES):
            for d in self.where[name]:
                self.files[d + "/" + name] = self.body(d, i, name)
        # sources: found in the working directory, then in the include paths, then beside the manifest
        self.sources = []
        for k in range(R.choice([1, 1, 2, 3])):
            c = R.random()
            rel = [n for n in NAMES if any(n in self.at(d) for d in ["cwd"] + self.q)]
            if rel and c < 0.7:
                self.sources.append((R.choice(rel), None))
            else:
                f = R.choice(sorted(self.files))
                self.sources.append((None, f))

    def at(self, d):
        return [n for n in NAMES if d in self.where[n]]

    def quoted(self, name):
        return any(d in self.where[name] for d in self.search)

    def bracketed(self, name):
        return any(d in self.where[name] for d in self.s)

    def decl(self):
        R = self.R
        self.n += 1
        n = self.n
        return R.choice([
            lambda: "int my_f%d(int a);" % n, lambda: "void my_f%d(unsigned char *p, int n);" % n,
            lambda: "#define MY_M%d %d" % (n, R.randrange(1000)), lambda: "#define MY_M%d %s" % (n, R.choice(["0x10", "2.5", "(1 << 4)", '"str"', "'c'"])),
            lambda: "typedef %s my_t%d;" % (R.choice(["int", "unsigned char", "double"]), n),
            lambda: "typedef struct my_s%d { int a; } my_s%d;" % (n, n),
            lambda: "enum { MY_E%d = %d };" % (n, R.randrange(99)),
            lambda: "enum { MY_W%d = sizeof(long) * 10 + sizeof(void*) };" % n])()

    def cond(self):
        R = self.R
        k = R.random()
        names = sorted(self.defs) + (self.native or ["MY_NEVER"]) + ["MY_HOST"]
        if k < 0.2 and self.ints:
            return "#if %s %s %d" % (R.choice(self.ints), R.choice([">", "<", "==", "!=", ">="]), R.choice([0, 1, 2, 3, 5, 7]))
        if k < 0.3 and self.ints:
            return "#if %s" % R.choice(self.ints)
        if k < 0.5:
            return "#ifdef " + R.choice(names)
        if k < 0.65:
            return "#ifndef " + R.choice(names)
        if k < 0.75:
            return "#if defined(%s) %s !defined %s" % (R.choice(names), R.choice(["&&", "||"]), R.choice(names))
        if k < 0.85:
            return "#if " + R.choice((["__SIZEOF_LONG__ == 8"] if self.native else []) + ["0", "1", "__GNUC__ > 3", "MY_NEVER + 0", "__STDC_VERSION__ >= 199901L", "'a' == 97", "(2 + 3) * 4 == 20 && !(1 > 2)"])
        if k < 0.9:
            n = R.choice(NAMES)
            return '#if __has_include("%s")' % n if R.random() < 0.5 else "#if __has_include(<%s>)" % n
        return "#if !defined(%s)" % R.choice(names)

    def block(self, d, i, depth):
        R = self.R
        out = []
        for _ in range(R.randrange(1, 4)):
            k = R.random()
            if k < 0.45 or depth == 0:
                out.append(self.decl())
            elif k < 0.75:
                out.append(self.cond())
                out += self.block(d, i, depth - 1)
                while R.random() < 0.3:
                    out.append(self.cond().replace("#ifdef ", "#elif defined ").replace("#ifndef ", "#elif !defined ").replace("#if ", "#elif "))
                    out += self.block(d, i, depth - 1)
                if R.random() < 0.6:
                    out.append("#else")
                    out += self.block(d, i, depth - 1)
                out.append("#endif")
            elif k < 0.8:
                m = R.choice(sorted(self.defs) or ["MY_NEVER"])
                if m != "MY_HDR" and m not in self.ints:
                    out += ["#undef " + m] + (["#define %s" % m] if R.random() < 0.5 else [])
            else:
                out += self.include(d, i)
        return out

    def include(self, d, i):
        R = self.R
        later = NAMES[i + 1:]
        here = os.path.dirname(NAMES[i])
        cand = []
        for n in later:
            beside = d in self.where[n] and os.path.dirname(n) == here
            if self.quoted(n):
                cand.append('#include "%s"' % n)
            elif beside:
                cand.append('#include "%s"' % os.path.basename(n))
            if self.bracketed(n):
                cand.append("#include <%s>" % n)
            if self.hdr.get("MY_HDR") == n:
                cand.append("#include MY_HDR")
        if here and R.random() < 0.2:
            up = [n for n in later if d in self.where[n] and not os.path.dirname(n)]
            cand += ['#include "../%s"' % n for n in up]
        return [R.choice(cand)] if cand else []

    def body(self, d, i, name):
        R = self.R
        # the guard is that of the instance, or of all files of this name
        g = "ZG_%s_%s" % (d if R.random() < 0.7 else "ANY", re.sub(r"\W", "_", name))
        lines = self.block(d, i, 2)
        for _ in range(R.choice([0, 1, 1, 2])):
            lines[R.choice([0, len(lines)]):0] = self.include(d, i)
        lines.append(self.decl())
        return "\n".join(["#ifndef " + g, "#define " + g] + lines + ["#endif", ""])

    def manifest(self, rel, rule, arch):
        R = self.R
        t = ["GENERATOR:", "  PackageName: foo"]
        if self.pk:
            t += ["  PkgConfigOpts: [%sZpk]" % R.choice(["", "--cflags, "])]
        t += ["PARSER:"]
        if arch:
            t += ["  Arch: " + arch]
        if self.inc:
            t += ["  IncludePaths: [%s]" % ", ".join(rel(d) for d in self.inc)]
        if self.sys:
            t += ["  SysIncludePaths: [%s]" % ", ".join(rel(d) for d in self.sys)]
        t += ["  SourcesPaths: [%s]" % ", ".join(n or os.path.join(self.top, f) for n, f in self.sources)]
        if self.defs:
            t += ["  Defines:"] + ["    %s: %s" % (k, yval(R, v)) for k, v in R.sample(sorted(self.defs.items()), len(self.defs))]
        t += ["TRANSLATOR:", "  ConstRules: {defines: %s, enum: %s}" % (rule, R.choice(["expand", "eval"])), "  Rules:", "    global: [{action: accept, from: \"^(?i)my_\"}]", ""]
        return "\n".join(t)


def cvalue(v):
    return "" if v is None else str(int(v)) if isinstance(v, bool) else cstr(v) if isinstance(v, str) else repr(v)


def literal(t):
    t = t.strip()
    while t.startswith("(") and t.endswith(")"):
        t = t[1:-1].strip()
    m = re.fullmatch(r"(?:u?int(?:32|64)|float(?:32|64))\s*\((.*)\)", t)
    if m:
        t = m.group(1)
    try:
        if t.startswith("'"):
            return ord(ast.literal_eval(t))
        return ast.literal_eval(t.replace(" ", "") if t[:1] != '"' else t)
    except Exception:
        try:
            return eval(t, {"__builtins__": {}})
        except Exception:
            return "?" + t


def one(ctx, i, seed):
    top = os.path.join(ctx.scratch, "case%d" % i)
    os.makedirs(top)
    try:
        c = Case(seed, top)
        R = c.R
        for f, t in c.files.items():
            write(top, f, t)
        for d in ["man", "inc0", "inc1", "inc2", "sys0", "sys1", "pk0", "cwd", "hq0", "hs0"]:
            os.makedirs(os.path.join(top, d), exist_ok=True)
        write(top, "pc/Zpk.pc", "prefix=%s\nName: Zpk\nDescription: z\nVersion: 1\nCflags: -I${prefix}/pk0\n" % top)
        write(top, "cpp.sh", '#!/bin/sh\nexec cpp -iquote %s/hq0 -isystem %s/hs0 -DMY_HOST=3 "$@"\n' % (top, top))
        os.chmod(top + "/cpp.sh", 0o755)
        relative = R.random() < 0.5
        wd = R.choice(["cwd", "cwd", "man"])

        def rel(d):
            p = os.path.join(top, d)
            return os.path.relpath(p, os.path.join(top, wd)) if relative else p
        rule = R.choice(["expand", "eval"])
        arch = c.arch
        y = c.manifest(rel, rule, arch)
        write(top, "man/foo.yml", y)
        shown = dict(c.files)
        shown["man/foo.yml"] = y
        opts = c.opts
        # the oracle
        roots = []
        for n, f in c.sources:
            if n is None:
                roots.append(os.path.join(top, f))
            else:
                for d in [wd] + c.inc + c.pk + ["man"]:       # the paths of the host are for includes
                    if d in c.where[n]:
                        roots.append(os.path.join(top, d, n))
                        break
                else:
                    ctx.stat("sources not found by design")
                    return
        if len(set(roots)) < len(roots):         # the front end refuses to read a source twice
            ctx.stat("sources named twice")
            return
        write(top, "or/pre.h", ("#define MY_HOST 3\n" if c.host and "-ccdefs" in opts else "") + "".join("#undef %s\n#define %s %s\n" % (k, k, cvalue(v)) for k, v in sorted(c.defs.items())))
        write(top, "or/all.c", "".join('#include "%s"\n' % r for r in roots))
        gcc = ["gcc", "-w", "-E", "-include", top + "/or/pre.h"] + (["-m32"] if arch == "386" else [])
        for d in c.q:
            gcc += ["-iquote", os.path.join(top, d)]
        for d in c.s:
            gcc += ["-isystem", os.path.join(top, d)]
        e = vlib.run(gcc + ["-P", "or/all.c"], cwd=top, env=ctx.env, timeout=60)
        m = vlib.run(gcc + ["-dM", "or/all.c"], cwd=top, env=ctx.env, timeout=60)
        if e.rc or m.rc:
            ctx.stat("headers gcc refuses")
            if ctx.stats.get("headers gcc refuses", 0) < 3:
                ctx.stats["refusal"] = e.err.decode()[-200:]
            return
        text = e.out.decode()
        want = {"func": set(re.findall(r"\b(my_f\d+)\(", text)), "type": set(re.findall(r"\b(my_[ts]\d+);", text)), "const": {}}
        width = "4" if arch == "386" else "8"
        for n, v in re.findall(r"\b(MY_[EW]\d+) = ([^}]*) }", text):
            want["const"][n] = int(v) if v.isdigit() else 11 * int(width)
        for n, v in re.findall(r"^#define (MY_\w+)\b ?(.*)$", m.out.decode(), re.M):
            if v:
                want["const"][n] = literal(v)
        where = os.path.join(top, wd)
        r = ctx.gen(where, opts + ["-nostamp", "-out", os.path.join(top, "out"), os.path.relpath(os.path.join(top, "man/foo.yml"), where)], env=dict({"PKG_CONFIG_PATH": top + "/pc"}, **({"CPP": top + "/cpp.sh"} if c.host else {})))
        label = "case %d (working directory %s, %s)" % (i, wd, " ".join(opts) or "no options")
        if r.rc != 0:
            ctx.violation("%s: the tool ends with %s on headers gcc reads:\n%s" % (label, r.rc, r.text[-800:]), shown)
            return
        s = harness.scan(ctx, os.path.join(top, "out/foo"))[0]
        got = {"func": set(), "type": set(), "const": {}}
        for d in s["Decls"]:
            if d.get("Recv"):
                continue
            n = d["Name"]
            if d["Kind"] == "func" and re.fullmatch(r"my_f\d+", n):
                got["func"].add(n)
            elif d["Kind"] == "type" and re.fullmatch(r"my_[ts]\d+", n):
                got["type"].add(n)
            elif d["Kind"] == "const" and n.startswith("MY_"):
                v = d.get("Value") or "?"
                got["const"][n] = d.get("Iota") if v == "iota" else literal(v)
        bad = []
        for k in ("func", "type"):
            if got[k] != want[k]:
                bad.append("%ss missing %s, more %s" % (k, sorted(want[k] - got[k])[:5], sorted(got[k] - want[k])[:5]))
        gc, wc = got["const"], want["const"]
        if set(gc) != set(wc):
            bad.append("constants missing %s, more %s" % ([(x, wc[x]) for x in sorted(set(wc) - set(gc))][:5], sorted(set(gc) - set(wc))[:5]))
        for n in sorted(set(gc) & set(wc)):
            if gc[n] != wc[n] or type(gc[n]) is not type(wc[n]):
                bad.append("%s is %r, C has %r" % (n, gc[n], wc[n]))
        if bad:
            ctx.violation("%s: %s\nfiles under %s" % (label, "; ".join(bad[:5]), top), shown)
        for k in ("func", "type", "const"):
            ctx.stat(k + "s that survive", len(want[k]))
        ctx.stat("declarations left out", c.n - len(want["func"]) - len(want["type"]) - sum(not n.startswith("MY_D") and n != "MY_HDR" for n in wc))
        ctx.stat("values of defines compared", sum(n.startswith("MY_D") for n in wc))
        ctx.stat("names in several directories", sum(len(w) > 1 for w in c.where.values()))
        ctx.evaluated(1, key=sorted(shown.items()), events=c.n + len(c.defs),
                      sample={"case": i, "options": opts, "defines": {k: str(v) for k, v in c.defs.items()}, "sources": len(c.sources), "survive": len(want["func"]) + len(want["type"]) + len(wc), "of": c.n})
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(top, ignore_errors=True)


def check(ctx):
    ctx.build_tool()
    harness.build_goscan(ctx)
    n = int(os.environ.get("VERIF_N") or (300 if ctx.tier == "quick" else 9000))
    budget = 60 if ctx.tier == "quick" and not os.environ.get("VERIF_N") else 780

    def go(i):
        if time.time() - ctx.t0 > budget and ctx.count > 30:
            ctx.stat("cases_not_run_for_time")
            return
        one(ctx, i, ctx.seed * 100003 + i)
    ctx.pmap(go, range(n))
    return ctx.finish(
        "an evaluation is a tree of headers of the same names in up to eleven directories (include, system, pkg-config and host paths, working directory, the manifest's) with nested conditionals over the defines, "
        "predefined macros and __has_include, quoted, bracketed and computed includes, one to three sources, read once by the tool under a manifest and options and once by gcc -E given the same defines and search order; "
        "functions, types, constants and their values compared; events are declarations and defines judged; distinct by files and manifest",
        ["gcc -E is the reference of preprocessing", "architectures other than the host's are judged by sizeof only, as their predefined macros are the known finding of C07"], min_eval=20)
