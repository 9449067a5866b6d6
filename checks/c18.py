"""C18: provenance comments, licence, description and notice, cgo directives and includes, read back from the output."""
import calendar, json, os, random, re, shutil, time
import harness, vlib
from harness import write

WORDS = ["Copyright", "(c)", "2024", "The", "Authors", "%s", "%d", "100%", "/*", "//", "\"quoted\"", "it's", "back\\slash", "$HOME", "${X}", "h\u00e9ll\u00f6", "\u4f60\u597d", "<b>", "&amp;",
         "`tick`", "a;b", "#hash", "{{.}}", "package", "import", "func", "C.int", "?", "!", "~x", "\U0001f600", "go:build", "nolint", "cgo", "\\n", "/usr/*", "@x", "x//y", "end\\", "??/", "|", "http://x.y/z?a=b#c"]
TRAITS = ["linux", "windows", "darwin", "amd64", "arm64", "!linux", "!windows", "linux,amd64", "linux,!amd64", "windows,arm64", "mytag", "!mytag", "darwin,mytag", "freebsd"]
FLAGS = {"CFLAGS": ["-DX=1", "-DS=\"a b\"", "-I${SRCDIR}/inc", "-I/opt/x/include", "-std=c11", "-DN=%d", "-O2", "-g", "-fPIC", "-Wall", "-DEMPTY="],
         "CPPFLAGS": ["-DCPP", "-I../inc", "-UX", "-DZ='q'"], "CXXFLAGS": ["-std=c++17", "-DCXX"],
         "LDFLAGS": ["-lm", "-L${SRCDIR}/lib", "-L/opt/lib", "-Wl,-rpath,/opt/lib", "-lfoo", "-pthread", "-framework Cocoa", "-Wl,-z,now"]}
BUILD = {"CFLAGS": ["-DX=1", "-O1", "-g", "-DEMPTY=", "-DS=\"a b\""], "CPPFLAGS": ["-DCPP"], "LDFLAGS": ["-lm"], "CXXFLAGS": ["-DCXX"]}


def words(R, n, hostile):
    return [R.choice(WORDS) if R.random() < hostile else R.choice(["lorem", "ipsum", "dolor", "sit", "library", "version", "of"]) for _ in range(n)]


def prose(R, lines, hostile, licence):
    out = []
    for _ in range(lines):
        k = R.random()
        if k < 0.15:
            out.append("")
            continue
        w = words(R, R.randrange(1, 7), hostile)
        if not licence and not re.match(r"[a-z]+$", w[0]):
            w.insert(0, "word")         # gofmt rewrites lists, headings, links and the like of package documentation
        if licence and R.random() < 0.06:
            w = R.choice([["+build", "ignore"], ["+build", "!linux"], ["//go:build", "ignore"], ["go:build", "ignore"]])
        if w[0] != "+build" and R.random() < 0.08 * hostile * 3:
            w.append("*/")
        out.append((R.choice(["", "", "  ", "\t"]) if licence else "") + " ".join(w))
    return "\n".join(out) + R.choice(["", "\n"])


class Case:
    def __init__(self, seed):
        R = self.R = random.Random(seed)
        self.n = 0
        self.decls = []                 # (kind, name, place, first line, last line)
        self.buildable = R.random() < 0.3
        places = R.sample(["inc/foo.h", "inc/sub/foo.h", "inc/bar.h", "other/foo.h", "inc/v1.2/x-y.h", "other/a b.h"], R.randrange(1, 4))
        self.places = places
        self.files = {}
        for i, p in enumerate(places):
            self.files[p] = self.body(p, [q for q in places[i + 1:i + 2]])
        hostile = R.choice([0, 0.3, 0.6])
        self.licence = prose(R, R.randrange(1, 7), hostile, True) if R.random() < 0.75 else ""
        self.desc = prose(R, R.randrange(1, 5), hostile, False).strip() if R.random() < 0.7 else ""
        if self.desc and not self.desc.startswith("Package"):
            self.desc = "Package foo " + self.desc
        pool = BUILD if self.buildable else FLAGS
        self.groups = []
        for _ in range(R.randrange(0, 6)):
            name = R.choice(sorted(pool) + ["CFLAGS", "LDFLAGS"])
            self.groups.append((name, R.sample(TRAITS, R.choice([0, 0, 1, 1, 2, 3])), R.sample(pool[name], R.randrange(0, min(4, len(pool[name])) + 1))))
        self.pkg = [] if self.buildable else R.choice([[], ["zlib"], ["--static", "zlib"], ["a", "b", "c"]])
        self.sysinc = R.sample(["stdint.h", "stdlib.h", "string.h", "stdio.h"], R.randrange(0, 4))
        self.inc = list(dict.fromkeys([places[0]] + R.sample(places, R.randrange(0, len(places) + 1))))
        self.docs = {}
        if R.random() < 0.5:
            for sc in R.sample(["global", "function", "type", "post-global"], R.randrange(1, 3)):
                self.docs[sc] = [("(?i)^my_%s" % R.choice([".*", "f", "s", "[a-f]", "t1", ".*[135]$", "nomatch"]), R.choice(
                    ["https://ref.example/$file#L$line", "$path:$line", "$name in $file", "see/${name}.html", "$path line $line of $name", "man $name", "100% $line"])) for _ in range(R.randrange(1, 3))]
        self.stamp = R.random() < 0.3

    def body(self, place, nxt):
        R = self.R
        lines = ["#ifndef Z" + re.sub(r"\W", "_", place), "#define Z" + re.sub(r"\W", "_", place)]
        for q in nxt:
            lines.append('#include "%s"' % q)
        for _ in range(R.randrange(2, 9)):
            for _ in range(R.randrange(0, 3)):
                lines += R.choice([[""], ["/* a", " * comment ", " */"], ["// one; line"], ["#define ZZ%d \\" % len(lines), "   1"], ["", "", ""], ["/* my_f1 declared elsewhere.h:99 */"], ["// ends with \\", "and goes on"],
                                   ["#if 0", "int zz_no(int);", "#endif"], ["int zz_other%d(int x);" % (1000 * len(self.files) + len(lines))]])
            self.n += 1
            n = self.n
            kind, name, text = R.choice([
                ("func", "my_f%d", "int my_f%d(int a, const char *b);"), ("func", "my_f%d", "void my_f%d(void);"), ("func", "my_f%d", "unsigned|my_f%d(|int a,|double *b|);"), ("func", "my_f%d", "extern|void|my_f%d(int a);"),
                ("type", "my_t%d", "typedef unsigned int my_t%d;"), ("type", "my_t%d", "typedef|short|my_t%d;"),
                ("type", "my_s%d", "typedef struct my_s%d { int a; } my_s%d;"), ("type", "my_s%d", "typedef struct my_s%d {|  int a;|  double b;|} my_s%d;"), ("type", "my_s%d", "struct my_s%d { char x[4]; };"),
                ("type", "my_s%d", "typedef struct my_s%d my_s%d;"), ("type", "my_u%d", "typedef union my_u%d { int a; float b; } my_u%d;"), ("type", "my_u%d", "typedef union {|int a;|long b;|} my_u%d;"),
                ("type", "my_c%d", "typedef int (*my_c%d)(int v);"), ("type", "my_c%d", "typedef void|(*my_c%d)(|int v);"),
                ("type", "my_e%d", "typedef enum my_e%d { MY_A%d, MY_B%d = 4 } my_e%d;"), ("type", "my_e%d", "typedef enum {|MY_A%d,|MY_B%d|} my_e%d;"), ("type", "my_e%d", "enum my_e%d {|MY_A%d = 3 };"),
                ("const", "MY_D%d", "#define MY_D%d 17"), ("const", "MY_D%d", "#define MY_D%d \"s\""), ("const", "MY_X%d", "enum { MY_X%d = 2 };"), ("const", "MY_X%d", "enum|{|MY_X%d|};")])
            t = text.replace("%d", str(n)).split("|")
            self.decls.append((kind, name % n, place, len(lines) + 1, len(lines) + len(t)))
            lines += t
        return "\n".join(lines + ["#endif", ""])

    def manifest(self):
        R = self.R
        q = lambda v: json.dumps(v, ensure_ascii=False)
        t = ["GENERATOR:", "  PackageName: foo"]
        if self.licence:
            t.append("  PackageLicense: " + q(self.licence))
        if self.desc:
            t.append("  PackageDescription: " + q(self.desc))
        if self.pkg:
            t.append("  PkgConfigOpts: " + q(self.pkg))
        if self.groups:
            t.append("  FlagGroups:")
            for name, traits, flags in self.groups:
                t.append("    - {name: %s%s, flags: %s}" % (name, ", traits: " + q(traits) if traits else "", q(flags)))
        if self.sysinc:
            t.append("  SysIncludes: " + q(self.sysinc))
        t.append("  Includes: " + q(self.inc))
        t += ["PARSER:", "  IncludePaths: [.]", "  SourcesPaths: [%s]" % q(self.places[0])]
        t += ["TRANSLATOR:", "  ConstRules: {defines: expand, enum: expand}", "  Rules:"]
        rules = {"global": ["{action: accept, from: \"(?i)^my_\"}"]}
        for sc, rr in self.docs.items():
            rules.setdefault(sc, []).extend("{action: doc, from: %s, to: %s}" % (q(a), q(b)) for a, b in rr)
        t += ["    %s: [%s]" % (sc, ", ".join(r)) for sc, r in rules.items()]
        return "\n".join(t) + "\n"

    def location(self, scope, name, place, line):
        """what a comment has to contain: the template of the first rule that names it, in its scope if that has any, or file and line"""
        rr = self.docs.get(scope)
        if rr is None:
            rr = self.docs.get("global", self.docs.get("post-global", []))
        d, f = os.path.split(place)
        path = os.path.basename(d) + "/" + f
        for rx, to in rr:
            if re.search(rx.replace("(?i)", ""), name, re.I):
                v = {"path": path, "file": f, "line": str(line), "name": name}
                return re.sub(r"\$(?:\{(\w+)\}|(\w+))", lambda m: v.get(m.group(1) or m.group(2), ""), to)
        return "%s:%d" % (path, line)


def uncomment(text):
    """comments of C or Go source before the first code, as text; and that code"""
    out, i = [], 0
    while True:
        m = re.compile(r"\s*(?://([^\n]*)\n|/\*(.*?)\*/)", re.S).match(text, i)
        if not m:
            return "\n".join(out), text[i:]
        out.append(m.group(1) if m.group(1) is not None else m.group(2))
        i = m.end()


def has(hay, needle):
    return " ".join(needle.split()) in " ".join(hay.split())


def holds(traits, tags):
    return not traits or any(all((x[1:] not in tags) if x.startswith("!") else x in tags for x in t.split(",")) for t in traits)


def one(ctx, i, seed):
    c = Case(seed)
    R = c.R
    top = os.path.join(ctx.scratch, "case%d" % i)
    os.makedirs(top)
    y = c.manifest()
    shown = dict(c.files)
    shown["foo.yml"] = y
    bad = []
    try:
        for f, t in shown.items():
            write(top, f, t)
        t0 = int(time.time())
        r = ctx.gen(top, ([] if c.stamp else ["-nostamp"]) + ["-out", ".", "foo.yml"])
        t1 = int(time.time())
        if r.rc != 0:
            ctx.violation("case %d: the tool ends with %s:\n%s" % (i, r.rc, r.text[-800:]), shown)
            return
        if b"cannot gofmt" in r.err:
            bad.append("the output is no Go source: " + r.text[-300:])
        out = os.path.join(top, "foo")
        s = harness.scan(ctx, out)[0]
        # 1. provenance
        docs = {}
        for d in s["Decls"]:
            if not d.get("Recv"):
                docs.setdefault(d["Name"], []).append(d.get("Doc") or "")
        judged = 0
        for kind, name, place, a, b in c.decls:
            if name not in docs:
                bad.append("%s is not generated" % name)
                continue
            scopes = {"func": ["function"], "type": ["type", "const"], "const": ["const"]}[kind]
            doc = " ".join(docs[name])
            if kind == "type" and name.startswith("my_e"):
                scopes = ["const", "type"]
            if name.startswith("my_c"):
                scopes = ["function", "type"]
            want = [c.location(sc, name, place, ln) for sc in scopes for ln in range(a, b + 1)]
            if not any(re.search(r"(?<![\w/.-])%s(?!\w)" % re.escape(" ".join(w.split())), " ".join(doc.split())) for w in want):
                bad.append("the comment of %s does not name %s: %r" % (name, want[0], doc[:120]))
            elif not doc.startswith(name):
                bad.append("the comment of %s starts with another name: %r" % (name, doc[:80]))
            judged += 1
        # 2. licence, notice, description
        texts = {f: open(os.path.join(out, f), encoding="utf-8").read() for f in sorted(os.listdir(out))}
        for f, t in texts.items():
            com, code = uncomment(t)
            if c.licence and not has(com, c.licence):
                bad.append("%s does not carry the licence: %r" % (f, com[:200]))
            if not re.search(r"(?m)^// Code generated .* DO NOT EDIT\.$", t[:len(t) - len(code)]):
                bad.append("%s does not carry the notice of generated code" % f)
            m = re.search(r"generated on (\w+, \d+ \w+ \d+ \d+:\d+:\d+ \w+)\.", com)
            if c.stamp != bool(m):
                bad.append("%s %s a time stamp" % (f, "lacks" if c.stamp else "has"))
            elif m:
                when = calendar.timegm(time.strptime(m.group(1), "%a, %d %b %Y %H:%M:%S UTC"))
                if not t0 <= when <= t1:
                    bad.append("%s is stamped %s, outside of the run" % (f, m.group(1)))
            first = code.split(None, 1)[0] if code.strip() else ""
            if f.endswith(".go"):
                if first != "package":
                    bad.append("%s: the first thing behind the comments is %r" % (f, first))
                if re.search(r"(?m)^//(go:build| *\+build)", t[:len(t) - len(code)]):
                    bad.append("%s has a build constraint" % f)
            elif code.strip() and not first.startswith("#"):
                bad.append("%s: the first thing behind the comments is %r" % (f, code[:60]))
        if c.desc:
            pd = [g for g in s["Files"] if g.get("Doc") and has(g["Doc"], "Package foo")]
            if len(pd) != 1 or not has(pd[0]["Doc"], c.desc):
                bad.append("the package documentation is not the description: %r" % [g["Doc"][:200] for g in pd])
        # 3. directives and includes, as written and as the go command reads them
        want = ["#cgo pkg-config: " + " ".join(c.pkg)] if c.pkg else []
        for name, traits, flags in c.groups:
            if flags:
                want.append("#cgo %s: %s" % (" ".join(traits + [name]), " ".join(flags)))
        winc = ["<%s>" % x for x in c.sysinc] + ['"%s"' % x for x in c.inc]
        users = 0
        for g in s["Files"]:
            if "C" not in [x.strip('"') for x in g.get("Imports") or []]:
                continue
            users += 1
            raw = g.get("Preamble") or ""
            got = [" ".join(x.split()) for x in raw.split("\n") if x.strip().startswith("#cgo")]
            if got != [" ".join(x.split()) for x in want]:
                bad.append("directives of %s are %s, the manifest has %s" % (g["Name"], got, want))
            ginc = re.findall(r'#\s*include\s*(<[^>]*>|"[^"]*")', raw)
            if [x for x in ginc if x in winc] != winc or any(x not in winc + ["<stdlib.h>", '"cgo_helpers.h"'] for x in ginc):
                bad.append("includes of %s are %s, the manifest has %s" % (g["Name"], ginc, winc))
        if users == 0 and any(k == "func" for k, *_ in c.decls):
            bad.append("no file uses C")
        if "cgo_helpers.h" in texts:
            ginc = re.findall(r'(?m)^#\s*include\s*(<[^>]*>|"[^"]*")', texts["cgo_helpers.h"])
            if [x for x in ginc if x in winc] != winc:
                bad.append("includes of cgo_helpers.h are %s, the manifest has %s" % (ginc, winc))
        write(out, "go.mod", "module foo\n\ngo 1.22\n")
        seen = 0
        for goos, goarch, tag in R.sample([("linux", "amd64", 0), ("windows", "amd64", 0), ("darwin", "arm64", 1), ("linux", "arm64", 1), ("linux", "amd64", 1), ("freebsd", "amd64", 0)], 2):
            e = ctx.go(out, ["list", "-e", "-json=CgoCFLAGS,CgoCPPFLAGS,CgoCXXFLAGS,CgoLDFLAGS,CgoPkgConfig,CgoFiles,GoFiles,IgnoredGoFiles,Error"] + (["-tags", "mytag"] if tag else []) + ["."],
                       env={"GOOS": goos, "GOARCH": goarch, "CGO_ENABLED": "1"})
            j = json.loads(e.out or b"{}")
            tags = {goos, goarch, "cgo", "gc"} | ({"mytag"} if tag else set())
            if goos in ("linux", "darwin", "freebsd"):
                tags.add("unix")
            if j.get("Error"):
                bad.append("go list: " + str(j["Error"])[:300])
                break
            if j.get("IgnoredGoFiles"):
                bad.append("files excluded from the build: %s" % j["IgnoredGoFiles"])
            for key, name in [("CgoCFLAGS", "CFLAGS"), ("CgoCPPFLAGS", "CPPFLAGS"), ("CgoCXXFLAGS", "CXXFLAGS"), ("CgoLDFLAGS", "LDFLAGS")]:
                w = []
                for n, traits, flags in c.groups:
                    if n == name and holds(traits, tags):
                        for f in flags:
                            f = f.replace("${SRCDIR}", out).replace("-I../inc", "-I" + top + "/inc")
                            w += f.split() if '"' not in f and "'" not in f else [f.replace('"', "").replace("'", "")]
                if (j.get(key) or []) != w * users:
                    bad.append("%s for %s/%s %s: the go command reads %s, the manifest gives %s in each of %d files" % (name, goos, goarch, "mytag" if tag else "", j.get(key), w, users))
                seen += len(w)
            if (j.get("CgoPkgConfig") or []) != c.pkg * users:
                bad.append("pkg-config: the go command reads %s, the manifest has %s" % (j.get("CgoPkgConfig"), c.pkg))
        # 4. all of it as comments: the package still compiles
        if c.buildable and not bad:
            b = ctx.go(out, ["build", "."], env={"CGO_CFLAGS": "-w -I" + top})
            ctx.stat("packages built")
            if b.rc != 0:
                bad.append("the package does not compile: " + b.text[-600:])
        if bad:
            ctx.violation("case %d: %s" % (i, "\n".join(bad[:6])), dict(shown, **{"out__" + f: t for f, t in texts.items()}))
        ctx.stat("provenance comments", judged)
        ctx.stat("files of C users", users)
        ctx.stat("directives", len(want))
        ctx.stat("flags as the go command reads them", seen)
        ctx.evaluated(1, key=sorted(shown.items()), events=judged + len(texts) + users * len(want) + seen,
                      sample={"case": i, "declarations": judged, "directives": want[:4], "licence": c.licence[:60], "doc rules": c.docs})
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(top, ignore_errors=True)


def check(ctx):
    ctx.build_tool()
    harness.build_goscan(ctx)
    n = int(os.environ.get("VERIF_N") or (200 if ctx.tier == "quick" else 6000))
    budget = 60 if ctx.tier == "quick" and not os.environ.get("VERIF_N") else 780

    def go(i):
        if time.time() - ctx.t0 > budget and ctx.count > 30:
            ctx.stat("cases_not_run_for_time")
            return
        one(ctx, i, ctx.seed * 100003 + i)
    ctx.pmap(go, range(n))
    return ctx.finish(
        "an evaluation is a generated package whose manifest has hostile licence and description texts, flag groups with traits, pkg-config and include lists and doc rules, over headers whose declarations "
        "stand at known lines; comments, notice and directives read back from every file with a parser, flags by the go command for two platforms, some packages compiled; events are comments, files and flags judged; distinct by headers and manifest",
        ["description texts do not contain what gofmt rewrites in package documentation (lists, headings, links, `` and '')"], min_eval=20)
