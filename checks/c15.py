"""C15: faults injected into manifests, headers, places and arguments; exit status, messages and written files watched."""
import os, random, re, shutil
import snippets, vlib
from harness import write

PANIC = re.compile(r"(?m)^(panic:|fatal error:|goroutine \d+ \[|SIG[A-Z]+:|runtime: )")


class Base:
    """A manifest over headers that include each other, from snippets of the supported dialect."""

    def __init__(self, R):
        self.R = R
        self.dirs = R.choice([[], ["inc"], ["inc", "inc/deep"]])
        names = ["foo.h"] + ["h%d.h" % i for i in range(1, R.randrange(1, 5))]
        self.nsrc = R.randrange(1, 1 + min(2, len(names)))
        self.place = {n: n if i < self.nsrc else os.path.join(R.choice(["."] + self.dirs), n) for i, n in enumerate(names)}
        self.place = {n: os.path.normpath(p) for n, p in self.place.items()}
        self.text = {}
        keys = sorted(snippets.TEXT)
        for i, n in enumerate(names):
            inc = "".join('#include "%s"\n' % m for j, m in enumerate(names) if j > i and j >= self.nsrc and (j == i + 1 or i == 0 and j == self.nsrc or R.random() < 0.3))
            body = []
            for k in range(R.randrange(1, 4)):
                t = snippets.TEXT[R.choice([x for x in keys if "#include" not in snippets.TEXT[x] and x != "uptr2"])]
                body.append(re.sub(r"\bMY_", "MY_%d_%d_" % (i, k), re.sub(r"\bmy_", "my_%d_%d_" % (i, k), t)))
            self.text[n] = "#ifndef G_%d\n#define G_%d\n%s%s\n#endif\n" % (i, i, inc, "\n".join(body))
        self.names = names
        self.pkg = R.choice(["foo", "a/foo", "x_1", "a/b/c9"])
        self.gen = {"PackageName": self.pkg, "Includes": '["foo.h"]', "PackageDescription": '"Text."'}
        self.par = {"SourcesPaths": "[%s]" % ", ".join('"%s"' % n for n in names[:self.nsrc])}
        if self.dirs:
            self.par["IncludePaths"] = "[%s]" % ", ".join(self.dirs)
        self.tr = {"Rules": "{global: [{action: accept, from: \"(?i)^my_\"}, {transform: %s}], const: [{action: ignore, from: _NO_}]}" % R.choice(["lower", "export", "title"]),
                   "ConstRules": "{defines: %s, enum: %s}" % (R.choice(["expand", "eval"]), R.choice(["expand", "cgo"])),
                   "PtrTips": "{function: [{target: \"_a$\", tips: [arr, ref]}], struct: [{target: \"_s$\", default: sref}]}",
                   "TypeTips": "{function: [{target: \"_z$\", tips: [named]}]}",
                   "MemTips": "[{target: \"_zz$\", self: raw}]"}
        self.sections = {"GENERATOR": self.gen, "PARSER": self.par, "TRANSLATOR": self.tr}

    def files(self):
        out = {self.place[n]: t for n, t in self.text.items()}
        out["foo.yml"] = self.yaml()
        return out

    def yaml(self):
        return "---\n" + "".join("%s:\n%s" % (s, "".join("  %s: %s\n" % kv for kv in m.items())) if m is not None else "" for s, m in self.sections.items())


# a fault: (name, kind, function(base, files, place) -> dict(args=, hint=) or None)
# kind: in = manifest or headers unusable: nothing may be written; out = output place unusable
FAULTS = []


def fault(kind, name=None):
    def deco(f):
        FAULTS.append((name or f.__name__, kind, f))
        return f
    return deco


def header(b, files):
    """A random header: its name and its path."""
    n = b.R.choice(b.names)
    return n, b.place[n]


def cut_yaml(b, files, f):
    files["foo.yml"] = f(files["foo.yml"])


@fault("in")
def manifest_missing(b, files, d):
    del files["foo.yml"]
    return dict(hint="foo.yml")


@fault("in")
def manifest_not_there(b, files, d):
    return dict(args=["nope/foo.yml"], hint="nope/foo.yml")


@fault("in")
def manifest_empty(b, files, d):
    files["foo.yml"] = b.R.choice(["", "\n", "# nothing\n", "---\n", "--- {}\n"])


@fault("in")
def manifest_dangling(b, files, d):
    del files["foo.yml"]
    os.symlink("zz.yml", os.path.join(d, "foo.yml"))
    return dict(hint="foo.yml")


@fault("in")
def manifest_is_empty_directory(b, files, d):
    del files["foo.yml"]
    os.mkdir(os.path.join(d, "foo.yml"))
    return dict(hint="foo.yml")


@fault("in")
def manifest_binary(b, files, d):
    files["foo.yml"] = bytes(b.R.choice([0, 1, 2, 255, 254]) for _ in range(b.R.randrange(3, 200)))


@fault("in")
def manifest_wrong_shape(b, files, d):
    files["foo.yml"] = b.R.choice(["- a\n- b\n", "hello\n", "12\n", "GENERATOR: 5\n", "GENERATOR: [a]\n", "{{{\n", "GENERATOR:\n  PackageName: {a: b}\n", "a: b\n  c: d\n : e\n"])


@fault("in")
def manifest_tab(b, files, d):
    cut_yaml(b, files, lambda t: t.replace("\n  ", "\n\t", 1) if b.R.random() < .5 else t.replace("\nTRANSLATOR:\n  ", "\nTRANSLATOR:\n\t"))


@fault("in")
def manifest_unclosed(b, files, d):
    k = b.R.choice(list(b.tr))
    b.tr[k] = b.tr[k][:-1]
    files["foo.yml"] = b.yaml()


@fault("in")
def manifest_duplicate_or_wrong_type(b, files, d):
    s, k, v = b.R.choice([("PARSER", "SourcesPaths", "{a: b}"), ("PARSER", "IncludePaths", "{a: b}"), ("GENERATOR", "Includes", "{a: b}"), ("GENERATOR", "FlagGroups", "[a, b]"),
                          ("TRANSLATOR", "Rules", "[a, b]"), ("TRANSLATOR", "PtrTips", "[a]"), ("TRANSLATOR", "MemTips", "{a: b}"), ("PARSER", "Defines", "[a]"), ("GENERATOR", "Options", "[a]"),
                          ("TRANSLATOR", "ConstRules", "[a]"), ("GENERATOR", "PackageName", "[a]"), ("GENERATOR", "Options", "{SafeStrings: [1]}")])
    b.sections[s][k] = v
    files["foo.yml"] = b.yaml()


@fault("in")
def no_generator(b, files, d):
    b.sections["GENERATOR"] = None
    files["foo.yml"] = b.yaml() if b.R.random() < .5 else b.yaml() + "GENERATOR:\n"
    return dict(hint="generator")


@fault("in")
def no_package_name(b, files, d):
    if b.R.random() < .5:
        del b.gen["PackageName"]
    else:
        b.gen["PackageName"] = '""'
    files["foo.yml"] = b.yaml()
    return dict(hint="package name")


@fault("in")
def bad_package_name(b, files, d):
    n = b.R.choice(["foo-bar", "func", "9lives", "my pkg", "a/b-c", "x/type", "foo.bar", "/", "..", "a/..", "é-", "import", "a b/", "x/1"])
    b.gen["PackageName"] = '"%s"' % n
    files["foo.yml"] = b.yaml()
    return dict(hint="package name")


@fault("in")
def no_sources(b, files, d):
    k = b.R.randrange(3)
    if k == 0:
        b.sections["PARSER"] = None
    elif k == 1:
        b.par["SourcesPaths"] = "[]"
    else:
        del b.par["SourcesPaths"]
    files["foo.yml"] = b.yaml()


@fault("in")
def source_missing(b, files, d):
    srcs = b.names[:b.nsrc]
    bad = b.R.choice(["nope.h", "./nope.h", "sub/nope.h", "../nope.h", os.path.join(d, "nope.h"), "/nonexistent/nope.h", "foo.hh", "foo", "foo.h/x"])
    srcs = b.R.choice([[bad], srcs + [bad], [bad] + srcs])
    b.par["SourcesPaths"] = "[%s]" % ", ".join('"%s"' % s for s in srcs)
    files["foo.yml"] = b.yaml()
    return dict(hint=os.path.basename(bad))


@fault("in")
def source_deleted(b, files, d):
    n = b.R.choice(b.names[:b.nsrc])
    del files[b.place[n]]
    if b.R.random() < .4:
        os.symlink("gone.h", os.path.join(d, b.place[n]))
    return dict(hint=n)


@fault("in")
def source_only_a_directory(b, files, d):
    os.makedirs(os.path.join(d, "sub"))
    b.par["SourcesPaths"] = '["%s"]' % b.R.choice(["sub", os.path.join(d, "sub"), "."])
    files["foo.yml"] = b.yaml()


@fault("in")
def include_missing(b, files, d):
    n, p = header(b, files)
    files[p] = files[p].replace("\n", "\n#include %s\n" % b.R.choice(['"nope.h"', '<nope.h>', '"sub/nope.h"']), b.R.choice([1, 2])) if b.R.random() < .7 else '#include "nope.h"\n' + files[p]
    return dict(hint="nope.h")


@fault("in")
def include_deleted(b, files, d):
    rest = b.names[b.nsrc:]
    if not rest:
        return False
    n = b.R.choice(rest)
    del files[b.place[n]]
    return dict(hint=n)


@fault("in")
def include_path_lost(b, files, d):
    if not any(b.place[n].startswith("inc") for n in b.names):
        return False
    del b.par["IncludePaths"]
    files["foo.yml"] = b.yaml()


BAD_C = ["}", "{", ")", "int my_q(int a;", "int my_q(unknown_t a);", "typedef unknown_t my_q;", "struct my_q { int a", "int my_q(int);\nfloat my_q(int);", "#error no", "#if 1",
         "#endif", "#include", "/* open", "typedef struct my_q { int a; } my_q;\ntypedef struct my_q { int b; } my_q;", "int my_q[;", "enum { MY_Q = , };", "enum { MY_Q = my_nope };",
         "int my_q(int a) { return a;", "#if (1", "#if 1 +", "int 9q;", "@", "struct my_q { unknown_t *p; };", "typedef int my_q; int my_q(void);", "int my_q(struct);", "enum my_q my_q2(;", "#define F(x", 
         "#endif\n#endif", "int my_q = ;", "struct my_q { int a; }\nint my_r(void);", "class my_q { int a; };", "namespace my_q { }", "template <class T> T my_q(T a);", "int &my_q(int &a);", "using my_q = int;"]


@fault("in")
def header_not_c(b, files, d):
    n, p = header(b, files)
    lines = files[p].split("\n")
    k = b.R.choice([2, len(lines) - 2])      # inside the guard, outside of declarations
    bad = b.R.choice(BAD_C)
    lines[k:k] = bad.split("\n")
    files[p] = "\n".join(lines)
    return dict(note=bad)


@fault("in")
def header_truncated(b, files, d):
    """Cut inside of the last declaration: the guard is left open."""
    n, p = header(b, files)
    t = files[p]
    files[p] = t[:b.R.randrange(t.index("#define G_") + 12, len(t) - 8)]


DECLS = ["typedef struct my_q { int a; char *b[4]; struct my_q *const next; } my_q;", "int my_q(int (*cb)(const char *, void *), unsigned char **restrict p);", "enum my_q { MY_Q0, MY_Q1 = 5, MY_Q2 };",
         "typedef int (*my_q)(int, ...);", "static inline int my_q(int a) { if (a) { return a*a; } else { return -(a); } }", "extern const char *const my_q[];", "typedef union my_q { float f; struct { int a : 3; } s; } my_q;",
         "typedef enum { MY_QA, MY_QB = sizeof(int) } my_q;", "const int my_q[2][2] = { { 1, 2 }, { 3, 4 } };", "_Static_assert(sizeof(int) == 4, \"x\");", "struct my_q *my_r(struct my_q *a, ...) __attribute__((nonnull(1)));"]


@fault("in")
def header_cut(b, files, d):
    """The last header ends in the middle of a declaration."""
    p = b.place[b.names[b.nsrc - 1]]
    toks = re.findall(r"\w+|\"[^\"]*\"|\.\.\.|\S", b.R.choice(DECLS))
    cut = " ".join(toks[:b.R.randrange(1, len(toks))])
    t = files[p].rstrip("\n")
    assert t.endswith("#endif")
    files[p] = t[:-6] + cut + b.R.choice(["", "\n", " ", " // x"]) + ("\n#endif" + b.R.choice(["", "\n"]) if b.R.random() < .6 else "") if b.R.random() < .8 else t + "\n" + cut
    return dict(note=cut)


@fault("in")
def header_garbage(b, files, d):
    n, p = header(b, files)
    files[p] = files[p].replace("\n#endif", "\n@%s\n#endif" % "".join(b.R.choice("@$?`\\]})") for _ in range(b.R.randrange(1, 20))))


@fault("in")
def bad_arch(b, files, d):
    a = b.R.choice(["z80", "x86", "AMD64", "amd46", "arm65", "x86_64", "i386", "none"])
    b.par["Arch"] = a
    files["foo.yml"] = b.yaml()
    return dict(hint=a)


@fault("in")
def bad_pattern(b, files, d):
    rx = b.R.choice(["(", "^(my_", "[z", "a{2,1}", "*", "+a", "(?P<", "(?!x)", "\\\\", "x**", "a)", "[[:nope:]]", "(?z)", "\\\\Z"])
    q = '"%s"' % rx
    k = b.R.randrange(7)
    scope = b.R.choice(["global", "const", "type", "function", "public", "private", "post-global"])
    if k < 3:
        rule = b.R.choice(["{action: accept, from: %s}", "{action: ignore, from: %s}", "{action: replace, from: %s, to: x}", "{transform: lower, from: %s}", "{action: doc, from: %s, to: \"x\"}", "{load: snakecase, from: %s}"]) % q
        b.tr["Rules"] = "{%s: [{action: accept, from: \"(?i)^my_\"}, %s]}" % (scope, rule) if b.R.random() < .5 else "{global: [{action: accept, from: \"(?i)^my_\"}], %s: [%s]}" % ("zz" if scope == "global" else scope, rule)
        if "zz:" in b.tr["Rules"]:
            b.tr["Rules"] = b.tr["Rules"].replace("zz:", "private:")
    elif k == 3:
        b.tr["PtrTips"] = "{%s: [{target: \"^x\", tips: [arr]}, {target: %s, tips: [arr]}]}" % (b.R.choice(["function", "struct", "type", "any"]), q)
    elif k == 4:
        b.tr["TypeTips"] = "{%s: [{target: %s, tips: [named]}, {target: \"^x\", tips: [plain]}]}" % (b.R.choice(["function", "struct", "type", "any"]), q)
    elif k == 5:
        b.tr["MemTips"] = "[{target: \"^x\", self: raw}, {target: %s, self: raw}]" % q
    else:                       # another pattern language
        q = '"%s"' % b.R.choice(["(", "^(my_", "[z", "*", "+a", "a)"])
        b.tr["Validations"] = "[{validatefunc: f, ret: error, matchedfunc: %s}]" % q
    files["foo.yml"] = b.yaml()
    return dict(note=q, hint="regex")


@fault("in")
def unknown_load(b, files, d):
    b.tr["Rules"] = "{global: [{action: accept, from: \"(?i)^my_\"}, {load: nope}]}"
    files["foo.yml"] = b.yaml()
    return dict(hint="nope")


@fault("in")
def no_arguments(b, files, d):
    return dict(args=[])


@fault("in")
def unknown_option(b, files, d):
    return dict(args=["-frobnicate", "foo.yml"], hint="frobnicate")


@fault("in")
def one_argument_missing(b, files, d):
    """Arguments are looked up before any of them is processed."""
    return dict(args=b.R.choice([["foo.yml", "nope.yml"], ["nope.yml", "foo.yml"], ["foo.yml", "nope"], ["foo.yml", "foo.yml/x"]]), hint=None)


@fault("in")
def directory_without_manifest(b, files, d):
    os.makedirs(os.path.join(d, "sub/c-for-go.yml"))
    write(d, "sub/foo.yml", files["foo.yml"])
    return dict(args=b.R.choice([["sub"], ["foo.yml", "sub"]]), hint="sub")


# ---- places that cannot be written

@fault("out")
def out_is_a_file(b, files, d):
    write(d, "o", "x")
    return dict(args=["-out", b.R.choice(["o", "o/p", "./o"]), "foo.yml"])


@fault("out")
def package_is_a_file(b, files, d):
    p = b.pkg.split("/")
    write(os.path.join(d, "out"), "/".join(p[:b.R.randrange(1, len(p) + 1)]), "x")
    return dict(args=["-out", "out", "foo.yml"])


def outputs(b):
    return sorted(b.old)


@fault("out")
def file_is_a_directory(b, files, d):
    n = b.R.choice(outputs(b))
    os.makedirs(os.path.join(d, "out", n))
    return dict(args=["-out", "out", "foo.yml"], hint=os.path.basename(n), note=n)


@fault("out")
def disk_full(b, files, d):
    """Writing ends at a random size, below that of the longest file."""
    n = b.R.randrange(1, max(len(t) for t in b.old.values()) - 200)
    return dict(args=["-out", "out", "foo.yml"], limit=n, note="limit")


@fault("out")
def dangling_output(b, files, d):
    n = b.R.choice(outputs(b))
    p = os.path.join(d, "out", n)
    os.makedirs(os.path.dirname(p))
    os.symlink("nowhere/x", p)
    return dict(args=["-out", "out", "foo.yml"], hint=os.path.basename(n), note=n)


def tree(d):
    out = {}
    for a, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(a, f)
            out[os.path.relpath(p, d)] = "->" + os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
    return out


def one(ctx, i, seed, todo):
    R = random.Random(seed)
    while True:
        b0 = seed + R.randrange(1 << 30)
        b = Base(random.Random(b0))
        good = b.files()
        top = ctx.mkdir("case%d" % i)
        d = os.path.join(top, "good")
        for n, t in good.items():
            write(d, n, t)
        r = ctx.gen(d, ["-nostamp", "-out", "out", "foo.yml"])
        if r.rc != 0 or not os.path.isdir(os.path.join(d, "out", b.pkg)):
            ctx.violation("case %d: the unchanged input fails\n%s" % (i, r.text[-800:]), good)
            return
        break
    old = tree(os.path.join(d, "out"))
    for k, (name, kind, f) in enumerate(todo):
        b = Base(random.Random(b0))
        b.R = random.Random(R.randrange(1 << 60))
        b.old = old
        w = os.path.join(top, "w%d" % k)
        os.makedirs(w)
        files = b.files()
        how = f(b, files, w)
        if how is False:
            shutil.rmtree(w)
            continue
        how = how or {}
        for n, t in files.items():
            write(w, n, t)
        stale = kind == "in" and b.R.random() < .6
        args = how.get("args")
        if args is None:
            args = ["-out", "out", "foo.yml"]
        elif kind == "in" and args:
            args = ["-out", "out"] + args
        if stale:
            shutil.copytree(os.path.join(d, "out"), os.path.join(w, "out"))
        before = tree(w)
        flags = b.R.choice([[], ["-nostamp"], ["-debug"], ["-nocgo"]] if kind == "in" else [[], ["-nostamp"]])
        fancy = b.R.random() < .15
        r = ctx.gen(w, flags + args, fancy=fancy, limit=how.get("limit"))
        what = "case %d: fault %s%s: c-for-go %s" % (i, name, " (%s)" % how["note"] if how.get("note") else "", " ".join(flags + args))
        after = tree(w)
        text = r.text
        bad = None
        if r.timeout:
            bad = "does not end"
        elif PANIC.search(text) or r.rc < 0:
            bad = "crashes (status %d)" % r.rc
        elif r.rc == 0:
            bad = "ends with status 0"
        elif len(re.sub(r"processing \S+|\x1b\[\d*m|[\s|/\\-]", "", text)) < 8:
            bad = "gives no message"
        elif how.get("hint") and how["hint"].lower() not in text.lower():
            bad = "gives a message that does not name \"%s\"" % how["hint"]
        elif kind == "in":
            new = [n for n in after if after[n] != before.get(n) and (n.endswith(".go") or n.startswith("out/"))]
            gone = [n for n in before if n not in after]
            if new or gone:
                bad = "wrote or removed files: %s" % (new + gone)[:6]
        if bad:
            ctx.violation("%s %s\n%s" % (what, bad, text[-1500:]), files)
        ctx.evaluated(1, (name, how.get("note"), how.get("hint"), stale, tuple(flags)), sample="%s -> status %d: %s" % (name, r.rc, text.strip().split("\n")[-1][:100]), events=2 + len(after))
        ctx.stat("faults of input" if kind == "in" else "faults of output places")
        if stale:
            ctx.stat("runs over a package written before, which stayed as it was")
        shutil.rmtree(w)
    shutil.rmtree(top)


def endless_include(ctx):
    """A header that includes itself, with a limit of memory and time."""
    d = ctx.mkdir("self")
    files = {"foo.h": "#include \"foo.h\"\nint my_f(int);\n", "foo.yml": "GENERATOR:\n  PackageName: foo\nPARSER:\n  SourcesPaths: [foo.h]\nTRANSLATOR:\n  Rules: {global: [{action: accept, from: ^my_}]}\n"}
    for n, t in files.items():
        write(d, n, t)
    r = vlib.run(["prlimit", "--as=%d" % (3 << 29), ctx.tool, "-fancy=false", "foo.yml"], cwd=d, env=ctx.env, timeout=30)
    if r.rc == 0 or os.path.exists(os.path.join(d, "foo")):
        ctx.violation("a header that includes itself gives a package", files)
    elif r.timeout or PANIC.search(r.text) or r.rc < 0:
        if not ctx.known_finding("endless-include", "a header that includes itself without a guard: c-for-go does not end and uses memory without limit"):
            ctx.violation("a header that includes itself without a guard: c-for-go does not end", files)
    ctx.evaluated(1, "endless include")


def check(ctx):
    ctx.build_tool()
    endless_include(ctx)
    n = int(os.environ.get("VERIF_N") or (100 if ctx.tier == "quick" else 3000))
    per = 10
    R = random.Random(ctx.seed * 15015 + 7)
    weights = [f for f in FAULTS for _ in range({"header_not_c": 4, "header_cut": 4, "header_truncated": 2, "header_garbage": 2, "bad_pattern": 4, "disk_full": 3, "source_missing": 2, "bad_package_name": 2}.get(f[0], 1))]
    todo = []
    while len(todo) < n * per:
        w = weights[:]
        R.shuffle(w)
        todo += w
    ctx.pmap(lambda i: one(ctx, i, ctx.seed * 1000003 + i, todo[i * per:(i + 1) * per]), range(n))
    return ctx.finish(
        "a case is one run of the tool on a valid input with one fault put in; the same input without the fault is processed first; distinct by fault, "
        "place of the fault and options; exit status, output and every file below the working directory are compared",
        ["permissions are not used as faults because the checks run as root; unwritable places are files, directories, dangling links and a full device"])
