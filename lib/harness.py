"""Build and run the package c-for-go generates for an API model, compare the trace."""
import os, shutil
import vlib

RT = os.path.join(vlib.VERIF, "rt")


class Out:
    def __init__(self):
        self.stage = "gen"
        self.ok = False
        self.text = ""
        self.lines = []
        self.dir = None


def write(d, name, text):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb" if isinstance(text, bytes) else "w") as f:
        f.write(text)
    return p


def copy_rt(d, names):
    for n in names:
        shutil.copy(os.path.join(RT, n), d)


def prepare(ctx, api, name, gen_args=(), extra=None):
    """Generate into <scratch>/<name>; returns Out with stage 'gen' on failure, 'build' when generated."""
    o = Out()
    d = o.dir = ctx.mkdir(name)
    write(d, "go.mod", "module p\n\ngo 1.21\n")
    write(d, "foo.h", api.header())
    write(d, "foo.yml", api.manifest())
    r = ctx.gen(d, list(gen_args) + ["foo.yml"])
    o.text = r.text
    if r.timeout:
        o.stage = "timeout"
        return o
    if r.rc != 0 or not os.path.isdir(os.path.join(d, "foo")):
        return o
    p = os.path.join(d, "foo")
    write(p, "foo.h", api.header())
    write(p, "foo.c", api.impl())
    write(p, "zz_drv.go", api.driver())
    copy_rt(p, ["vrt.h", "vrt.c", "zz_rt.go"])
    os.makedirs(os.path.join(d, "cmd"), exist_ok=True)
    copy_rt(os.path.join(d, "cmd"), ["main.go"])
    for n, t in (extra or {}).items():
        write(d, n, t)
    o.stage = "build"
    return o


def build(ctx, o, flags=(), env=None):
    e = {"CGO_CFLAGS": "-O1 -g -w"}
    e.update(env or {})
    r = ctx.go(o.dir, ["build"] + list(flags) + ["-o", "drv", "./cmd"], env=e)
    o.text = r.text
    if r.rc != 0:
        return False
    o.stage = "run"
    return True


def execute(ctx, o, env=None, timeout=120, args=()):
    e = dict(ctx.env)
    e["GOTRACEBACK"] = "all"
    if env:
        e.update(env)
    r = vlib.run([os.path.join(o.dir, "drv")] + list(args), cwd=o.dir, env=e, timeout=timeout)
    o.lines = r.out.decode("utf-8", "replace").splitlines()
    o.text = r.err.decode("utf-8", "replace")
    o.rc, o.timeout = r.rc, r.timeout
    o.stage = "done"
    return r


def diff(expect, got):
    """First difference between the predicted and the recorded trace, or None."""
    for i in range(max(len(expect), len(got))):
        e = expect[i] if i < len(expect) else "<end of trace>"
        g = got[i] if i < len(got) else "<end of trace>"
        if e != g:
            j = 0
            while j < min(len(e), len(g)) and e[j] == g[j]:
                j += 1
            lo = max(0, j - 60)
            return "event %d\n  expected: ...%s\n  recorded: ...%s\n  (%s)" % (
                i, e[lo:lo + 300], g[lo:lo + 300], e[:40])
    return None


def case(ctx, api, name, gen_args=(), flags=(), env=None, build_env=None, what="", key=None, keep=False, timeout=120,
         known=None):
    """The whole round; reports violations. Returns Out or None."""
    o = prepare(ctx, api, name, gen_args)
    src = {"foo.h": api.header(), "foo.yml": api.manifest()}
    try:
        if o.stage in ("gen", "timeout"):
            ctx.violation("%s: c-for-go %s on a supported API\n%s" % (
                what, "does not end" if o.stage == "timeout" else "fails", o.text[-2500:]), src)
            return None
        if not build(ctx, o, flags, build_env):
            ctx.violation("%s: the generated package does not compile\n%s" % (what, o.text[:2500]), src, copy_dir=o.dir)
            return None
        execute(ctx, o, env, timeout)
        d = diff(api.expect, o.lines)
        if o.timeout:
            ctx.violation("%s: a call through the generated package does not return\n%s" % (what, d), src, copy_dir=o.dir)
        elif d or o.rc != 0:
            ctx.violation("%s: rc %s, %s\n%s" % (what, o.rc, d or "trace complete", o.text[:2000]), src, copy_dir=o.dir)
        else:
            o.ok = True
        ctx.evaluated(1, key=key, events=len(o.lines), sample=None)
        return o
    finally:
        if not keep and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(o.dir, ignore_errors=True)


def build_goscan(ctx):
    d = ctx.mkdir("goscan")
    for n in ("main.go", "go.mod"):
        shutil.copy(os.path.join(vlib.VERIF, "tools", "goscan", n), d)
    r = ctx.go(d, ["build", "-o", "goscan.bin", "."])
    if r.rc != 0:
        raise vlib.Inconclusive("goscan does not build: " + r.text[-500:])
    ctx.goscan = os.path.join(d, "goscan.bin")


def scan(ctx, *dirs):
    import json
    r = vlib.run([ctx.goscan] + list(dirs), env=ctx.env, timeout=120)
    if r.rc != 0:
        raise vlib.Inconclusive("goscan fails: " + r.text[-500:])
    return json.loads(r.out)
