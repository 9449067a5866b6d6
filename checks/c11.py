"""C11: the helper writer under the race detector, with perturbed schedules, slow and failing writers and parallel generators."""
import json, os, random, re, shutil, time
import c08, harness, profiles, rules, vlib
from harness import write

ALLP = ["val", "arr", "pp", "str", "strs", "opq", "sval", "sref", "sarr", "cb"]
ALLR = ["void", "val", "ptr", "str", "opq", "sval", "sptr"]
ALLF = ("val", "arr", "ptr", "sptr", "sarr", "pp", "sval")


def build(ctx):
    d = ctx.mkdir("h11")
    gm = open(os.path.join(vlib.REPO, "go.mod")).read()
    gm = re.sub(r"(?m)^module .*$", "module verif/c11", gm)
    gm += "\nrequire github.com/xlab/c-for-go v0.0.0\n\nreplace github.com/xlab/c-for-go => %s\n" % vlib.REPO
    write(d, "go.mod", gm)
    shutil.copy(os.path.join(vlib.REPO, "go.sum"), os.path.join(d, "go.sum"))
    shutil.copy(os.path.join(vlib.VERIF, "tools", "c11", "main.go.txt"), os.path.join(d, "main.go"))
    r = ctx.go(d, ["build", "-race", "-o", "h11", "."], env={"CGO_ENABLED": "1"}, timeout=600)
    if r.rc != 0:
        raise vlib.Inconclusive("the harness does not build:\n" + r.text[-2000:])
    return os.path.join(d, "h11")


def check(ctx):
    h = build(ctx)
    race = ctx.build_tool(race=True)
    harness.build_goscan(ctx)
    quick = ctx.tier == "quick"
    groups = 3 if quick else 24
    ngrp = 6

    def group(g):
        if not quick and time.time() - ctx.t0 > 780:
            ctx.stat("groups_not_run_for_time")
            return
        R = random.Random(ctx.seed * 1009 + g)
        dirs, src = [], {}
        for i in range(ngrp):
            tiny = i >= ngrp - 2
            d = ctx.mkdir("g%d/c%d" % (g, i))
            api = profiles.model(R.randrange(1 << 30), R.sample(ALLP, R.randrange(2, len(ALLP))) + ["val"], R.sample(ALLR, 4), ALLF,
                                 nfunc=1 if tiny else R.choice([0, 1, 3, 12, 25]), ncall=0, ncb=0 if tiny else R.choice([0, 1, 4]), nstruct=1 if tiny else R.choice([1, 3, 6]),
                                 opts={o: True for o in R.sample(["SafeStrings", "StructAccessors"], R.randrange(3))})
            write(d, "foo.h", api.header())
            write(d, "foo.yml", api.manifest())
            src["c%d.h" % i], src["c%d.yml" % i] = api.header(), api.manifest()
            dirs.append(d)
        env = dict(ctx.env, GORACE="halt_on_error=1 exitcode=66")
        r = vlib.run([h, str(R.randrange(1 << 40)), str(14 if quick else 200), str(9 if quick else 150)] + dirs, env=env, timeout=400)
        what = "group %d" % g
        if r.rc == 66 or b"DATA RACE" in r.err:
            ctx.violation("%s: data race\n%s" % (what, r.err.decode("utf-8", "replace")[:2500]), src)
            return
        if r.rc != 0 or r.timeout:
            ctx.violation("%s: the generator %s\n%s" % (what, "does not come to an end" if r.timeout or r.rc == 3 else "ends with status %s" % r.rc, r.text[-2500:]), src)
            return
        st = json.loads(r.out)
        if st["Problems"]:
            ctx.violation("%s: %d problems\n%s" % (what, len(st["Problems"]), "\n".join(st["Problems"][:6])), src)
        for k, n in st["Kinds"].items():
            ctx.stat("scenario " + k, n)
            ctx.evaluated(n, key=(g, k), events=0)
        ctx.stat("writes observed", st["Writes"])
        ctx.stat("closes observed", st["Closes"])
        ctx.stat("helpers audited", st["Helpers"])
        ctx.stat("distinct write orders and lengths", st["Interleavings"])
        with ctx.lock:
            ctx.events += st["Writes"]
        if g < 2:
            ctx.samples.append({"group": g, "scenarios": st["Kinds"], "writes": st["Writes"]})
        # the program itself, built with the race detector, several packages in one run
        out = []
        for k in range(3 if quick else 8):
            o = os.path.join(os.path.dirname(dirs[0]), "out%d" % k)
            args = ["-nostamp", "-out", o] + (["-nocgo"] if k % 3 == 2 else [])
            rr = vlib.run([race] + (["-fancy=false"] if k % 2 else []) + args + [os.path.join(d, "foo.yml") for d in dirs], cwd=os.path.dirname(dirs[0]),
                          env=dict(env, GOMAXPROCS=str((8, 2, 1)[k % 3])), timeout=240)
            if rr.rc == 66 or b"DATA RACE" in rr.err:
                ctx.violation("%s: data race in c-for-go\n%s" % (what, rr.err.decode("utf-8", "replace")[:2500]), src)
                return
            if rr.rc != 0 or rr.timeout:
                ctx.violation("%s: c-for-go ends with %s\n%s" % (what, "a timeout" if rr.timeout else rr.rc, rr.text[-1500:]), src)
                return
            ctx.evaluated(1, key=(g, "program", k))
            ctx.stat("runs of the race build of the program")
            out.append(o)
    ctx.pmap(group, range(groups), workers=3 if quick else 3)
    return ctx.finish(
        "an evaluation is one generator run from start to Close under a perturbed schedule, its output judged by an audit for missing and repeated helpers and against an undisturbed run, "
        "the whole under the race detector, several generators at a time; or one run of the race build of the program; distinct by group and scenario; events are writes of the helper writer",
        ["submissions are those the writers of the other files make; the tool has one submitter per generator"], min_eval=20)
