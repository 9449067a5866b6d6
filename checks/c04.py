"""C04: lifetime of the C memory behind generated calls: nothing read after it was freed, nothing freed twice,
nothing kept once Go is done with it. Monitors: a heap ledger with poisoning (every case) and AddressSanitizer."""
import collections, os, re, shutil, time
import capi, harness, profiles

ALL = ("val", "arr", "ptr", "sptr", "sarr", "pp", "sval")
FAMS = [
    ("strings", dict(pk=["str", "strs", "val"], rk=["str", "void"], gc=0.7)),
    ("arrays", dict(pk=["arr", "pp", "val"], rk=["ptr", "void"], gc=0.7)),
    ("structs", dict(pk=["sval", "sref"], rk=["sval", "sptr", "void"], fk=ALL, gc=0.6)),
    ("struct slices", dict(pk=["sarr", "sref"], rk=["void", "val"], fk=("val", "arr", "sval"), gc=0.6)),
    ("callbacks", dict(pk=["cb", "str", "sval", "strs"], rk=["void", "val"], fk=("val", "arr", "ptr"), gc=0.6)),
    ("all", dict(pk=["val", "arr", "pp", "str", "strs", "opq", "sval", "sref", "cb"], rk=["void", "val", "str", "sptr"], fk=ALL, gc=0.6)),
]


def one(ctx, i, label, api, mode, key=None):
    name = "case%d%s" % (i, mode)
    what = "case %d (%s, %s)" % (i, label, mode)
    o = harness.prepare(ctx, api, name)
    src = {"foo.h": api.header(), "foo.yml": api.manifest()}
    try:
        if o.stage != "build":
            ctx.violation("%s: c-for-go fails on a supported API\n%s" % (what, o.text[-2500:]), src)
            return
        env = {"GODEBUG": "clobberfree=1", "GOGC": "off"}  # collections are forced at chosen points
        if mode == "ledger":
            harness.copy_rt(os.path.join(o.dir, "foo"), ["vmem.h", "vmem.c", "zz_mem.go"])
            shutil.copy(os.path.join(harness.RT, "main_mem.go"), os.path.join(o.dir, "cmd", "main.go"))
            flags = ()
            benv = {"CGO_CFLAGS": "-O1 -g -w -fno-builtin"}
        else:
            flags = ("-asan",)
            benv = {"CGO_CFLAGS": "-O1 -g -w"}
            env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0"
        if not harness.build(ctx, o, flags, benv):
            ctx.violation("%s: the generated package does not compile\n%s" % (what, o.text[:2500]), src, copy_dir=o.dir)
            return
        harness.execute(ctx, o, env, 200)
        d = harness.diff(api.expect, o.lines)
        m = re.search(r"MEM left=(-?\d+) total=(\d+) bad=(\d+)", o.text)
        bad = None
        if "AddressSanitizer" in o.text or "VMEM:" in o.text:
            bad = "memory error"
        elif o.timeout:
            bad = "the calls do not return"
        elif o.rc != 0 or d:
            bad = "rc %s, %s" % (o.rc, d or "trace complete")
        elif mode == "ledger":
            if not m:
                bad = "no ledger"
            elif int(m.group(3)):
                bad = "%s bad frees" % m.group(3)
            elif int(m.group(1)) > 0:
                bad = "%s of %s C blocks are never freed" % (m.group(1), m.group(2))
            else:
                ctx.stat("c_blocks_obtained_and_freed", int(m.group(2)))
        if bad and key and d and ctx.known_finding(key, what):
            pass
        elif bad:
            ctx.violation("%s: %s\n%s" % (what, bad, o.text[:2500]), src, copy_dir=o.dir)
        ctx.stat("forced_collections_inside_calls", sum(1 for l in o.lines if re.match(r"C\d+' ", l)))
        ctx.evaluated(1, key=(label, mode, api.header()), events=len(o.lines),
                      sample={"case": i, "family": label, "monitor": mode, "ledger": m.group(0) if m else "asan clean"} if i in (0, 3, 5) else None)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(o.dir, ignore_errors=True)


class Untouched(capi.PSArr):
    def mut(self, n, v, R):
        return [], v


def probe(ctx):
    """Known finding: what an element of a slice of structs refers to after the call."""
    api = capi.Api(7)
    ty = next(x for x in api.sc if x.c == "int")
    s = capi.Struct("my_node", [("vals", capi.FPtr(ty))], tagged=True)
    api.types.append(s.decl())
    api.structs.append(s)
    f = capi.Func("my_probe", [Untouched(s)], None)
    api.funcs.append(f)
    api.post_gc_p = 1.0
    api.call(f, vals=[[[[1, 2, 3]], [[4, 5]]]], gc=True)
    one(ctx, 0, "slice of structs, read after the call", api, "ledger", "struct-slice-elements")


def check(ctx):
    ctx.build_tool()
    quick = ctx.tier == "quick"
    n = 18 if quick else 900
    budget = 100 if quick else 780
    for lo in range(0, n, 64):
        jobs = []
        for i in range(lo, min(n, lo + 64)):
            label, kw = FAMS[i % len(FAMS)]
            kw = dict(kw, nfunc=10, ncall=3, post_gc=0.5)
            seed = ctx.seed * 100003 + i
            jobs.append((i, label, profiles.model(seed, **kw), "ledger"))
            if i % 3 == (i // 6) % 3:
                jobs.append((i, label, profiles.model(seed, **kw), "asan"))

        def go(j):
            if time.time() - ctx.t0 > budget and ctx.count >= 12:
                ctx.stat("cases_not_run_for_time")
                return
            one(ctx, *j)
        ctx.pmap(go, jobs)
    probe(ctx)
    return ctx.finish(
        "a case is one generated package driven through its scripted calls with collections forced while C holds the arguments; "
        "the ledger must return to its starting point, the sanitizer must stay silent and the trace must be the predicted one",
        ["references obtained from PassRef are released with Free(), as the generated API asks",
         "blocks are freed by finalizers: the ledger is read after up to 60 forced collections"])
