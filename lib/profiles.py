"""Families of random API models for the trace checks."""
import collections, os
import capi, harness


def model(seed, pk, rk, fk=("val", "arr"), nfunc=16, ncall=3, gc=0.0, ncb=3, nstruct=5, cbstructs=True, opts=None,
          long64=True,
          ctor=None, post_gc=0.0, thread=0.0, nest=0.0, raw=0, again=0.0):
    a = (ctor or capi.Api)(seed, long64)
    a.gc_p, a.post_gc_p, a.thread_p, a.nest_p = gc, post_gc, thread, nest
    a.again_p = again
    if opts:
        a.options.update(opts)
    for _ in range(3):
        a.mk_alias()
    for _ in range(2):
        a.mk_enum()
        a.mk_union()
    a.mk_pointers()
    a.mk_opq()
    a.mk_opq()
    if raw:
        a.options["StructAccessors"] = "true"
        while len(a.raws) < raw:
            a.mk_raw()
    for _ in range(nstruct):
        a.mk_struct(fk)
    for _ in range(ncb):
        a.mk_cb(cbstructs)
    for _ in range(nfunc):
        a.mk_func(pk, rk)
    for _ in range(ncall):
        for f in a.funcs:
            a.call(f)
    return a


def shapes(api):
    c = collections.Counter()
    for f in api.funcs:
        for p in f.params:
            c["param " + p.shape().split(":")[0]] += 1
        if f.ret:
            c["result " + f.ret.shape().split(":")[0]] += 1
    return c


def trace_check(ctx, fams, quick, thorough, rule, assumptions, flags=(), build_env=None, env=None):
    """fams: [(label, kwargs for model)], cycled over the cases."""
    ctx.build_tool()
    return ctx.finish(rule, assumptions, {"shapes": trace_run(ctx, fams, quick, thorough, flags, build_env, env)})


def trace_run(ctx, fams, quick, thorough, flags=(), build_env=None, env=None):
    n = quick if ctx.tier == "quick" else thorough
    budget = 60 if ctx.tier == "quick" else 780
    if os.environ.get("VERIF_N"):
        n, budget = int(os.environ["VERIF_N"]), 7200
    jobs = [(i, fams[i % len(fams)]) for i in range(n)]
    tot = collections.Counter()

    def one(job):
        import time
        if time.time() - ctx.t0 > budget and ctx.count >= 8:
            ctx.stat("cases_not_run_for_time")
            return
        i, (label, kw, api, fenv) = job
        tot.update(shapes(api))
        ctx.stat("calls", api.ncall)
        for what, n in api.nagain.items():
            ctx.stat("objects " + what, n)
        ctx.stat("callbacks_on_foreign_threads", api.nthread)
        ctx.stat("callbacks_that_call_c", api.nnest)
        ctx.stat("typedefs of pointers and arrays", len(api.handles) + len(api.arrtds) + len(api.strtds))
        ctx.stat("typedefs of pointers to structs", sum(1 for t in api.structs + api.opqs if t.ptd))
        ctx.stat("variadic functions", api.nvariadic)
        ctx.stat("structs_with_members_named_like_methods", api.nhelpers)
        harness.case(ctx, api, "case%d" % i, flags=flags, build_env=build_env, env=dict(env or {}, **fenv),
                     what="case %d (%s)" % (i, label), key=(label, api.header()))
        if len(ctx.samples) < 3 and i < 3:
            ctx.samples.append({"case": i, "family": label, "expected_trace_head": [x[:160] for x in api.expect[:3]]})
    # models are built one after another: the same seed gives the same cases
    batch = 64
    for lo in range(0, n, batch):
        ctx.pmap(one, [(i, (f[0], f[1], model(ctx.seed * 100003 + i, **f[1]), f[2] if len(f) > 2 else {})) for i, f in jobs[lo:lo + batch]])
    return dict(sorted(tot.items()))
