"""C12: concurrent calls of generated functions, under the race detector and with one trace per goroutine."""
import collections, os, re, shutil, time
import capi, harness, profiles, vlib

FAMS = [
    ("race", ["-race"], {}, dict(pk=["val", "arr", "str", "strs", "pp", "sval", "cb"], rk=["void", "val", "str", "ptr"],
                                 ncb=6, nfunc=14)),
    ("race-structs", ["-race"], {}, dict(pk=["sval", "sref", "val", "str", "opq", "cb"],
                                         rk=["void", "val", "sptr", "sval", "opq"],
                                         fk=("val", "arr", "ptr", "sptr"), ncb=3, nstruct=5, nfunc=14)),
    ("plain", [], {}, dict(pk=["val", "arr", "str", "strs", "pp", "sref", "cb"], rk=["void", "val", "str", "sptr"],
                           fk=("val", "arr", "ptr", "sptr"), ncb=5, nfunc=14, gc=0.03)),
    ("asan", ["-asan"], {"CGO_CFLAGS": "-O1 -g -w -fsanitize=address", "CGO_LDFLAGS": "-fsanitize=address"},
     dict(pk=["val", "arr", "str", "strs", "pp", "sref", "sarr", "cb"], rk=["void", "val", "str", "sptr"],
          fk=("val", "arr", "sval"), ncb=4, nfunc=12)),
]


def build_model(seed, kw, n, rounds, thread_p):
    a = profiles.model(seed, ncall=0, **kw)
    a.thread_p, a.nest_p = thread_p, 0.15
    a.concurrent(n, 1, rounds)
    return a


def check(ctx):
    ctx.build_tool()
    n = int(os.environ.get("VERIF_N") or (12 if ctx.tier == "quick" else 400))
    budget = 90 if ctx.tier == "quick" else 780
    inter, tot = set(), collections.Counter()

    def one(job):
        if time.time() - ctx.t0 > budget and ctx.count >= 4:
            ctx.stat("cases_not_run_for_time")
            return
        i, (label, flags, benv, _), api = job
        o = harness.prepare(ctx, api, "case%d" % i)
        what = "case %d (%s)" % (i, label)
        src = {"foo.h": api.header(), "foo.yml": api.manifest()}
        try:
            if o.stage != "build":
                ctx.violation("%s: c-for-go fails on a supported API\n%s" % (what, o.text[-2500:]), src)
                return
            if not harness.build(ctx, o, flags, benv):
                ctx.violation("%s: the generated package does not compile\n%s" % (what, o.text[:2500]), src, copy_dir=o.dir)
                return
            env = {"GORACE": "halt_on_error=0 exitcode=66", "ASAN_OPTIONS": "detect_leaks=0",
                   "GOMAXPROCS": str([4, 8, 16][i % 3])}
            if "asan" not in label and i % 2:
                env["GODEBUG"] = "clobberfree=1"
            t1 = time.time()
            harness.execute(ctx, o, env, 240)
            t1 = time.time() - t1
            if os.environ.get('VERIF_T'):
                print(what, env['GOMAXPROCS'], round(t1, 1), flush=True)
            events = 0
            bad = []
            for g in range(len(api.parts)):
                try:
                    got = open(os.path.join(o.dir, "trace.%d" % (g + 1)), errors="replace").read().splitlines()
                except OSError:
                    got = []
                events += len(got)
                d = harness.diff(api.slot_expect(g), got)
                if d:
                    bad.append("goroutine %d: %s" % (g, d))
            races = o.text.count("WARNING: DATA RACE")
            if o.timeout:
                ctx.violation("%s: concurrent calls do not end\n%s" % (what, "\n".join(bad[:2])), src, copy_dir=o.dir)
            elif races:
                ctx.violation("%s: %d data races\n%s" % (what, races, o.text[:2500]), src, copy_dir=o.dir)
            elif bad or o.rc != 0:
                ctx.violation("%s: rc %s\n%s\n%s" % (what, o.rc, "\n".join(bad[:3]), o.text[:2500]), src, copy_dir=o.dir)
            try:
                order = open(os.path.join(o.dir, "order"), "rb").read()
            except OSError:
                order = b""
            m = re.search(r"INFLIGHT max=(\d+)", o.text)
            with ctx.lock:
                inter.add(hash(order))
                tot["switches between goroutines in the recorded order"] += sum(
                    1 for a, b in zip(order, order[1:]) if a != b)
                tot["calls"] += sum(len(f) + len(r) * api.rounds for f, r in api.parts)
                tot["callbacks from foreign threads (scripted)"] += api.nthread
                tot["calls made by callbacks (scripted)"] += api.nnest
                tot["max calls in C at once"] = max(tot["max calls in C at once"], int(m.group(1)) if m else 0)
                tot["case " + label] += 1
            ctx.evaluated(1, key=(label, api.header()), events=events)
            if len(ctx.samples) < 3:
                ctx.samples.append({"case": i, "family": label, "goroutines": len(api.parts),
                                    "events": events, "order_head": list(order[:60])})
        finally:
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(o.dir, ignore_errors=True)

    rounds = 25 if ctx.tier == "quick" else 120
    batch = 16
    for lo in range(0, n, batch):
        jobs = []
        for i in range(lo, min(n, lo + batch)):
            f = FAMS[i % len(FAMS)]
            jobs.append((i, f, build_model(ctx.seed * 100003 + i, f[3], 8, rounds if f[0] != "asan" else rounds // 3 + 1,
                                           0.1 if f[0] != "asan" else 0)))
        ctx.pmap(one, jobs, workers=4)
    tot["distinct interleavings recorded"] = len(inter)
    return ctx.finish(
        "eight goroutines on threads of their own start together, use every callback type for the first time at once and "
        "then make calls of their own with values of their own while garbage is collected; the trace of every goroutine "
        "must be its own calls' scripted events, round after round, and the race detector must be silent; "
        "a case is distinct by its header",
        ["race detection covers the Go side of the generated package; cgo calls order threads for the detector, so accesses "
         "are only compared between cgo calls", "a callback type is always given the same Go function"],
        {"concurrency": dict(sorted(tot.items()))})
