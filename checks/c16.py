"""C16: several manifests in one run against each of them alone; directory arguments and missing arguments."""
import os, random, shutil, time
import c06, c07, c08, c10, capi, profiles, rules
from harness import write

NAMES = ["c-for-go.yaml", "c-for-go.yml", "%s.yaml", "%s.yml"]


def tree(d):
    return {f: t for f, t in c10.tree(d).items()} if os.path.isdir(d) else {}


def package(R, seed, kind, name, long_names):
    """files of one package: headers and the text of its manifest"""
    if kind == 3:
        m = c07.Model(seed, True, R.random() < 0.5)
        return {"foo.h": m.header()}, m.manifest(None, "").replace("PackageName: foo", "PackageName: " + name)
    files, _ = c10.source(R, seed, kind)
    y = files.pop("foo.yml")
    for p in ("PackageName: foo", "PackageName: a/foo"):
        y = y.replace(p, "PackageName: " + name)
    return files, y


def one(ctx, i, seed, race):
    R = random.Random(seed)
    top = ctx.mkdir("case%d" % i)
    src = os.path.join(top, "src")
    os.makedirs(src)
    what = "case %d" % i
    shown = {}
    try:
        k = R.randrange(2, 6)
        names = R.sample(["foo", "bar", "a/foo", "a", "a/b/foo", "b/bar", "zoo", "x/y"], k)
        shared = R.random() < 0.4
        kind = R.choice([0, 1, 3])
        shared_seed = R.randrange(1 << 30)
        pk = []          # (argument, manifest path, package)
        for j, n in enumerate(names):
            d = R.choice(["d%d" % j, "x/d%d" % j, "d%d/sub" % j])
            # headers in common, with manifests of their own: rules that do not agree
            if shared:
                files, y = package(random.Random(shared_seed), shared_seed, kind, n, False)
                if R.random() < 0.7:
                    y = y.replace("{action: accept, from: \"(?i)^my_\"}", "{action: accept, from: \"(?i)^my_.*%s\"}" % R.choice("abcdefg0123"))
                if R.random() < 0.5:
                    y = y.replace("{transform: export}", "{transform: %s}" % R.choice(["lower", "upper", "title"]))
            else:
                files, y = package(R, R.randrange(1 << 30), R.randrange(4), n, False)
            for f, t in files.items():
                write(src, d + "/" + f, t)
                shown[d + "/" + f] = t
            base = os.path.basename(d)
            how = R.random()
            if how < 0.35:
                m = "%s/any%d.yml" % (d, j)
                arg = m
                if R.random() < 0.5:                # a manifest of the tool's name is not meant
                    write(src, d + "/c-for-go.yaml", y.replace("PackageName: " + n, "PackageName: wrong"))
            else:
                p = R.randrange(4)
                cand = [x % base if "%" in x else x for x in NAMES]
                m = d + "/" + cand[p]
                for q in range(4):
                    if q < p and R.random() < 0.25:         # a directory of that name is no manifest
                        os.makedirs(os.path.join(src, d, cand[q]), exist_ok=True)
                    elif q > p and R.random() < 0.4:
                        write(src, d + "/" + cand[q], y.replace("PackageName: " + n, "PackageName: wrong"))
                if R.random() < 0.3:
                    write(src, d + "/other.yml", "not: [a manifest")
                arg = d + R.choice(["", "/"])
                ctx.stat("directory arguments")
            write(src, m, y)
            shown[m] = y
            pk.append((arg, m, n))
        opts = ["-nostamp"] + R.choice([[], [], ["-ccdefs"], ["-ccincl"], ["-maxmem", "0x3fffffff"], ["-nocgo"]])
        out = R.choice([None, "o", "o/p"])
        absolute = R.random() < 0.3

        def path(a, wd):
            return os.path.join(src, a) if absolute else os.path.relpath(os.path.join(src, a), wd) + ("/" if a.endswith("/") else "")

        def workdir(label):
            w = os.path.join(top, label)
            os.makedirs(w)
            return w
        # each alone, by the path of its manifest
        alone = {}
        bad = set()
        for j, (a, m, n) in enumerate(pk):
            w = workdir("alone%d" % j)
            r = ctx.gen(w, opts + (["-out", out] if out else []) + [path(m, w)])
            if r.rc != 0:
                bad.add(j)
                ctx.stat("manifests that are refused alone")
                continue
            place = os.path.join(w, out or "", n)
            alone[j] = tree(w)
            stray = [f for f in alone[j] if os.path.dirname(os.path.join(w, f)) != place]
            if not alone[j]:
                ctx.stat("manifests that write no files alone")
                if "-nocgo" not in opts:
                    ctx.violation("%s: %s alone writes no files" % (what, m), shown)
                    return
            if stray:
                ctx.violation("%s: %s alone writes outside %s: %s" % (what, m, place, stray[:4]), shown)
                return
        good = [j for j in range(k) if j not in bad]
        if len(good) < 2:
            return
        for rnd in range(3):
            order = good[:]
            R.shuffle(order)
            if rnd == 2:
                order = order[:2]
            w = workdir("all%d" % rnd)
            r = ctx.gen(w, opts + (["-out", out] if out else []) + [path(pk[j][0], w) for j in order], fancy=rnd == 1 or R.random() < 0.3, tool=race if rnd == 1 else None, timeout=120)
            got, want = tree(w), {}
            for j in order:
                want.update(alone[j])
            label = "%s: run of %s" % (what, [pk[j][0] for j in order])
            if r.rc != 0 or b"DATA RACE" in r.err:
                ctx.violation("%s: rc %s\n%s" % (label, r.rc, r.text[-1500:]), shown)
                return
            if got != want:
                delta = sorted(f for f in set(got) | set(want) if got.get(f) != want.get(f))
                ctx.violation("%s (%s): differs from the packages alone: %s; missing %s, more %s" % (
                    label, " ".join(opts), delta[:6], [f for f in want if f not in got][:4], [f for f in got if f not in want][:4]), shown)
                return
            ctx.stat("packages compared", len(order))
        # arguments that do not exist, or directories without a manifest, among good ones
        w = workdir("none")
        miss = R.choice(["nothere.yml", "no/where", "empty", "empty2"])
        os.makedirs(os.path.join(src, "empty"))
        write(src, "empty2/some.yml", shown[pk[good[0]][1]])
        write(src, "empty2/c-for-go.yaml.bak", shown[pk[good[0]][1]])
        args = [path(pk[j][0], w) for j in good]
        args.insert(R.randrange(len(args) + 1), path(miss, w))
        r = ctx.gen(w, opts + args)
        if r.rc == 0 or r.timeout:
            ctx.violation("%s: %s is not refused (rc %s)" % (what, args, r.rc), shown)
        elif miss.rstrip("/") not in r.text:
            ctx.violation("%s: the message on %s does not name it: %s" % (what, miss, r.text[-300:]), shown)
        elif b"panic:" in r.err or b"goroutine " in r.err:
            ctx.violation("%s: %s ends in a panic" % (what, miss), shown)
        ctx.evaluated(1, key=sorted(shown.items()), events=sum(map(len, alone.values())),
                      sample={"case": i, "arguments": [a for a, _, _ in pk], "packages": names, "shared headers": shared})
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(top, ignore_errors=True)


def check(ctx):
    ctx.build_tool()
    race = ctx.build_tool(race=True)
    n = int(os.environ.get("VERIF_N") or (24 if ctx.tier == "quick" else 1200))
    budget = 60 if ctx.tier == "quick" and not os.environ.get("VERIF_N") else 780

    def go(i):
        if time.time() - ctx.t0 > budget and ctx.count > 9:
            ctx.stat("cases_not_run_for_time")
            return
        one(ctx, i, ctx.seed * 100003 + i, race)
    ctx.pmap(go, range(n))
    return ctx.finish(
        "an evaluation is two to five packages generated alone, then together in three orders and subsets (one under the race detector), by manifest or by directory with lower ranked manifests "
        "beside; trees compared byte for byte; then a run with a missing argument among them; events are files compared; distinct by headers and manifests",
        ["the oracle for a package is the same tool given its manifest alone, what that writes is judged by the other properties"], min_eval=6)
