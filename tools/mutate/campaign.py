#!/usr/bin/env python3
"""campaign.py LOG FILE:COUNT... : draws mutants of files of /repo (HEAD), and for each that builds and passes the tests runs the checks,
the likeliest first, until one reports a violation. One JSON line per mutant goes to LOG. SEED in the environment."""
import json, os, random, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
ORDER = {
    "generator/gen_struct_helpers.go": "C03 C14 C13 C22 C20 C04 C02 C12",
    "generator/gen_callbacks.go": "C05 C13 C12 C20 C04 C03",
    "generator/gen_const.go": "C06 C18 C21 C01 C16",
    "generator/gen_bindings.go": "C03 C02 C19 C05 C04 C13 C20 C12",
    "generator/gen_typedef.go": "C13 C10 C21 C20 C14",
    "generator/gen_declares.go": "C02 C13 C20 C08 C18",
    "generator/gen_files.go": "C18 C21 C15 C01 C17",
    "generator/gen_common.go": "C02 C03 C18 C13",
    "generator/generator.go": "C18 C11 C08 C01 C21 C16",
    "translator/translator.go": "C20 C08 C22 C06 C13 C02 C16 C07",
    "translator/ast_walker.go": "C13 C10 C18 C07 C02 C06",
    "translator/helpers.go": "C16 C08 C18 C06 C13",
    "translator/rules.go": "C08 C20 C16 C13",
    "parser/parser.go": "C15 C07 C18 C17",
    "process.go": "C15 C17 C21 C09 C11",
    "main.go": "C17 C15 C21",
}
ALL = ["C%02d" % i for i in range(1, 25)]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    log, want = sys.argv[1], sys.argv[2:]
    R = random.Random(int(os.environ.get("SEED", "1")))
    jobs = []
    for w in want:
        f, n = w.split(":")
        tot = int(sh("/tmp/mutate /repo/" + f).stdout)
        jobs += [(f, k) for k in R.sample(range(tot), min(tot, int(n)))]
    R.shuffle(jobs)
    done = set()
    if os.path.exists(log):
        done = {(x["file"], x["k"]) for x in map(json.loads, open(log))}
    for f, k in jobs:
        if (f, k) in done or os.path.exists("/tmp/stop-campaign"):
            continue
        d = "/tmp/mutant"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh("git -C /repo archive HEAD | tar x -C " + d)
        m = subprocess.run(["/tmp/mutate", "/repo/" + f, str(k)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        open(d + "/" + f, "w").write(m.stdout)
        r = {"file": f, "k": k, "what": m.stderr.strip()}
        t = sh(". /opt/vp/env.sh; cd %s && go build -o /dev/null . && go test ./... 2>&1 | grep -q '^FAIL\\|panic' && echo FAILED" % d)
        if "FAILED" in t.stdout:
            r["result"] = "tests"
        elif t.returncode not in (0, 1) or "# github" in t.stdout:
            r["result"] = "build"
        else:
            r["result"] = "SURVIVED"
            order = ORDER.get(f, "").split()
            t0 = time.time()
            for c in order + [c for c in ALL if c not in order]:
                p = sh("VERIF_SEED=1 VERIF_REPO=%s timeout 900 python3 %s/check.py %s" % (d, VERIF, c))
                if p.returncode == 1:
                    r["result"] = c
                    break
                if p.returncode == 2:
                    r.setdefault("no_answer", []).append(c)
            r["s"] = round(time.time() - t0)
        with open(log, "a") as o:
            o.write(json.dumps(r) + "\n")
        print(r, flush=True)
    shutil.rmtree("/tmp/mutant", ignore_errors=True)


main()
