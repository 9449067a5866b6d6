"""Write /verif/seeded/<id> for each planted bug of plants.py (arguments: ids; default all), after checking in a scratch
copy that it applies, changes original lines, builds, passes the tests and that its demo tells the trees apart."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(HERE, "..", "..", "seeded")
BASE = "0b38786"


def sh(cmd, cwd=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rc, t = sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm base" % (d, d))
    assert rc == 0, t


def main():
    import plants
    for p in plants.PLANTS:
        if len(sys.argv) > 1 and p["id"] not in sys.argv[1:]:
            continue
        d = "/tmp/plant-" + p["id"]
        copy(d)
        ok = True
        for f, old, new in p["edits"]:
            s = open(d + "/" + f).read()
            if s.count(old) < 1:
                print(p["id"], "text not found in", f)
                ok = False
                break
            k = p.get("all") and -1 or 1
            s = s.replace(old, new) if k < 0 else s.replace(old, new, 1)
            open(d + "/" + f, "w").write(s)
        if not ok:
            continue
        rc, diff = sh("git diff", d)
        for f in {f for f, _, _ in p["edits"]}:
            _, orig = sh("git -C /repo show %s:%s" % (BASE, f))
            o = set(orig.split("\n"))
            gone = [l[1:] for l in sh("git diff -U0 " + f, d)[1].split("\n") if l.startswith("-") and not l.startswith("---")]
            bad = [l for l in gone if l not in o]
            if bad:
                print(p["id"], "changes lines that are not original:", bad)
        out = os.path.join(SEED, p["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        for n, t in p["files"].items():
            open(os.path.join(out, n), "w").write(t)
        shutil.copy(HERE + "/lib.sh", out)
        os.chmod(out + "/demo.sh", 0o755)
        env = ". /opt/vp/env.sh; "
        rc, t = sh(env + "gofmt -l generator translator parser *.go; go vet ./... 2>&1 | tail -3; go build ./... && go test ./... 2>&1 | grep -v 'no test files'", d)
        tests = "ok" if "FAIL" not in t and rc == 0 else t[-600:]
        rc0, t0 = sh("bash %s/demo.sh" % os.path.abspath(out), "/repo", 300)
        rc1, t1 = sh("bash %s/demo.sh" % os.path.abspath(out), d, 300)
        print("%-22s tests %s; demo unchanged %d, patched %d%s%s" % (p["id"], tests, rc0, rc1, "" if rc0 == 0 else "\n" + t0[-800:], "" if rc1 not in (0, 2) else "\n" + t1[-800:]))
        if os.environ.get("SHOW"):
            print(t1[-700:])
        shutil.rmtree(d)


main()
