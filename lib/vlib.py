"""Shared machinery of the checks: build the tool from /repo's working tree, run it on
generated inputs in a private scratch directory, collect violations, write the evidence."""
import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time, traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = max(2, min(8, os.cpu_count() or 2))


def base_env(scratch):
    e = {k: v for k, v in os.environ.items()
         if k in ("HOME", "PATH", "LANG", "USER", "LOGNAME")}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off",
             GOMODCACHE=os.environ.get("GOMODCACHE", "/root/go/pkg/mod"),
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
             GOFLAGS="-mod=readonly -buildvcs=false", TMPDIR=scratch)
    return e


class Inconclusive(Exception):
    pass


class Res:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def text(self):
        return (self.out + self.err).decode("utf-8", "replace")


def run(cmd, cwd=None, env=None, timeout=300, stdin=None):
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    except OSError as e:
        return Res(127, b"", str(e).encode())
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return Res(p.returncode, out, err)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        return Res(-9, out, err, True)


class Ctx:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED") or "1")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=os.environ.get("VERIF_TMP") or "/tmp")
        self.tmp = os.path.join(self.scratch, "tmp")
        os.mkdir(self.tmp)
        self.env = base_env(self.tmp)
        self.lock = threading.Lock()
        self.violations = []
        self.known_hits = []
        self.inconclusive = []
        self.notes = []
        self.count = 0
        self.hangs = 0
        self.events = 0
        self.distinct = set()
        self.samples = []
        self.tool = None
        self.known = self._load_known()
        self.stats = {}
        self.replay_root = os.path.join(VERIF, "evidence", "replays", prop)
        shutil.rmtree(self.replay_root, ignore_errors=True)

    # ---- tool -----------------------------------------------------------
    def build_tool(self, race=False):
        out = os.path.join(self.scratch, "c-for-go" + ("-race" if race else ""))
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
        env = dict(self.env)
        if race:
            env["CGO_ENABLED"] = "1"
        r = run(cmd, cwd=REPO, env=env, timeout=600)
        if r.rc != 0:
            raise Inconclusive("the tool does not build:\n" + r.text[-3000:])
        if not race:
            self.tool = out
        return out

    def gen(self, cwd, args, tool=None, timeout=60, env=None, fancy=False, limit=None):
        """Run c-for-go in cwd. A run that does not end in time is repeated once with more of it before it counts as hanging."""
        e = dict(self.env)
        if env:
            e.update(env)
        cmd = [tool or self.tool] + ([] if fancy else ["-fancy=false"]) + list(args)
        if tool is None:            # a runaway is not to take the sandbox's memory (the race detector needs address space)
            cmd = ["prlimit", "--as=%d" % (12 << 30)] + cmd
        if limit is not None:       # the longest file that can be written
            cmd = ["prlimit", "--fsize=%d" % limit] + cmd
        r = run(cmd, cwd=cwd, env=e, timeout=20 if self.hangs > 2 else timeout)
        if r.timeout and self.hangs <= 2:
            r = run(cmd, cwd=cwd, env=e, timeout=3 * timeout)
            with self.lock:
                self.hangs += r.timeout
        return r

    def mkdir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def go(self, cwd, args, timeout=240, env=None, mod=True):
        e = dict(self.env)
        if mod:
            e["GOFLAGS"] = "-mod=mod -buildvcs=false"
        if env:
            e.update(env)
        return run(["go"] + list(args), cwd=cwd, env=e, timeout=timeout)

    # ---- bookkeeping ----------------------------------------------------
    def stat(self, key, n=1):
        with self.lock:
            self.stats[key] = self.stats.get(key, 0) + n

    def evaluated(self, n=1, key=None, sample=None, events=0):
        with self.lock:
            self.count += n
            self.events += events
            if key is not None:
                self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])
            if sample is not None and len(self.samples) < 4:
                self.samples.append(sample)

    def _load_known(self):
        p = os.path.join(VERIF, "known_findings.json")
        try:
            return [k for k in json.load(open(p))["findings"] if k["property"] == self.prop]
        except FileNotFoundError:
            return []

    def violation(self, what, files=None, copy_dir=None):
        """files: {name: text}. One replay directory per violation, at most 8."""
        with self.lock:
            n = len(self.violations)
            path = os.path.join(self.replay_root, "v%02d" % n)
            self.violations.append((what, path))
            if n >= 8:
                return
        os.makedirs(path, exist_ok=True)
        with open(os.path.join(path, "what.txt"), "w") as f:
            f.write("property %s, seed %d, tier %s\n%s\n" % (self.prop, self.seed, self.tier, what))
        for name, text in (files or {}).items():
            fn = os.path.join(path, name.replace("/", "__"))
            with open(fn, "wb") as f:
                f.write(text if isinstance(text, bytes) else str(text).encode())
        if copy_dir and os.path.isdir(copy_dir):
            shutil.copytree(copy_dir, os.path.join(path, "case"), dirs_exist_ok=True,
                            ignore=shutil.ignore_patterns("*.bin", "drv", "tmp"))

    def known_finding(self, key, what):
        """A violation listed in known_findings.json under this key is a finding; others are violations."""
        for k in self.known:
            if k["key"] == key:
                with self.lock:
                    self.known_hits.append((key, k["what"]))
                return True
        return False

    def inconclusive_case(self, what):
        with self.lock:
            self.inconclusive.append(what)

    def pmap(self, fn, items, workers=None):
        items = list(items)
        with cf.ThreadPoolExecutor(max_workers=workers or NCPU) as ex:
            futs = [ex.submit(fn, it) for it in items]
            res = []
            for f in futs:
                res.append(f.result())
        return res

    # ---- verdict --------------------------------------------------------
    def finish(self, rule, assumptions=(), extra=None, min_eval=1):
        cov = {"evaluations": self.count, "distinct_nontrivial": len(self.distinct),
               "rule": rule, "samples": self.samples or ["(none)"],
               "monitored_events": self.events}
        cov.update(self.stats)
        if extra:
            cov.update(extra)
        if self.inconclusive:
            cov["inconclusive_cases"] = len(self.inconclusive)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, what in sorted(set(self.known_hits)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        for what, path in self.violations[:8]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + what.strip().replace("\n", "\n  ")[:1500])
        for i in self.inconclusive[:5]:
            print("inconclusive: " + i[:600])
        print("%s %s seed=%d: %d evaluations, %d distinct, %d events, %d violations, %d inconclusive, %.1fs" % (
            self.prop, self.tier, self.seed, self.count, len(self.distinct), self.events,
            len(self.violations), len(self.inconclusive), time.time() - self.t0))
        if self.violations:
            return 1
        if self.count < min_eval:
            print("inconclusive: only %d evaluations" % self.count)
            return 2
        return 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def main(prop, fn):
    """Run fn(ctx) and turn its outcome into an exit code."""
    ctx = Ctx(prop)
    try:
        rc = fn(ctx)
    except Inconclusive as e:
        print("error: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.close()
        else:
            print("kept", ctx.scratch)
    return rc
