"""Runs one property's check: build, workers, verdict, evidence."""
import array, hashlib, importlib.util, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

import bld

VERIF = bld.VERIF
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:malloc_context_size=8",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1",
    "LC_ALL": "C.UTF-8",
}


class Inconclusive(Exception):
    pass


class Hung(Exception):
    """A hang was confirmed: nothing more is run."""


def san_key(text):
    """A stable key for a sanitizer report: kind and the first frames inside /repo/src."""
    m = re.search(r"(AddressSanitizer|ThreadSanitizer|LeakSanitizer): ([A-Za-z0-9\-]+(?: [a-z]+)?)", text)
    kind = None
    if m:
        kind = m.group(2)
    else:
        m = re.search(r"([^\s:]+):(\d+):(\d+): runtime error: (.*)", text)
        if m:
            kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(4))[:80]
            fn = re.search(r"#\d+ 0x[0-9a-f]+ in ([^\s(]+)", text)
            return kind + "@" + os.path.basename(m.group(1)) + ":" + (fn.group(1) if fn else "?")
    if kind is None:
        return None
    fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/[^\s:]+)?", text)]
    fn = "?"
    for l in re.findall(r"#\d+ 0x[0-9a-f]+ in (.+)", text):
        if "/repo/src/" in l:
            fn = re.sub(r"\(.*", "", l.split(" /repo")[0]).strip()[:80]
            break
    return "%s@%s" % (kind, fn)


class Ctx:
    def __init__(self, pid, tier, seed, replay=None):
        self.pid, self.tier, self.seed, self.replay = pid, tier, seed, replay
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.counters, self.maxima, self.samples = {}, {}, []
        self.evals = 0
        self.hashes = set()
        self.viols = {}
        self.lock = threading.Lock()
        self.hung = False
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        os.chmod(self.scratch, 0o755)
        self.rule = ""
        self.assumptions = []
        self.inconclusive = []
        self.extra = {}
        self.build_s = 0
        self.required = {}

    # ---- build
    def build(self, *names, variant="asan", extra=()):
        t = time.time()
        r = [bld.harness(n, variant, extra) for n in names]
        self.build_s += time.time() - t
        return r[0] if len(r) == 1 else r

    def prefix(self, variant="asan", progs=None, scripts=True, factories=True):
        t = time.time()
        r = bld.prefix(variant, progs, scripts, factories)
        self.build_s += time.time() - t
        return r

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- records
    def count(self, k, n=1):
        with self.lock:
            self.counters[k] = self.counters.get(k, 0) + n

    def maxi(self, k, v):
        with self.lock:
            if v > self.maxima.get(k, v - 1):
                self.maxima[k] = v

    def eval(self, n=1):
        with self.lock:
            self.evals += n

    def distinct(self, x):
        with self.lock:
            self.hashes.add(int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "little"))

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 4:
                self.samples.append(str(s)[:1500])

    def viol(self, key, msg, **data):
        with self.lock:
            if key not in self.viols:
                self.viols[key] = dict(key=key, msg=msg, **data)
        if key.startswith("hang:"):
            self.hung = True

    # ---- workers
    def spawn(self, cmd, timeout, env=None, cwd=None, log=None, stdin=None, progress=None, stall=0):
        """None: did not end in time, or `progress` (a file) did not change for `stall` seconds."""
        e = dict(os.environ)
        e.update(ENV)
        e.update(env or {})
        f = open(log, "wb") if log else subprocess.DEVNULL
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT if log else subprocess.DEVNULL, env=e, cwd=cwd,
                             stdin=stdin if stdin is not None else subprocess.DEVNULL, start_new_session=True)
        try:
            if not progress:
                return p.wait(timeout)
            end, last, seen = time.time() + timeout, None, time.time()
            while True:
                try:
                    return p.wait(1)
                except subprocess.TimeoutExpired:
                    pass
                try:
                    cur = open(progress).read()
                except OSError:
                    cur = None
                if cur != last:
                    last, seen = cur, time.time()
                if time.time() > end or time.time() > seen + stall or self.hung:
                    raise subprocess.TimeoutExpired(cmd, timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            return None
        finally:
            if log:
                f.close()

    def workers(self, exe, cases, n=8, mode="", timeout=300, env=None, resume=3):
        """n processes, each `cases` cases with its own seed."""
        if self.replay and (self.replay.get("exe") != os.path.basename(exe) or self.replay.get("mode", "") != mode):
            return
        stall = 60 if self.tier == "quick" else 150
        def one(k):
            wd = tempfile.mkdtemp(prefix="w%d-" % k, dir=self.scratch)
            outp = os.path.join(wd, "out.jsonl")
            start = 0
            sd = self.seed * 1000003 + k * 7919 + (hash_s(mode) % 1000)
            if self.replay:
                sd = self.replay["seed"]
            retried = False
            for attempt in range(resume + 1):
                log = os.path.join(wd, "log")
                sc = os.path.join(wd, "s")
                shutil.rmtree(sc, ignore_errors=True)
                os.makedirs(sc)
                cmd = [exe, "--seed", str(sd), "--cases", str(cases), "--start", str(start), "--out", outp,
                       "--scratch", sc, "--tier", self.tier]
                if mode:
                    cmd += ["--mode", mode]
                if self.replay:
                    cmd += ["--only", str(self.replay["case"])]
                rc = self.spawn(cmd, timeout, env=env, cwd=sc, log=log, progress=os.path.join(sc, "current"), stall=stall)
                if rc == 0:
                    break
                try:
                    cur = int(open(os.path.join(sc, "current")).read().strip())
                except Exception:
                    cur = start
                if rc is None and self.hung:
                    break
                if rc is None:
                    if not retried:      # once more, alone, before calling it a hang
                        retried = True
                        start = cur
                        continue
                    self.viol("hang:" + os.path.basename(exe) + (":" + mode if mode else ""),
                              "case %d did not end within %d s, twice" % (cur, stall),
                              exe=os.path.basename(exe), mode=mode, seed=sd, case=cur)
                    break
                try:
                    with open(log, "rb") as f:
                        f.seek(max(0, os.path.getsize(log) - 60000))
                        text = f.read().decode("utf-8", "replace")
                except OSError:
                    text = ""
                if rc == 9:
                    raise Inconclusive("harness error (rc 9) in %s: %s" % (exe, text[-2000:]))
                key = san_key(text)
                if key is None:
                    if rc in (-9, 137):
                        raise Inconclusive("worker killed (memory?) %s" % exe)
                    key = "crash:rc=%s" % rc
                    m = re.search(r"terminate called.*", text)
                    if m:
                        key += ":" + m.group(0)[:80]
                self.viol("crash:" + key, "worker ended with rc=%s at case %d" % (rc, cur), exe=os.path.basename(exe), mode=mode,
                          seed=sd, case=cur, log=text[-8000:])
                start = cur + 1
                if start >= cases or self.replay:
                    break
            self._collect(outp, exe, mode, sd)
            shutil.rmtree(wd, ignore_errors=True)

        if self.replay:
            n = 1
        with ThreadPoolExecutor(min(n, bld.JOBS)) as ex:
            for f in [ex.submit(one, k) for k in range(n)]:
                f.result()
        if self.hung:
            raise Hung()

    def _collect(self, outp, exe, mode, sd):
        try:
            lines = open(outp, encoding="utf-8", errors="replace").read().splitlines()
        except OSError:
            return
        for l in lines:
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d["t"] == "viol":
                self.viol(d["key"], d["msg"], exe=os.path.basename(exe), mode=mode, seed=sd, case=d["case"], log=d.get("log", ""))
            else:
                self.eval(d["evals"])
                for k, v in d["counters"].items():
                    self.count(k, v)
                for k, v in d["maxima"].items():
                    self.maxi(k, v)
                for s in d["samples"]:
                    self.sample(s)
        try:
            a = array.array("Q")
            with open(outp + ".hash", "rb") as f:
                a.frombytes(f.read())
            with self.lock:
                self.hashes.update(a)
        except OSError:
            pass

    def require(self, **kw):
        """Minimum observations; fewer make the run inconclusive, not a pass."""
        self.required.update(kw)


def hash_s(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=6).digest(), "little")


def known(pid):
    try:
        d = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except OSError:
        return []
    return [x for x in d.get("findings", []) if x["property"] == pid]


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = hash_s(os.environ["VERIF_SEED"]) % 1000000
    replay = None
    if "--replay" in argv:
        replay = json.load(open(argv[argv.index("--replay") + 1]))
    spec = importlib.util.spec_from_file_location(pid, os.path.join(VERIF, "checks", pid + ".py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    ctx = Ctx(pid, tier, seed, replay)
    err = None
    try:
        mod.run(ctx)
    except bld.BuildError as e:
        err = "build failed: %s" % e
    except Hung:
        pass
    except Inconclusive as e:
        err = "inconclusive: %s" % e
    except Exception:
        err = "check error: " + traceback.format_exc()
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    rc = 0
    kf = known(pid)
    kkeys = {}
    for k in kf:
        for x in k["keys"]:
            kkeys[x] = k
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    new = [v for k, v in sorted(ctx.viols.items()) if k not in kkeys]
    rdir = os.path.join(VERIF, "replay")
    for v in new:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%012x.json" % (pid, hash_s(v["key"])))
        with open(rp, "w") as f:
            json.dump(dict(property=pid, **v), f, indent=1)
        print("  violation key=%s: %s" % (v["key"], v["msg"][:1500]))
        if v.get("log"):
            print("    " + v["log"][-1500:].replace("\n", "\n    "))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    if err and rc == 0:
        print("ERROR %s: %s" % (pid, err))
        rc = 2
    if rc == 0 and not replay:
        for k, v in ctx.required.items():
            got = {"evaluations": ctx.evals, "distinct": len(ctx.hashes)}.get(k, ctx.counters.get(k, 0))
            if got < v:
                print("ERROR %s: observed too little: %s=%s, needs %s" % (pid, k, got, v))
                rc = 2
    cov = dict(evaluations=int(ctx.evals), distinct_nontrivial=len(ctx.hashes), rule=ctx.rule, samples=ctx.samples or ["none"],
               observed={k: ctx.counters[k] for k in sorted(ctx.counters)}, maxima=ctx.maxima)
    cov.update(ctx.extra)
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), coverage=cov,
                  assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
        tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, tmp[:-4])
    print("%s %s: %s, %d evaluations, %d distinct, build %.1fs, total %.1fs" % (
        pid, tier, {0: "held", 1: "VIOLATED", 2: "NO VERDICT"}[rc], ctx.evals, len(ctx.hashes), ctx.build_s, time.time() - ctx.t0))
    bld.prune()
    return rc
