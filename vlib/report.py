"""Verdicts, evidence and known findings, shared by all checks."""
import json, os, re, resource, signal, subprocess, sys, time, tempfile, shutil, hashlib, traceback, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
KNOWN = os.path.join(VERIF, "known-findings.txt")


class HarnessError(Exception):
    """The check could not do its work: neither held nor violated."""


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


CURRENT = None


class Check:
    def __init__(self, prop, level, rule, assumptions=()):
        global CURRENT
        CURRENT = self
        self.prop, self.level, self.rule = prop, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.counts = {}
        self.distinct = set()
        self.distinct_n = 0
        self.evaluations = 0
        self.samples = []
        self.violations = []     # (key, detail, replay)
        self.notes = []
        self.lock = threading.Lock()
        self.scratch = tempfile.mkdtemp(prefix="hycu-%s-" % prop)
        self.known = known_findings(prop)
        self.seen_keys = set()

    # -- observation -------------------------------------------------------------------------
    def add(self, name, n=1):
        with self.lock:
            self.counts[name] = self.counts.get(name, 0) + n

    def ev(self, n=1):
        with self.lock:
            self.evaluations += n

    def nontrivial(self, case=None, n=None):
        """Counts a distinct, non-trivial case; by identity, or n already deduplicated ones."""
        with self.lock:
            if n is not None:
                self.distinct_n += n
            else:
                self.distinct.add(hashlib.sha1(repr(case).encode()).hexdigest()[:16])

    def sample(self, s, cap=8):
        with self.lock:
            if len(self.samples) < cap:
                self.samples.append(s)

    # -- verdicts ----------------------------------------------------------------------------
    def violation(self, key, detail, replay=None):
        with self.lock:
            if key in self.seen_keys:
                return
            self.seen_keys.add(key)
            self.violations.append((key, detail, replay))
        print("observed violation: property=%s key=%s %s" % (self.prop, key, str(detail)[:1500]), flush=True)

    @property
    def failed(self):
        return any(k not in self.known for k, _, _ in self.violations)

    def sub(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def finish(self):
        distinct = len(self.distinct) + self.distinct_n
        cov = {"evaluations": int(self.evaluations), "distinct_nontrivial": int(distinct), "rule": self.rule,
               "samples": self.samples}
        for k, v in sorted(self.counts.items()):
            cov.setdefault(k, v)
        unlisted = [v for v in self.violations if v[0] not in self.known]
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(unlisted)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k, what in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if unlisted:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            for i, (k, d, r) in enumerate(unlisted[:5]):
                rp = os.path.join(rd, "%s-%d.json" % (self.prop, i))
                with open(rp, "w") as f:
                    json.dump({"property": self.prop, "key": k, "detail": d, "replay": r, "seed": SEED, "tier": TIER},
                              f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            sys.stdout.flush()
            sys.exit(1)
        if self.evaluations == 0 or distinct == 0:
            print("nothing was observed: inconclusive")
            sys.exit(3)
        print("held: property=%s evaluations=%d distinct=%d wall=%.1fs" %
              (self.prop, self.evaluations, distinct, time.time() - self.t0))
        sys.exit(0)


def main(fn):
    try:
        fn()
    except SystemExit:
        raise
    except HarnessError as e:
        print("check error: %s" % e)
        if CURRENT is not None and CURRENT.failed:
            CURRENT.finish()     # what was observed before stays observed
        sys.exit(2)
    except Exception as e:
        if CURRENT is not None and CURRENT.failed:
            traceback.print_exc(file=sys.stdout)
            CURRENT.finish()
        if type(e).__name__ == "BuildError":
            print("check error: build: %s" % str(e)[-4000:])
        else:
            traceback.print_exc(file=sys.stdout)
        sys.exit(2)


# ---------------------------------------------------------------------------------------------
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:halt_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:hard_rss_limit_mb=8000:allocator_may_return_null=0:verify_asan_link_order=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1",
}


class Result:
    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out

    @property
    def crashed(self):
        return self.rc < 0 or self.rc in (86, 66, 134, 139, 136)


# a check has 900 s: at the quick tier nothing is begun that could not end before
END = time.time() + (800 if TIER == "quick" else 10 ** 9)


def remaining():
    return END - time.time()


MEMORY = (16 if TIER == "thorough" else 3.5) * 2 ** 30


def run(cmd, timeout=120, env=None, cwd=None, stdin=None, enough=None):
    """Runs a command in its own process group; on time-out the whole group is killed.
    If the end of the check's own time cuts it short of `enough`, that is no answer."""
    if any(str(a).startswith("nodriver:") for a in cmd):
        # the driver could not be compiled against this tree: the program itself and other drivers decide
        if CURRENT is not None:
            CURRENT.add("runs_left_out_for_lack_of_driver")
        return Result(0, '{"ev":"done"}\n', "", False)
    given = min(timeout, remaining())
    if given < 5:
        raise HarnessError("out of time before " + " ".join(map(str, cmd))[:300])
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["LC_ALL"] = "C.UTF-8"
    e["MALLOC_PERTURB_"] = str(1 + SEED * 37 % 250)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
                         env=e, cwd=cwd, start_new_session=True)
    # a program that takes up memory without bound must not take the sandbox with it
    if not any("san-" in str(a) for a in cmd):
        try:
            resource.prlimit(p.pid, resource.RLIMIT_DATA, (int(MEMORY), int(MEMORY)))
        except OSError:
            pass
    to = False
    try:
        out, err = p.communicate(stdin, timeout=given)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            out, err = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            out, err = b"", b""
        if given < (enough or timeout):
            raise HarnessError("out of time within " + " ".join(map(str, cmd))[:300])
    if not to:
        try:
            os.killpg(p.pid, signal.SIGKILL)   # nothing of ours outlives a run
        except OSError:
            pass
    return Result(p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), to)


def run_retry(cmd, timeout=120, **kw):
    """A time-out alone is inconclusive: it is repeated once with twice the time."""
    r = run(cmd, timeout=timeout, **kw)
    if r.timed_out and not (CURRENT is not None and CURRENT.failed):
        r = run(cmd, timeout=2 * timeout, enough=timeout, **kw)
    return r


def harness(chk, cmd, timeout=200, env=None, label="", crash_key=None, hang_key=None, runner=None):
    """Runs a harness that speaks JSON lines on stdout and folds what it observed into chk."""
    r = (runner or run_retry)(cmd, timeout=timeout, env=env)
    if r is None:
        return None
    done = False
    last = None
    for line in r.out.splitlines():
        if not line.startswith("{"):
            continue
        try:
            o = json.loads(line)
        except ValueError:
            continue
        ev = o.get("ev")
        if ev == "violation":
            chk.violation(o["key"], o.get("detail", ""), {"cmd": cmd, "env": env, "case": o.get("case")})
        elif ev == "stat":
            for k, v in o.items():
                if k == "ev":
                    continue
                if k == "evaluations":
                    chk.ev(v)
                elif k == "distinct_nontrivial":
                    chk.nontrivial(n=v)
                elif k.startswith("max_"):
                    chk.counts[k] = max(chk.counts.get(k, 0), v)
                else:
                    chk.add(k, v)
        elif ev == "sample":
            chk.sample(o.get("s"))
        elif ev == "at":
            last = o.get("s")
        elif ev == "error":
            raise HarnessError("%s: %s" % (label, o.get("s")))
        elif ev == "done":
            done = True
    if r.timed_out:
        chk.violation(hang_key or "hang:" + label, "no termination within %d s (repeated with up to twice that); last: %s" % (timeout, last),
                      {"cmd": cmd, "env": env, "last": last})
    elif r.rc == 77 and "libsched:" in r.err:
        chk.violation("stuck", "%s: %s" % (label, " ".join(l for l in r.err.splitlines() if "libsched:" in l)[:900]), {"cmd": cmd, "env": env})
    elif r.crashed:
        chk.violation(crash_key or "crash:" + label, "exit %d; last: %s; stderr: %s" % (r.rc, last, r.err[-3000:]),
                      {"cmd": cmd, "env": env, "last": last})
    elif r.rc != 0 or not done:
        raise HarnessError("%s: harness ended with %d, done=%s\n%s" % (label, r.rc, done, r.err[-3000:]))
    return r


def parallel(fns, workers=8):
    """Runs the functions; once a violation was observed, those not yet started are left out."""
    def go(f):
        if CURRENT is not None and CURRENT.failed:
            return None
        return f()
    with ThreadPoolExecutor(max_workers=workers) as ex:
        fs = [ex.submit(go, f) for f in fns]
        return [f.result() for f in fs]
