import random
from vlib.report import harness, parallel, TIER

PRIMES = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 101, 127, 131, 199, 241, 251, 257, 509, 521]


def fields(limit, primes=PRIMES, maxr=6, maxq=3000):
    """(p, r, maxn) with p^(r*n) <= limit"""
    out = []
    for p in primes:
        for r in range(1, maxr + 1):
            if r > 1 and p ** r > min(limit, maxq):
                break
            n = 0
            while p ** (r * (n + 1)) <= limit:
                n += 1
            if n:
                out.append((p, r, n))
    return out


def several(limit, seed, n):
    """a random list of n fields, for one process"""
    R = random.Random(seed)
    return "/".join("%d:%d:%d" % R.choice([f for f in fields(limit) if f[2] >= (i % 3)]) for i in range(n))


def run_jobs(c, exe, jobs, label, timeout, env=None):
    """jobs: dicts of harness parameters, largest first"""
    def go(kw):
        kw = dict(kw)
        t = kw.pop("_t", timeout) if TIER == "quick" else timeout
        a = [exe] + [str(x) for kv in kw.items() for x in kv]
        harness(c, a, timeout=t, env=env, label=label + " " + " ".join("%s=%s" % kv for kv in kw.items() if kv[0] in ("p", "r", "maxn", "mode")))
        c.add("harness_processes")
    parallel([lambda kw=kw: go(kw) for kw in jobs])
