"""Runs under the controlled scheduler (harness/libsched.cc): one thread at a time, seeded decisions."""
import os, random, re
from .build import tool
from .report import SEED, run


def sched_env(k, out, clock=None, steps=None):
    """environment of the k-th schedule; strategies and parameters vary with k and the seed"""
    r = random.Random(SEED * 1000003 + k * 7 + 5)
    e = {"LD_PRELOAD": tool("libsched"), "VSCHED_SEED": r.randrange(1 << 40), "VSCHED_MODE": r.choice([0, 1, 1, 1, 2, 2, 3]),
         "VSCHED_DEPTH": r.choice([1, 2, 3, 5, 10]), "VSCHED_K": steps or r.choice([100, 300, 1000, 5000]),
         "VSCHED_SPURIOUS": r.choice([0, 0, 5, 40]), "VSCHED_NEW": r.choice([0, 3, 30, 300]), "VSCHED_OUT": out}
    if clock is not None:
        e["VSCHED_CLOCK"] = clock
    else:
        e["VSCHED_CLOCK"] = r.choice([0, 0, 3, 20])
    return {k: str(v) for k, v in e.items()}


def fold(c, outs, prefix="schedules"):
    """counts what the scheduler did; distinct schedules by the hash of their decisions"""
    seen = set()
    for o in outs:
        if not os.path.exists(o):
            continue
        for l in open(o):
            w = l.split()
            d = dict(zip(w[::2], w[1::2]))
            if int(d.get("steps", 0)) == 0:
                continue
            c.add(prefix + "_runs")
            for k in ("steps", "switches", "spurious"):
                c.add(prefix + "_" + k, int(d[k]))
            seen.add(d["hash"])
    c.add(prefix + "_distinct", len(seen))
    return seen


def stuck(r):
    return r.rc == 77 and "libsched:" in r.err


def stuck_line(r):
    return " ".join(l for l in r.err.splitlines() if "libsched:" in l)[:900]


class Controlled:
    """Runs under the scheduler. A run that does not end within its time (rather than being found stuck) says nothing:
    the program may wait in a way that the scheduler does not know. After a few of them no more are tried."""
    def __init__(self, c):
        self.c, self.lost = c, 0

    def __call__(self, cmd, timeout=60, env=None, cwd=None):
        if self.lost >= 4:
            return None
        r = run(cmd, timeout=timeout, env=env, cwd=cwd)
        if r.timed_out:
            self.lost += 1
            self.c.add("schedules_inconclusive")
            return None
        return r
