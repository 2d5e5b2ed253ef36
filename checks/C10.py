import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.survey import *
from vlib.sched import *


def main_():
    c = Check("C10", "exploration",
              "ThreadPool and StandaloneWorkerPool run random histories (assign, wait, save, reconfigure, shut down) with a recording store "
              "factory while a preloaded stand-in delays condition waits and mutex operations; event monitors check exactly-once processing, "
              "flushed before finished, one block per thread, at most n in progress, all threads back, all threads gone after shutdown. A pool whose "
              "threads all sleep for 25 s without an event is stuck. The same, and whole surveys, run under a controlled scheduler that lets one thread at a time "
              "go on and decides at every lock, wait, notification, sleep and at some allocations which one, by seeded strategies (random, priorities with few changes, "
              "starvation), with spurious wake-ups and virtual time: there a pool in which nothing can go on, or that only polls, is stuck at once. "
              "Distinct = distinct orders of completion seen and distinct schedules.",
              ["a pool in which all threads sleep for 25 s without any event does not continue by itself (the longest sleep in it is 500 ms)"])
    q = TIER == "quick"
    exe = build([("pool", "rel"), ("threaded", "rel")])
    shim = tool("libshim")
    jobs = []
    k = 0
    for mode in ("pool", "standalone"):
        for n in (1, 2, 3, 4, 8, 16, -1):
            for jit in (0, 300, 5000):
                k += 1
                rounds = (25 if jit < 1000 else 8) * (1 if q else 12)
                jobs.append((mode, n, jit, rounds, k))

    def go(j):
        mode, n, jit, rounds, k = j
        d = c.sub("p%d" % k)
        harness(c, [exe[("pool", "rel")], "mode", mode, "threads", str(n), "rounds", str(rounds), "blocks", "40", "seed", str(SEED * 1000 + k), "dir", d],
                timeout=150 if q else 1500, label="%s n=%d" % (mode, n),
                env={"LD_PRELOAD": shim, "VSHIM_SLEEP_DIV": 40, "VSHIM_JITTER": jit, "VSHIM_SEED": SEED * 77 + k})
        c.add("harness_processes")
    parallel([lambda j=j: go(j) for j in jobs], workers=6)

    # the same with controlled schedules
    outs = []
    ctl = Controlled(c)

    def controlled(k):
        o = os.path.join(c.scratch, "sched%d" % k)
        outs.append(o)
        mode, n = ("pool", "standalone")[k % 2], [2, 1, 3, 4, 8, 2, 3][k % 7]
        d = c.sub("q%d" % k)
        harness(c, [exe[("pool", "rel")], "mode", mode, "threads", str(n), "rounds", "6", "blocks", ["12", "5", "25"][k % 3], "seed", str(SEED * 100000 + k), "dir", d],
                timeout=60, runner=ctl, label="%s n=%d schedule %d" % (mode, n, k), env=sched_env(k, o))
        shutil.rmtree(d, ignore_errors=True)
    parallel([lambda k=k: controlled(k) for k in range(2000 if q else 60000)])
    c.nontrivial(n=len(fold(c, outs)))

    # whole surveys end, with sleeps as they are and with disturbed schedules, and without threads they are refused
    th = exe[("threaded", "rel")]
    fam = Family(3, 1, 1, package=1)
    base = c.sub("survey")
    write_config(base + "/c.yaml", [fam])
    write_config(base + "/m.yaml", [Family(3, 1, 1, package=1), Family(5, 1, 1, marked=True, package=7), Family(3, 1, 1, marked=True, package=1)])

    fams = {"c.yaml": [fam], "m.yaml": [Family(3, 1, 1, package=1), Family(5, 1, 1, marked=True, package=7), Family(3, 1, 1, marked=True, package=1)]}

    def recorded(what, out, cfg, rep):
        """every block handed out is in one record"""
        for f in fams[cfg]:
            try:
                bf = block_fault(f, totals(os.path.join(out, f.path))[1])
            except (Bad, OSError) as e:
                bf = str(e)
            if bf:
                c.violation("blocks", "%s: %r: %s" % (what, f, bf), rep)
        c.add("recorded_blocks_compared")

    def survey(i, n, cfg, env):
        r = run_retry([th, "-n", str(n), base + "/" + cfg, base + "/o%d" % i], timeout=60 if n else 25, env=env)
        c.ev(); c.add("surveys")
        if n == 0:
            if r.timed_out or r.rc == 0:
                c.violation("no_threads", "hycu-threaded -n 0 ends with %s" % ("no end" if r.timed_out else r.rc), [n, cfg])
        elif r.timed_out:
            c.violation("survey_stuck", "hycu-threaded -n %d does not end (repeated)" % n, [n, cfg, env])
        elif r.rc != 0:
            c.violation("survey_fails", "hycu-threaded -n %d ends with %d: %s" % (n, r.rc, r.err[-400:]), [n, cfg, env])
        else:
            recorded("hycu-threaded -n %d" % n, base + "/o%d" % i, cfg, [n, cfg, env])
    todo = [(0, "c.yaml", {}), (0, "m.yaml", {}), (1, "m.yaml", {}), (3, "c.yaml", {})]
    todo += [(n, "m.yaml", {"LD_PRELOAD": shim, "VSHIM_SLEEP_DIV": 40, "VSHIM_JITTER": j, "VSHIM_SEED": SEED + s}) for n in (1, 2, 5, 16) for j in (200, 3000) for s in range(2 if q else 40)]
    parallel([lambda i=i, t=t: survey(i, *t) for i, t in enumerate(todo)])
    outs = []

    def ssurvey(k):
        o = os.path.join(c.scratch, "ssched%d" % k)
        outs.append(o)
        n, cfg, env = 1 + k % 5, ("m.yaml", "c.yaml")[k % 3 == 0], sched_env(10**6 + k, o)
        out = base + "/t%d" % k
        r = ctl([th, "-n", str(n), base + "/" + cfg, out], timeout=60, env=env)
        if r is None:
            return
        c.ev(); c.add("surveys_with_controlled_schedule")
        if stuck(r):
            c.violation("survey_stuck", "hycu-threaded -n %d: %s" % (n, stuck_line(r)), [n, cfg, env])
        elif r.rc != 0:
            c.violation("survey_fails", "hycu-threaded -n %d ends with %d: %s" % (n, r.rc, r.err[-400:]), [n, cfg, env])
        else:
            recorded("hycu-threaded -n %d, schedule %d" % (n, k), out, cfg, [n, cfg, env])
        shutil.rmtree(out, ignore_errors=True)
    parallel([lambda k=k: ssurvey(k) for k in range(600 if q else 15000)])
    c.nontrivial(n=len(fold(c, outs, "survey_schedules")))
    c.finish()


main(main_)
