import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.survey import *
from vlib.sched import *


def main_():
    c = Check("C11", "exploration",
              "Everything is compiled with the thread sanitizer and run: the worker pool driven directly with saves in between, reconfigurations and "
              "shutdowns, and whole surveys of several families with intermediate saves (moved clock) and disturbed schedules. Any reported race, "
              "lock-order inversion or misuse of a mutex is a violation. Distinct = distinct (workload, threads, schedule seed) runs that had work "
              "in several threads; the same under the controlled scheduler, where the order of all operations on locks is chosen by seeded strategies.",
              ["ThreadSanitizer reports only true races in instrumented code; yaml-cpp and Boost are not instrumented; FLINT is watched by helgrind"])
    q = TIER == "quick"
    exe = build([("pool", "tsan"), ("threaded", "tsan"), ("conserve", "tsan"), ("threaded", "rel")])
    rel = exe[("threaded", "rel")]
    shim = tool("libshim")
    supp = os.path.join(c.scratch, "supp")
    open(supp, "w").write("")
    ts = {"TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0"}

    def races(tag, r, replay):
        c.ev()
        if "WARNING: ThreadSanitizer" in r.err or "FATAL: ThreadSanitizer" in r.err:
            i = r.err.index("ThreadSanitizer")
            kind = r.err[i + 17:i + 60].split("\n")[0].split("(")[0].strip().replace(" ", "_")
            c.violation("tsan:" + kind, r.err[max(0, i - 40):i + 2500], replay)
            return True
        return False

    def direct(j):
        n, jit, rounds, k = j
        d = c.sub("p%d" % k)
        cmd = [exe[("pool", "tsan")], "mode", "real", "threads", str(n), "rounds", str(rounds), "blocks", "30", "seed", str(SEED * 500 + k), "dir", d, "limit", "60"]
        env = dict(ts, LD_PRELOAD=shim, VSHIM_SLEEP_DIV=40, VSHIM_JITTER=jit, VSHIM_SEED=SEED + k)
        r = run_retry(cmd, timeout=150 if q else 1200, env=env)
        if races("direct", r, {"cmd": cmd, "env": env}):
            return
        if r.timed_out or '"violation"' in r.out:
            raise HarnessError("pool harness does not end under tsan: " + r.out[-300:])
        if r.rc != 0:
            raise HarnessError("pool harness under tsan: %d %s" % (r.rc, r.err[-1500:]))
        for l in r.out.splitlines():
            if '"stat"' in l:
                o = json.loads(l)
                c.add("blocks", o.get("blocks", 0)); c.add("pools", o.get("pools", 0))
        c.nontrivial(("direct", n, jit, k))

    base = c.sub("survey")
    fams = [Family(3, 1, 1, package=1), Family(3, 1, 2, package=9), Family(5, 1, 1, package=3, n=2), Family(3, 2, 1, marked=True, package=5, n=2), Family(7, 1, 1, marked=True, package=4)]
    write_config(base + "/a.yaml", fams)
    write_config(base + "/b.yaml", [Family(5, 1, 1, package=1, n=3)])
    write_config(base + "/c.yaml", [Family(3, 1, 2, package=2, n=4), Family(3, 1, 3, package=200, n=2)])

    def survey(j):
        cfg, n, every, jit, k = j
        cmd = [exe[("threaded", "tsan")], "-n", str(n), base + "/" + cfg, base + "/o%d" % k]
        env = dict(ts, LD_PRELOAD=shim, VSHIM_SLEEP_DIV=40, VSHIM_JITTER=jit, VSHIM_SEED=SEED + k, VSHIM_CLOCK_EVERY=every)
        r = run_retry(cmd, timeout=150 if q else 1200, env=env)
        if races("survey", r, {"cmd": cmd, "env": env}):
            return
        if r.timed_out or r.rc != 0:
            raise HarnessError("survey under tsan ends with %s: %s" % (r.rc, r.err[-1500:]))
        n_files = sum(len(f) for _, _, f in os.walk(base + "/o%d" % k))
        c.add("surveys"); c.add("result_files", n_files); c.nontrivial((cfg, n, every, jit, k)); c.sample("%s threads=%d clock=%d jitter=%d: %d files" % (cfg, n, every, jit, n_files))
        if n_files > 2 * len(fams) + 2:
            c.add("surveys_with_intermediate_saves")
        # the same once more: resuming, with records present
        if k % 3 == 0:
            r = run_retry(cmd, timeout=200, env=env)
            races("resumed", r, {"cmd": cmd, "env": env})
        shutil.rmtree(base + "/o%d" % k, ignore_errors=True)

    # what the sanitizer does not see: FLINT itself, watched by helgrind (whose reports about the
    # compiler's atomics are left aside: only accesses made by FLINT's own code count) and, with its
    # initialisation slowed down, by the stand-in that notices two threads in it at once
    write_config(base + "/h.yaml", [Family(3, 2, 1, n=1, marked=True, package=20), Family(5, 1, 2, n=1, marked=True, package=60), Family(3, 1, 3, n=1, marked=True, package=30), Family(5, 1, 1, n=2, package=20)])

    def flint_helgrind(n):
        cmd = ["valgrind", "--tool=helgrind", "--history-level=full", rel, "-n", str(n), base + "/h.yaml", base + "/oh%d" % n]
        r = run_retry(cmd, timeout=150 if q else 1200)
        if r.timed_out or "ERROR SUMMARY" not in r.err:
            raise HarnessError("helgrind run ends with %s: %s" % (r.rc, r.err[-1000:]))
        c.ev()
        for b in re.split(r"==\d+== -{20,}\s*\n", r.err):
            if "Possible data race" in b:
                tops = re.findall(r"==\d+==    at 0x[0-9A-F]+: (.*)", b)
                if tops and all("libflint" in t for t in tops[:2]):
                    c.violation("flint_race", b[:2500], {"cmd": cmd})
                    break
                c.add("helgrind_reports_about_atomics_left_aside")
        c.add("helgrind_surveys"); c.nontrivial(("helgrind", n))

    def flint_init(n, k):
        cmd = [rel, "-n", str(n), base + "/h.yaml", base + "/og%d" % k]
        env = {"LD_PRELOAD": shim, "VSHIM_SLEEP_DIV": 40, "VSHIM_GR_DELAY": 300 + 200 * k}
        r = run_retry(cmd, timeout=100, env=env)
        c.ev(); c.nontrivial(("init", n, k))
        if "initialised by two threads" in r.err:
            c.violation("flint_init", "two threads initialise FLINT's method tables at the same time; the survey ends with %s" % r.rc, {"cmd": cmd, "env": env})

    todo = []
    k = 0
    for n in (2, 4) if q else (2, 3, 4, 8):
        todo.append(lambda n=n: flint_helgrind(n))
    for i in range(4 if q else 20):
        todo.append(lambda i=i: flint_init(2 + 2 * i, i))
    for n in (1, 2, 4, 8, 16):
        for jit in (0, 400):
            k += 1
            todo.append(lambda j=(n, jit, 40 if q else 400, k): direct(j))
    for cfg in ("a.yaml", "b.yaml", "c.yaml"):
        for n in (2, 5, 12) if q else (1, 2, 3, 5, 8, 12, 24):
            for every in (0, 4):
                for jit in (0, 300):
                    for rep in range(3 if q else 10):
                        k += 1
                        todo.append(lambda j=(cfg, n, every, jit, k): survey(j))
    todo.append(lambda: races("store", run_retry([exe[("conserve", "tsan")], "p", "5", "n", "1", "mode", "conc", "threads", "5", "blocks", "40", "inject", "0", "rounds", "4" if q else "80", "seed", str(SEED)], timeout=150 if q else 1500, env=ts), "store"))
    parallel(todo)

    # controlled schedules; the sanitizer does not take the scheduler for synchronization
    outs = []
    ctl = Controlled(c)

    def controlled(k):
        o = os.path.join(c.scratch, "sched%d" % k)
        outs.append(o)
        env = {**ts, **sched_env(2 * 10**6 + k, o), "VSCHED_LATE": "1", "VSCHED_NEW": "0"}
        d = c.sub("q%d" % k)
        if k % 3:
            cmd = [exe[("pool", "tsan")], "mode", "real", "threads", str([2, 3, 4, 8][k % 4]), "rounds", "4", "blocks", "12", "seed", str(SEED * 100000 + k), "dir", d]
        else:
            cmd = [exe[("threaded", "tsan")], "-n", str(1 + k % 5), base + ("/b.yaml" if k % 2 else "/s.yaml"), d + "/o"]
        r = ctl(cmd, timeout=100, env=env)
        if r is not None and not races("schedule", r, {"cmd": cmd, "env": env}) and not stuck(r) and r.rc != 0:
            raise HarnessError("under tsan and the scheduler: %d %s" % (r.rc, r.err[-1500:]))
        shutil.rmtree(d, ignore_errors=True)
    write_config(base + "/s.yaml", [Family(3, 1, 1, package=1), Family(3, 1, 1, marked=True, package=1), Family(5, 1, 1, package=9)])
    parallel([lambda k=k: controlled(k) for k in range(1200 if q else 20000)])
    c.nontrivial(n=len(fold(c, outs)))
    c.finish()


main(main_)
