import os, sys, random, struct
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.survey import *
from vlib.mpi import *
from vlib.sched import *


def main_():
    c = Check("C24", "exploration",
              "Pools are driven with a store that lets no block of a group of n go on before all n have begun, n being the number of threads: a pool that leaves a thread without work "
              "while blocks wait does not get past that (30 s, or at once under the controlled scheduler). In whole surveys of both programs "
              "a preloaded stand-in does the same at the squarefree tests that the worker threads ask for (with one polynomial in each block, one for each block), across processes; "
              "exactly as many threads as asked for must have worked in each process. Distinct = distinct histories, schedules, surveys.",
              ["surveys are decided while working threads ask for one squarefree test for each polynomial; else only pools are (counted)"])
    q = TIER == "quick"
    exe = build([("parallel", "rel"), ("threaded", "rel"), ("mpi", "rel")])
    pl, th, mx = exe[("parallel", "rel")], exe[("threaded", "rel")], exe[("mpi", "rel")]
    shim = tool("libshim")
    R = random.Random(SEED * 7919 + 24)
    todo = []

    def free(k, mode, n, jit):
        d = c.sub("p%d" % k)
        harness(c, [pl, "mode", mode, "threads", str(n), "rounds", str((12 if n < 10 else 4) * (1 if q else 10)), "seed", str(SEED * 1000 + k), "dir", d, "wait", "30"],
                timeout=150 if q else 1500, label="%s n=%d" % (mode, n), env={"LD_PRELOAD": shim, "VSHIM_SLEEP_DIV": 20, "VSHIM_JITTER": jit, "VSHIM_SEED": SEED * 77 + k})
        shutil.rmtree(d, ignore_errors=True)
    k = 0
    for mode in ("pool", "standalone"):
        for n in (1, 2, 3, 5, 8, 13, 40, -1):
            for jit in (0, 400):
                k += 1
                todo.append(lambda j=(k, mode, n, jit): free(*j))

    for mode in ("pool", "standalone"):
        k += 1
        todo.append(lambda j=(k, mode, 300, 0): free(*j))

    outs = []
    ctl = Controlled(c)

    def controlled(k):
        o = os.path.join(c.scratch, "sched%d" % k)
        outs.append(o)
        d = c.sub("q%d" % k)
        mode, n = ("pool", "standalone")[k % 2], [2, 1, 3, 4, 7, 2, 5][k % 7]
        harness(c, [pl, "mode", mode, "threads", str(n), "rounds", "3", "seed", str(SEED * 100000 + k), "dir", d, "wait", "0"],
                timeout=60, runner=ctl, label="%s n=%d schedule %d" % (mode, n, k), env=sched_env(k, o))
        shutil.rmtree(d, ignore_errors=True)
    for k in range(500 if q else 20000):
        todo.append(lambda k=k: controlled(k))

    # one polynomial in each block
    F = [Family(3, 1, 1, package=1), Family(5, 1, 1, True, package=1), Family(7, 1, 1, package=1), Family(3, 2, 1, package=1), Family(3, 1, 2, True, package=1), Family(11, 1, 1, True, package=1), Family(13, 1, 1, package=1), Family(5, 1, 2, True, package=1)]
    shape = {}

    def arrivals(base):
        b = open(base + "/meet", "rb").read(16) if os.path.exists(base + "/meet") else b""
        return struct.unpack("qq", b) if len(b) == 16 else (0, 0)

    def learn(f):
        """number of blocks of a family, and whether each is one arrival"""
        base = c.sub("learn%d" % F.index(f))
        write_config(base + "/c.yaml", [f])
        r = run_retry([th, "-n", "2", base + "/c.yaml", base + "/out"], timeout=100, env={"LD_PRELOAD": shim, "VSHIM_SLEEP_DIV": 40, "VSHIM_MEET": base + "/meet"})
        if r.timed_out or r.rc != 0:
            c.violation("survey_fails", "hycu-threaded -n 2 on %r: ends with %s" % (f, "no end" if r.timed_out else r.rc), [repr(f)])
            return
        b = sum(len(x[1]) for x in pairs(os.path.join(base, "out", f.path)))
        shape[repr(f)] = (b, arrivals(base)[0] == b)
        c.add("families_learnt"); c.counts["blocks_of_" + repr(f)] = b
        shutil.rmtree(base, ignore_errors=True)

    def survey(k, ranks, n, fams, jit, every):
        g = [None, 0, 1, 8, 17, 64][k % 6]      # there is no device
        if not all(shape.get(repr(f), (0, False))[1] for f in fams):
            c.add("undecided_other_work")
            return
        tag = "s%d" % k
        base = c.sub(tag)
        write_config(base + "/c.yaml", fams)
        want, procs = n if n else len(os.sched_getaffinity(0)), max(1, ranks)
        groups = " ".join("%d:%d" % (want * procs, shape[repr(f)][0]) for f in fams)
        where = "%s with %s threads on %r" % ("hycu-mpi of %d" % ranks if ranks else "hycu-threaded", n or "as many as processors", fams)
        if all(shape[repr(f)][0] < want * procs for f in fams):
            c.add("surveys_too_small")
            return
        for again in range(2):
            for f in os.listdir(base):
                if f.startswith("meet"):
                    os.unlink(os.path.join(base, f))
            shutil.rmtree(base + "/out", ignore_errors=True)
            env = {"LD_PRELOAD": shim, "VSHIM_SLEEP_DIV": 40, "VSHIM_JITTER": jit, "VSHIM_SEED": SEED + k, "VSHIM_MEET": base + "/meet", "VSHIM_GROUPS": groups, "VSHIM_MEET_WAIT": 60 if again else 30}
            if every:
                env["VSHIM_CLOCK_EVERY"] = every
            args = (["-n", str(n)] if n else []) + (["-g", str(g)] if g is not None else []) + [base + "/c.yaml", base + "/out"]
            if ranks:
                r, left, cmd = launch_retry(c, tag, ranks, [mx] + args, env, 200 if q else 900)
            else:
                cmd = [th] + args
                r = run_retry(cmd, timeout=200 if q else 900, env=env)
            c.ev(); c.add("surveys")
            rep = {"cmd": cmd, "env": env}
            if r.timed_out or r.rc != 0:
                c.violation("survey_fails", "%s, -g %s: ends with %s %s" % (where, g, "no end" if r.timed_out else r.rc, (r.err + r.out)[-800:]), rep)
                return
            seen, given_up = arrivals(base)
            if seen != sum(shape[repr(f)][0] for f in fams):
                c.violation("blocks", "%s: %d blocks were begun of %d" % (where, seen, sum(shape[repr(f)][0] for f in fams)), rep)
                return
            if not given_up:
                break
            c.add("surveys_repeated")
        if given_up:
            c.violation("thread_without_work", "%s: after %d blocks were begun, not all of the %d threads had one for 60 s, while blocks wait for a thread" % (where, given_up - 1, want * procs), rep)
            return
        per = sorted(len(read(os.path.join(base, f)).split()) for f in os.listdir(base) if f.startswith("meet."))
        if per != [want] * procs:
            c.violation("threads_at_work", "%s: threads at work in each process: %s" % (where, per), rep)
            return
        c.add("threads_at_work", want * procs); c.nontrivial((repr(fams), ranks, n, every))
        c.add("groups_in_surveys", sum(shape[repr(f)][0] // (want * procs) for f in fams))
        c.sample("%s: %s threads at work at once, %d times" % (where, per, sum(shape[repr(f)][0] // (want * procs) for f in fams)))
        shutil.rmtree(base, ignore_errors=True)

    late = []
    for k in range(24 if q else 300):
        late.append(lambda j=(k, 0, R.choice([1, 2, 3, 4, 6, 9, 20, None]), R.sample(F, R.choice([1, 2, 3])), R.choice([0, 0, 100]), R.choice([0, 0, 7])): survey(*j))
    for k in range(16 if q else 200):
        late.append(lambda j=(1000 + k, R.choice([1, 2, 2, 3, 4]), R.choice([1, 2, 3, 5]), R.sample(F, R.choice([1, 2, 3])), R.choice([0, 0, 100]), R.choice([0, 0, 7])): survey(*j))
    parallel([lambda f=f: learn(f) for f in F])
    parallel(todo)
    parallel(late, workers=4)
    c.nontrivial(n=len(fold(c, outs)))
    if not c.counts.get("threads_at_work") and not c.failed and not c.counts.get("undecided_other_work"):
        raise HarnessError("no survey had enough work")
    c.finish()


main(main_)
