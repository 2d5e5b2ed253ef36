import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.survey import *
from vlib.mpi import *


def main_():
    c = Check("C21", "exploration",
              "The program built with OpenCL runs on a device (pocl, whose CPU device is presented as the kind of device the code asks for). A driver counts "
              "random curves of all shapes on tables with a device, many tables, degrees and curves on one device in random order, from several threads, and holds "
              "each count against the CPU's and some against brute force; hycu-single --opencl is held against hycu-single, and surveys, also distributed ones, with -g devices' threads "
              "against the reference census. Distinct = distinct (curve, extension) and runs.",
              ["pocl executes the kernels as OpenCL prescribes", "counts on the CPU are right (C01)"])
    q = TIER == "quick"
    exe = build([("ocl", "ocl"), ("single", "ocl"), ("threaded", "ocl"), ("mpi", "ocl"), ("single", "rel")])
    cpu, shim = tool("libclcpu"), tool("libshim")
    cache = c.sub("pocl")
    env = {"LD_PRELOAD": cpu, "POCL_CACHE_DIR": cache, "TMPDIR": c.sub("tmp")}
    R = random.Random(SEED * 9001 + 21)

    def steady(cmd, timeout, env):
        """pocl itself fails now and then when several threads use it (assertions on its cache of kernels):
        a crash counts only if it comes back"""
        for i in range(4):
            r = run_retry(cmd, timeout=timeout, env=env)
            if r.timed_out or not (r.crashed or "pocl" in r.err and r.rc != 0):
                break
            c.add("device_runs_crashed")
        return r

    def drive(kw):
        cmd = [exe[("ocl", "ocl")]] + [str(x) for kv in kw.items() for x in kv]
        harness(c, cmd, timeout=200 if q else 2000, env=env, label="ocl", crash_key="ocl_crash", hang_key="ocl_hang", runner=steady)
        c.add("driver_processes")

    drive(dict(seed=SEED * 100, rounds=1, curves=10))     # fills the cache of compiled kernels
    todo = []
    s = SEED * 1000
    big = [(1021, 1, 2000000, 3), (3, 1, 200000, 5), (65521, 1, 70000, 6), (46349, 1, 50000, 6), (7, 1, 900000, 4), (5, 2, 400000, 5)]
    if not q:
        big += [(3, 1, 5000000, 10), (2053, 1, 5000000, 10), (999983, 1, 1000000, 20), (5, 1, 2000000, 20), (3, 2, 5000000, 20), (13, 1, 5000000, 20)]
    for i, (p, r, limit, n) in enumerate(big):
        todo.append(lambda p=p, r=r, limit=limit, n=n, i=i: drive(dict(seed=s + i, p=p, r=r, limit=limit, curves=n, rounds=1 if q else 3, brute=1)))
    for i in range(6 if q else 60):
        todo.append(lambda i=i: drive(dict(seed=s + 100 + i, rounds=2 if q else 8, curves=25, maxdeg=[9, 16, 5][i % 3])))
    for i in range(6 if q else 40):
        todo.append(lambda i=i: drive(dict(seed=s + 500 + i, threads=2 + i % 4, rounds=2, curves=12 if q else 30, brute=3)))

    def numbers(out):
        m = re.search(r"number of points:([^\n]*)\nhasse-weil offsets:([^\n]*)\nramification type:([^\n]*)", out)
        return m.groups() if m else None

    def single(a):
        want = run_retry([exe[("single", "rel")]] + a, timeout=60)
        for opt in ("--opencl",):
            cmd = [exe[("single", "ocl")], opt] + a
            r = steady(cmd, timeout=60, env=env)
            c.ev(); c.add("single_runs"); c.nontrivial(("single", tuple(a)))
            what = "hycu-single %s %s" % (opt, " ".join(a))
            rep = {"cmd": cmd, "env": env}
            if want.rc != 0 or want.timed_out or not numbers(want.out):
                c.add("single_without_reference")
            elif r.timed_out or r.rc != 0:
                c.violation("single_fails", "%s ends with %s: %s" % (what, r.rc, (r.err + r.out)[-500:]), rep)
            elif numbers(r.out) != numbers(want.out):
                c.violation("single_differs", "%s prints %r, without OpenCL %r" % (what, numbers(r.out), numbers(want.out)), rep)

    def contradiction(a):
        cmd = [exe[("single", "ocl")]] + a
        r = steady(cmd, timeout=60, env=env)
        c.ev(); c.add("single_refusals"); c.nontrivial(("refused", tuple(a)))
        if r.timed_out or r.rc == 0 or numbers(r.out):
            c.violation("single_accepts", "hycu-single %s, which asks for two implementations or for no curve, ends with %s and prints %r" % (" ".join(a), r.rc, r.out[-300:]), {"cmd": cmd, "env": env})

    for a in (["--opencl", "--naivenmod", "7", "1", "2", "0", "1"], ["--naivezech", "--opencl", "7", "1", "2", "0", "1"], ["--opencl", "9", "1", "2", "0", "1"], ["--opencl", "2", "1", "1", "0", "1"], ["--opencl", "7", "5"], ["--opencl", "7", "3", "7", "14"], ["--opencl"], ["--opencl", "7"], ["--opencl", "--naivenmod", "--naivezech", "11", "1", "1", "1"]):
        todo.append(lambda a=a: contradiction(a))
    n = 0
    while n < (60 if q else 800):
        p = R.choice([3, 5, 7, 11, 13, 31, 101, 251, 509, 1009, 4999, 65521, 92693])
        d = R.randint(3, 10)
        if p ** max(1, (d - 1) // 2) > (300000 if q else 3000000):
            continue
        a = [str(p)] + [str(R.randrange(p)) for _ in range(d)] + [str(R.randrange(1, p))]
        todo.append(lambda a=a: single(a)); n += 1

    def judge(what, F, base, rep):
        for f in F:
            try:
                cnt, bl = totals(os.path.join(base, "out", f.path))
            except (Bad, OSError) as x:
                c.violation("survey_unreadable", "%s: %s" % (what, x), rep)
                return
            x = differ(cnt, f.census()) or block_fault(f, bl)
            if x:
                c.violation("survey_differs", "%s: %r: %s" % (what, f, x), rep)
            c.add("curves_surveyed", sum(cnt.values())); c.add("families")
        c.sample("%s: %d families agree" % (what, len(F)))
        shutil.rmtree(base, ignore_errors=True)

    def survey(k, F, n, g, extra):
        base = c.sub("s%d" % k)
        write_config(base + "/c.yaml", F)
        e = dict(env, LD_PRELOAD=cpu + ":" + shim, VSHIM_SLEEP_DIV=50, **extra)
        cmd = [exe[("threaded", "ocl")], "-n", str(n)] + ([] if g == 1 and k % 2 else ["-g", str(g)]) + [base + "/c.yaml", base + "/out"]
        r = steady(cmd, timeout=150 if q else 800, env=e)
        what = "survey %r with %d threads and %d threads per device (%r)" % (F, n, g, extra)
        rep = {"cmd": cmd, "env": e}
        c.ev(); c.add("surveys"); c.nontrivial(("survey", what))
        if r.timed_out or r.rc != 0:
            c.violation("survey_fails", "%s ends with %s: %s" % (what, "no end" if r.timed_out else r.rc, r.err[-500:]), rep)
            return
        judge(what, F, base, rep)

    FF = [[Family(3, 1, 1, package=9), Family(5, 1, 1, True, package=30)], [Family(3, 2, 1, True, package=100)], [Family(7, 1, 1, n=2, package=50)], [Family(3, 1, 2, True, package=60), Family(3, 3, 1, True, package=30000)], [Family(13, 1, 1, package=400)], [Family(3, 1, 1, package=4, n=3), Family(3, 1, 1, True, package=4), Family(5, 1, 1, package=7)]]
    NG = [(0, 1), (1, 0), (1, 1), (0, 4), (3, 2), (2, 5)]
    for k in range(10 if q else 120):
        extra = [{}, {"VSHIM_JITTER": 300}, {"VSHIM_CLOCK_EVERY": 2}][k % 3]
        todo.append(lambda k=k, extra=extra: survey(k, FF[(k + SEED) % len(FF)], *NG[(k + k // 6) % len(NG)], extra))

    def distributed(k, F, ranks, n, g, extra):
        tag = "d%d" % k
        base = c.sub(tag)
        write_config(base + "/c.yaml", F)
        e = dict(env, LD_PRELOAD=cpu + ":" + shim, VSHIM_SLEEP_DIV=20, **extra)
        what = "distributed survey %r with %d ranks, %d threads and %d threads per device (%r)" % (F, ranks, n, g, extra)
        prog = [exe[("mpi", "ocl")], "-n", str(n)] + ([] if g == 1 and k % 2 else ["-g", str(g)]) + [base + "/c.yaml", base + "/out"]
        for i in range(4):
            r, left, cmd = launch_retry(c, tag, ranks, prog, e, 150 if q else 800)
            if r.timed_out or r.rc == 0 or not re.search("pocl|Assertion|signal", r.err + r.out):
                break
            c.add("device_runs_crashed")
            if i < 3:
                shutil.rmtree(base + "/out", ignore_errors=True)
        rep = {"cmd": cmd, "env": e}
        c.ev(); c.add("distributed_surveys"); c.nontrivial(("distributed", what))
        if r.timed_out or r.rc != 0 or left:
            c.violation("survey_fails", "%s ends with %s, leaving %d processes: %s" % (what, "no end" if r.timed_out else r.rc, left, (r.err + r.out)[-800:]), rep)
            return
        judge(what, F, base, rep)

    for k in range(5 if q else 60):
        todo.append(lambda k=k: distributed(k, FF[(k * 2 + SEED) % len(FF)], 1 + (k + 1) % 4, *[(0, 1), (1, 1), (2, 2), (0, 3)][k % 4], [{}, {"VSHIM_JITTER": 300}, {"VSHIM_CLOCK_EVERY": 2}][k % 3]))
    parallel(todo, workers=6)
    if not c.failed and not c.counts.get("device_tables"):
        raise HarnessError("no table on a device")
    c.finish()


main(main_)
