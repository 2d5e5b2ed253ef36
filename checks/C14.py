import os, sys, random, time, signal, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.crash import *
from vlib.mpi import *


def main_():
    c = Check("C14", "exploration",
              "hycu-threaded is killed at the entry of every file operation below its output path (creating, writing, renaming, closing, making "
              "directories), in the midst of every write after 0 to 99 percent of its bytes, several times in a row, and by SIGKILL at random "
              "times, with intermediate saves (moved clock); likewise some hycu-mpi runs. After each kill every record must come with exactly the "
              "results of its blocks, which were learned block by block from undisturbed runs; re-running must succeed and give the "
              "precomputed census, every block once. Distinct = distinct (family, threads, saves, class, kill point, bytes) and kill histories.",
              ["what a process had written when it was killed stays written (no power failure)", "ptrace stops a process before its system call is executed"])
    q = TIER == "quick"
    exe = build([("threaded", "rel"), ("merger", "rel"), ("mpi", "rel")])
    th, mg, mx = exe[("threaded", "rel")], exe[("merger", "rel")], exe[("mpi", "rel")]
    shim, sf = tool("libshim"), tool("sysfault")
    R = random.Random(SEED * 4099 + 14)
    labs = [Lab(c, th, mg, shim, f, "l%d" % i) for i, f in enumerate(
        [Family(3, 1, 1, n=2, package=2), Family(5, 1, 1, n=1, package=12), Family(3, 1, 2, n=3, package=30), Family(3, 2, 1, marked=True, n=2, package=9)] +
        ([] if q else [Family(7, 1, 1, n=3, package=30), Family(3, 1, 3, n=2, package=250), Family(13, 1, 1, marked=True, n=1, package=1)]))]
    ok = parallel([lambda l=l: l.prepare() for l in labs])
    if c.failed or not all(ok):
        c.finish()
    labs.append(Multi(c, labs[:2] if q else labs[:4], "multi"))

    def one(lab, threads, every, cls, mode, at, arg, k):
        out = lab.base + "/k%d" % k
        os.makedirs(out)
        lg = out + ".log"
        cmd = [sf, out, lg, mode, str(at), str(arg), cls, "--"] + lab.cmd(out, threads)
        env = lab.env(VSHIM_CLOCK_EVERY=every, VSHIM_SEED=SEED + k)
        r = run_retry(cmd, timeout=100, env=env)
        c.ev()
        n, trig, L = fault_log(lg)
        where = "%s at %d of %s (%d%%), %d threads, clock %d" % (mode, at, cls, arg, threads, every)
        rep = {"cmd": cmd, "env": env, "config": lab.fam.yaml()}
        if r.timed_out:
            c.violation("no_end", "%r %s: does not end" % (lab.fam, where), rep)
            return
        if trig and r.rc == 137:
            c.add("kills"); c.add("kills_" + (L[-1].split()[1] if L else "?"))
            seen = lab.consistent(out, "killed", where, rep)
            if seen is None:
                return
            c.add("kills_with_some_blocks_recorded" if 0 < len(seen) < len(lab.blocks) else "kills_with_none_or_all_recorded")
            c.nontrivial((lab.name, threads, every, cls, mode, at, arg))
            c.sample("%r %s: killed in %s; %d of %d blocks recorded, resumed" % (lab.fam, where, L[-1] if L else "", len(seen), len(lab.blocks)))
        elif r.rc != 0:
            raise HarnessError("survey under sysfault ends with %d: %s" % (r.rc, r.err[-500:]))
        lab.resume(out, "killed", where, rep, threads=1 + k % 4)
        shutil.rmtree(out, ignore_errors=True)
        os.unlink(lg)

    def history(lab, k):
        """several kills in a row"""
        r0 = random.Random(SEED * 7919 + k)
        out = lab.base + "/h%d" % k
        os.makedirs(out)
        hist = []
        for i in range(r0.randint(2, 6)):
            every, threads = r0.choice([0, 1, 2, 5]), r0.randint(1, 6)
            if r0.random() < 0.65:
                mode, at, arg = r0.choice(["kill", "torn"]), r0.randint(1, 14), r0.choice([0, 1, 50, 99])
                hist.append((mode, at, arg, every, threads))
                cmd = [sf, out, out + ".log", mode, str(at), str(arg), "all", "--"] + lab.cmd(out, threads)
                r = run_retry(cmd, timeout=100, env=lab.env(VSHIM_CLOCK_EVERY=every, VSHIM_JITTER=100, VSHIM_SEED=k))
                if r.timed_out:
                    c.violation("no_end", "%r %s: does not end" % (lab.fam, hist), hist)
                    return
                if r.rc not in (0, 137):
                    c.violation("killed:resume", "%r after kills %s the survey ends with %d: %s" % (lab.fam, hist, r.rc, r.err[-500:]), hist)
                    return
                c.add("kills", 1 if r.rc == 137 else 0)
            else:
                us = r0.choice([500, 2000, 5000, 20000, 60000])
                us = r0.randint(us // 4, us)
                hist.append(("time", us, every, threads))
                e = dict(os.environ); e.update({a: str(b) for a, b in lab.env(VSHIM_CLOCK_EVERY=every, VSHIM_JITTER=200, VSHIM_SEED=k).items()})
                p = subprocess.Popen(lab.cmd(out, threads), env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                time.sleep(us / 1e6)
                p.kill()
                p.wait()
                c.add("timed_kills", 1 if p.returncode == -9 else 0)
            c.ev()
            if lab.consistent(out, "killed", "after %s" % hist, {"history": hist, "config": lab.fam.yaml()}) is None:
                return
        if lab.resume(out, "killed", "after %s" % hist, {"history": hist, "config": lab.fam.yaml()}, threads=r0.randint(1, 4)):
            c.nontrivial((lab.name, tuple(hist)))
        shutil.rmtree(out, ignore_errors=True)

    def distributed(lab, ranks, at, arg, mode, every, k):
        tag = "d%d" % k
        out = c.sub(tag) + "/out"
        os.makedirs(out)
        # each rank has its log; the first one writes the results
        prog = ["sh", "-c", 'exec "$@"', "x", sf, out, out + ".log", mode, str(at), str(arg), "all", "--", mx, "-n", "2", lab.cfg, out]
        prog = ["sh", "-c", 'exec "%s" "$1" "$1.log$OMPI_COMM_WORLD_RANK" %s %d %d all -- "%s" -n 2 "%s" "$1"' % (sf, mode, at, arg, mx, lab.cfg), "x", out]
        r, left, cmd = launch_retry(c, tag, ranks, prog, lab.env(VSHIM_CLOCK_EVERY=every), 100)
        c.ev()
        where = "distributed: %s at %d (%d%%), %d ranks, clock %d" % (mode, at, arg, ranks, every)
        rep = {"cmd": cmd, "config": lab.fam.yaml()}
        if r.timed_out:
            c.violation("no_end", "%r %s: does not end" % (lab.fam, where), rep)
            return
        n, trig, L = fault_log(out + ".log0")
        if trig:
            c.add("kills_distributed"); c.nontrivial((lab.name, "mpi", ranks, at, arg, mode, every))
        elif r.rc != 0:
            raise HarnessError("distributed survey under sysfault ends with %d: %s" % (r.rc, r.err[-800:]))
        if lab.consistent(out, "killed", where, rep) is not None:
            if k % 2:
                r, left, cmd = launch_retry(c, tag, ranks, [mx, "-n", "2", lab.cfg, out], lab.env(), 100)
                if r.timed_out or r.rc != 0:
                    c.violation("killed:resume", "%r %s: resuming ends with %s" % (lab.fam, where, r.rc), rep)
                else:
                    lab.complete(out, "killed", where + ", resumed", rep)
            else:
                lab.resume(out, "killed", where, rep)
        shutil.rmtree(c.sub(tag), ignore_errors=True)

    todo = []
    k = 0
    for li, lab in enumerate(labs):
        for threads, every in [(1, 0), (2, 2), (3, 5)] if q else [(1, 0), (1, 1), (2, 2), (2, 5), (3, 3), (4, 1), (8, 4)]:
            for cls in ("all", "close"):
                out = lab.base + "/count%d_%d_%s" % (threads, every, cls)
                os.makedirs(out)
                r = run_retry([sf, out, out + ".log", "count", "0", "0", cls, "--"] + lab.cmd(out, threads), timeout=100, env=lab.env(VSHIM_CLOCK_EVERY=every))
                n, _, L = fault_log(out + ".log")
                if r.rc != 0 or not n:
                    raise HarnessError("sysfault: %d %s" % (r.rc, r.err[-500:]))
                c.add("operations_" + cls, n)
                shutil.rmtree(out)
                pts = range(1, n + 1) if n <= (14 if q else 200) else sorted(set(range(1, 9)) | {n - 1, n} | set(R.sample(range(9, n - 1), 5 if q else 100)))
                for at in pts:
                    k += 1
                    todo.append(lambda j=(lab, threads, every, cls, "kill", at, 0, k): one(*j))
                    if cls == "all":
                        w = L[at - 1].split() if at <= len(L) else []
                        for arg in R.sample([0, 1, 25, 50, 75, 90, 99], 2 if q else 5):
                            if len(w) > 1 and w[1] == "write" or every:
                                k += 1
                                todo.append(lambda j=(lab, threads, every, cls, "torn", at, arg, k): one(*j))
        for i in range(10 if q else 200):
            k += 1
            todo.append(lambda j=(lab, k): history(*j))
        for i in range(3 if q else 40):
            k += 1
            todo.append(lambda j=(lab, R.randint(2, 4), R.randint(1, 10), R.choice([0, 50]), R.choice(["kill", "torn"]), R.choice([0, 2]), k): distributed(*j))
    R.shuffle(todo)
    parallel(todo)
    if c.counts.get("kills", 0) < 50 and not c.failed:
        raise HarnessError("hardly any kill took place")
    c.finish()


main(main_)
