import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.crash import *
from vlib.mpi import *

EIO, EACCES, ENOSPC, EMFILE, EROFS, EINTR = 5, 13, 28, 24, 30, 4


def main_():
    c = Check("C15", "fault_injection",
              "While hycu-threaded runs, creating, writing, closing, renaming or making a directory below its output path fails at every operation "
              "in turn, once or from then on, with several errors (a failing close also with the later half of the file lost, as with delayed writing); writes are cut short once, or the space ends after any number of bytes. "
              "Every record then present must come with exactly the results of its blocks, the run may report success only if all blocks are "
              "recorded, and re-running must give the census. A short write alone must not lose anything. Likewise some hycu-mpi runs. "
              "Distinct = distinct (family, threads, saves, fault) that was delivered.",
              ["the injected errors are those a file system may report"])
    q = TIER == "quick"
    exe = build([("threaded", "rel"), ("merger", "rel"), ("mpi", "rel")])
    th, mg, mx = exe[("threaded", "rel")], exe[("merger", "rel")], exe[("mpi", "rel")]
    shim, sf = tool("libshim"), tool("sysfault")
    R = random.Random(SEED * 8081 + 15)
    # the last family's results do not fit into one buffer of the stream
    labs = [Lab(c, th, mg, shim, f, "l%d" % i) for i, f in enumerate(
        [Family(3, 1, 1, n=2, package=2), Family(5, 1, 1, n=1, package=12), Family(3, 1, 3, n=5, marked=True, package=81)] +
        ([] if q else [Family(7, 1, 1, n=3, package=30), Family(3, 1, 2, n=5, package=30), Family(13, 1, 1, marked=True, n=1, package=1)]))]
    ok = parallel([lambda l=l: l.prepare() for l in labs])
    if c.failed or not all(ok):
        c.finish()
    labs.append(Multi(c, labs[:2] if q else labs[:4], "multi"))

    def judge(lab, out, r, trig, L, where, rep, k):
        if r.timed_out:
            c.violation("no_end", "%r %s: does not end" % (lab.fam, where), rep)
            return False
        seen = lab.consistent(out, "fault", where, rep)
        if seen is None:
            return False
        full = set(seen) == set(lab.blocks)
        if r.rc == 0 and not full:
            c.violation("success_without_results", "%r %s: ends with success, but %d of %d blocks are recorded" % (lab.fam, where, len(seen), len(lab.blocks)), rep)
            return False
        if not trig and r.rc != 0:
            raise HarnessError("undisturbed survey under sysfault ends with %d: %s" % (r.rc, r.err[-500:]))
        c.add("ended_with_success" if r.rc == 0 else "ended_with_failure")
        return True

    def one(lab, threads, every, mode, at, arg, cls, k):
        out = lab.base + "/k%d" % k
        os.makedirs(out)
        lg = out + ".log"
        cmd = [sf, out, lg, mode, str(at), str(arg), cls, "--"] + lab.cmd(out, threads)
        env = lab.env(VSHIM_CLOCK_EVERY=every, VSHIM_SEED=SEED + k)
        r = run_retry(cmd, timeout=60, env=env)
        c.ev()
        n, trig, L = fault_log(lg)
        where = "%s at %d of %s, errno %d, %d threads, clock %d" % (mode, at, cls, arg, threads, every)
        rep = {"cmd": cmd, "env": env, "config": lab.fam.yaml()}
        if trig:
            c.add("faults_" + mode); c.nontrivial((lab.name, threads, every, mode, at, arg, cls))
        if judge(lab, out, r, trig, L, where, rep, k):
            if trig:
                c.sample("%r %s: %s; exit %d" % (lab.fam, where, [l for l in L if "errno" in l or "cut" in l][:1], r.rc))
            lab.resume(out, "fault", where, rep, threads=1 + k % 4)
        shutil.rmtree(out, ignore_errors=True)
        if os.path.exists(lg):
            os.unlink(lg)

    def distributed(lab, ranks, mode, at, arg, cls, every, k):
        tag = "d%d" % k
        out = c.sub(tag) + "/out"
        os.makedirs(out)
        prog = ["sh", "-c", 'exec "%s" "$1" "$1.log$OMPI_COMM_WORLD_RANK" %s %d %d %s -- "%s" -n 2 "%s" "$1"' % (sf, mode, at, arg, cls, mx, lab.cfg), "x", out]
        r, left, cmd = launch_retry(c, tag, ranks, prog, lab.env(VSHIM_CLOCK_EVERY=every), 100)
        c.ev()
        where = "distributed: %s at %d of %s, errno %d, %d ranks, clock %d" % (mode, at, cls, arg, ranks, every)
        rep = {"cmd": cmd, "config": lab.fam.yaml()}
        n, trig, L = fault_log(out + ".log0")
        if trig:
            c.add("faults_distributed"); c.nontrivial((lab.name, "mpi", ranks, mode, at, arg, cls, every))
        # a rank that was ended by another's failure leaves no complete log
        if judge(lab, out, r, trig or r.rc != 0, L, where, rep, k):
            lab.resume(out, "fault", where, rep)
        shutil.rmtree(c.sub(tag), ignore_errors=True)

    todo = []
    k = 0
    for li, lab in enumerate(labs):
        for threads, every in [(1, 0), (2, 2)] if q else [(1, 0), (1, 1), (2, 2), (2, 5), (3, 3), (4, 1)]:
            for cls, errs in (("create", [EACCES, ENOSPC, EMFILE, EROFS]), ("write", [ENOSPC, EIO]), ("close", [EIO, ENOSPC]), ("rename", [EACCES, EIO, ENOSPC])):
                out = lab.base + "/count%d_%d_%s" % (threads, every, cls)
                os.makedirs(out)
                r = run_retry([sf, out, out + ".log", "count", "0", "0", cls, "--"] + lab.cmd(out, threads), timeout=100, env=lab.env(VSHIM_CLOCK_EVERY=every))
                n, _, L = fault_log(out + ".log")
                if r.rc != 0:
                    raise HarnessError("sysfault: %d %s" % (r.rc, r.err[-500:]))
                c.add("operations_" + cls, n)
                total = sum(int(l.split()[3]) for l in L if l.split()[1] == "write")
                shutil.rmtree(out)
                cap = 6 if q else 100
                pts = range(1, n + 1) if n <= cap else sorted({1, 2, n - 1, n} | set(R.sample(range(3, n - 1), cap - 4)))
                for at in pts:
                    for e in errs if not q else R.sample(errs, 1 if every else 2):
                        for mode in ("error", "persist") + (("lose",) if cls == "close" else ()):
                            k += 1
                            todo.append(lambda j=(lab, threads, every, mode, at, e, cls, k): one(*j))
                    if cls == "write":
                        k += 1
                        todo.append(lambda j=(lab, threads, every, "short", at, 0, cls, k): one(*j))
                if cls == "write":
                    for b in sorted({0, 1, total - 1} | {R.randint(2, max(3, total - 1)) for _ in range(5 if q else 60)}):
                        k += 1
                        todo.append(lambda j=(lab, threads, every, "full", b, ENOSPC, "write", k): one(*j))
        for i in range(3 if q else 40):
            k += 1
            cls = R.choice(["create", "write", "close", "rename"])
            todo.append(lambda j=(lab, R.randint(1, 4), R.choice(["error", "persist"]), R.randint(1, 4), R.choice([EIO, ENOSPC]), cls, R.choice([0, 2]), k): distributed(*j))
        # making the result directory
        for e in (EACCES, ENOSPC):
            k += 1
            todo.append(lambda j=(lab, 2, 0, "persist", 1, e, "mkdir", k): one(*j))
    parallel(todo)
    if sum(v for a, v in c.counts.items() if a.startswith("faults_")) < 50 and not c.failed:
        raise HarnessError("hardly any fault was delivered")
    c.finish()


main(main_)
