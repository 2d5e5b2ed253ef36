import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.survey import *
from vlib.crash import Lab
from vlib.mpi import launch_retry
from vlib.fields import *
from vlib.sched import *


def main_():
    c = Check("C07", "exploration",
              "Random histories of registrations, flushes and snapshots on several stores are compared step by step with a model map; "
              "concurrent flushes from several threads race with two snapshot takers, with delays injected at mutex operations or under a controlled scheduler, and every "
              "snapshot must equal the sum of the contributions of the blocks it lists, every block in exactly one. Distinct = distinct "
              "snapshot contents, and distinct distributions of blocks over concurrent snapshots, and distinct schedules.",
              ["keys and multiplicities of single curves are those of C03 and C06"])
    q = TIER == "quick"
    exe = build([("conserve", "rel"), ("conserve", "tsan")])
    rel, tsan = exe[("conserve", "rel")], exe[("conserve", "tsan")]
    jobs = []
    for p, r, n in [(3, 1, 3), (5, 1, 2), (7, 1, 1), (3, 2, 2), (11, 1, 2), (13, 1, 3), (5, 2, 1), (101, 1, 1), (65537, 1, 1), (3, 9, 1), (131, 2, 1), (5, 1, 0), (3, 2, 0)] + ([] if q else [(3, 12, 1), (1021, 2, 1), (17, 1, 4), (7, 2, 2)]):
        jobs.append(dict(p=p, r=r, n=n, mode="model", rounds=400 if q else 6000, seed=SEED))
    run_jobs(c, rel, jobs, "conserve", 120 if q else 1200)
    conc = []
    for k, (p, r, n, t) in enumerate([(5, 1, 2, 2), (7, 1, 2, 3), (3, 2, 1, 6), (11, 1, 1, 12)]):
        for inj in (0, 1):
            conc.append(dict(p=p, r=r, n=n, mode="conc", threads=t, blocks=100, inject=inj, rounds=(15 if inj else 60) if q else (200 if inj else 600), seed=SEED + k))
    parallel([lambda kw=kw: harness(c, [rel] + [str(x) for kv in kw.items() for x in kv], timeout=150 if q else 1500, label="concurrent") for kw in conc], workers=4)
    # controlled schedules
    ctl, outs = Controlled(c), []

    def controlled(k):
        o = os.path.join(c.scratch, "sched%d" % k)
        outs.append(o)
        kw = dict(p=[5, 3, 7][k % 3], r=1, n=1 + k % 2, mode="conc", threads=[2, 3, 5][k % 3], blocks=[3, 8, 20][k // 3 % 3], inject=0, rounds=15, seed=SEED * 10000 + k)
        harness(c, [rel] + [str(x) for kv in kw.items() for x in kv], timeout=60, runner=ctl, label="controlled schedule %d" % k, env=sched_env(k, o))
    parallel([lambda k=k: controlled(k) for k in range(400 if q else 10000)])
    c.nontrivial(n=len(fold(c, outs)))
    harness(c, [tsan, "p", "5", "n", "1", "mode", "conc", "threads", "4", "blocks", "40", "inject", "0", "rounds", "4" if q else "60", "seed", str(SEED)],
            timeout=120, label="race", crash_key="data_race")

    # whole surveys with many snapshots: each pair of files holds the sum of its blocks
    pr = build([("threaded", "rel"), ("mpi", "rel"), ("merger", "rel")])
    shim = tool("libshim")
    labs = [Lab(c, pr[("threaded", "rel")], pr[("merger", "rel")], shim, f, "s%d" % i) for i, f in
            enumerate([Family(3, 1, 1, package=2), Family(5, 1, 1, package=7, path="deep/er"), Family(3, 1, 2, True, package=5), Family(7, 1, 1, n=1, package=3), Family(3, 2, 1, package=20)])]
    if c.failed or not all(parallel([l.prepare for l in labs])):
        c.finish()

    def survey(k):
        lab = labs[k % len(labs)]
        out = lab.base + "/c%d" % k
        env = lab.env(VSHIM_CLOCK_EVERY=[1, 2, 5][k % 3], VSHIM_JITTER=[0, 100, 500][k // 3 % 3], VSHIM_SEED=SEED * 1000 + k)
        n = [3, 1, 8, 2, 5][k // 5 % 5]
        where = "%d threads, clock every %d #%d" % (n, env["VSHIM_CLOCK_EVERY"], k)
        if k % 4 == 3:
            c.sub("d%d" % k)
            where = "%d ranks, " % (2 + k // 4 % 3) + where
            r, _, cmd = launch_retry(c, "d%d" % k, 2 + k // 4 % 3, [pr[("mpi", "rel")], "-n", str(n), lab.cfg, out], env, 60)
        else:
            cmd = lab.cmd(out, n)
            r = run_retry(cmd, timeout=60, env=env)
        rep = {"cmd": cmd, "env": env, "config": lab.fam.yaml()}
        c.ev()
        if r.timed_out or r.rc != 0:
            c.violation("survey_fails", "%r %s: ends with %s %s" % (lab.fam, where, r.rc, (r.err + r.out)[-500:]), rep)
        elif lab.complete(out, "survey", where, rep):
            c.add("surveys"); c.add("snapshots_on_disk", len(os.listdir(lab.dir(out))) // 2)
            c.nontrivial(("survey", lab.name, k))
        shutil.rmtree(out, ignore_errors=True)
    parallel([lambda k=k: survey(k) for k in range(60 if q else 1500)])
    c.finish()


main(main_)
