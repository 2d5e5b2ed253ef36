import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.survey import *
from vlib.mpi import *

STEP = 360      # seconds; the programs save every five minutes


def main_():
    c = Check("C23", "exploration",
              "Surveys (hycu-threaded and hycu-mpi) run with a clock that goes on by six minutes at every k-th look; a program that looks whenever it hands out a block then "
              "saves after at most k blocks were handed out, so no record may list more than k blocks, besides those that were in work (two per thread). The result must be the census. "
              "Distinct = distinct (family, program, threads, ranks, k, resumed).",
              ["the programs look at the wall clock when they hand out a block; with the standard library's steady clock nothing would be decided (looks are counted)"])
    q = TIER == "quick"
    exe = build([("threaded", "rel"), ("mpi", "rel")])
    th, mx = exe[("threaded", "rel")], exe[("mpi", "rel")]
    shim = tool("libshim")
    R = random.Random(SEED * 7919 + 23)

    def one(k, fams, ranks, n, every, jit, resumed, fast=-1):
        tag = "s%d" % k
        base = c.sub(tag)
        write_config(base + "/c.yaml", fams)
        env = {"LD_PRELOAD": shim, "VSHIM_SLEEP_DIV": 20, "VSHIM_JITTER": jit, "VSHIM_SEED": SEED * 17 + k, "VSHIM_CLOCK_EVERY": every,
               "VSHIM_CLOCK_STEP": STEP, "VSHIM_LOOKS": base + "/looks"}
        if fast >= 0:     # one rank gets most of the blocks
            env.update(VSHIM_FAST_RANK=fast, VSHIM_SLOW_MS=20)
        args = ["-n", str(n), base + "/c.yaml", base + "/out"]
        where = "%r %s threads=%d clock=%d jitter=%d resumed=%s%s" % (fams, "hycu-mpi of %d" % ranks if ranks else "hycu-threaded", n, every, jit, resumed, " most blocks in rank %d" % fast if fast >= 0 else "")

        def go():
            for f in os.listdir(base):
                if f.startswith("looks."):
                    os.unlink(os.path.join(base, f))
            if ranks:
                r, left, cmd = launch_retry(c, tag, ranks, [mx] + args, env, 120 if q else 600)
            else:
                cmd = [th] + args
                r = run_retry(cmd, timeout=120 if q else 600, env=env)
            c.ev()
            if r.timed_out or r.rc != 0:
                c.violation("survey_fails", "%s: ends with %s %s" % (where, "no end" if r.timed_out else r.rc, (r.err + r.out)[-800:]), {"cmd": cmd, "env": env})
                return None
            L = [[int(x) for x in read(os.path.join(base, f)).split()] for f in os.listdir(base) if f.startswith("looks.")]
            return sum(l[0] for l in L), sum(l[1] for l in L)

        looks = go()
        if looks is None:
            return
        if resumed:
            for f in fams:
                d = os.path.join(base, "out", f.path)
                for x in sorted(os.listdir(d)):
                    if x.endswith(".hycu_record") and R.random() < 0.8:
                        os.unlink(os.path.join(d, x))
            looks = go()
            if looks is None:
                return
        for f in fams:
            d = os.path.join(base, "out", f.path)
            try:
                pp = pairs(d)
                cnt, bl = totals(d)
            except (Bad, OSError) as e:
                c.violation("format", "%s: %s" % (where, e), where)
                return
            dd = differ(cnt, f.census())
            if dd:
                c.violation("census", "%s: %r: %s" % (where, f, dd), where)
                return
            bound = every + 2 * n * max(1, ranks)
            most = max(len(r) for _, r, _ in pp)
            c.add("records", len(pp)); c.add("blocks", len(bl)); c.counts["max_blocks_in_a_record"] = max(c.counts.get("max_blocks_in_a_record", 0), most)
            if most > bound:
                if looks[0] < len(bl) / 2 <= looks[1]:
                    c.add("undecided_steady_clock")
                    continue
                c.violation("late_save", "%s: %r: a record lists %d blocks, though the save interval had passed after every %d (%d looks at the clock, %d blocks in %d records)" %
                            (where, f, most, every, looks[0], len(bl), len(pp)), {"env": env, "config": f.yaml()})
                return
            if fast >= 0:
                c.counts["max_blocks_of_a_fast_rank"] = max(c.counts.get("max_blocks_of_a_fast_rank", 0), most)
                c.add("fast_rank_surveys", most > every * 0.7)
            if len(bl) > 3 * bound:
                c.nontrivial((repr(f), ranks, n, every, resumed)); c.add("intervals_observed", len(pp))
                c.sample("%s: %d blocks in %d records, at most %d" % (where, len(bl), len(pp), most))
        shutil.rmtree(base, ignore_errors=True)

    F = [Family(3, 1, 1, package=1), Family(5, 1, 1, package=3), Family(7, 1, 1, package=5), Family(3, 1, 2, package=2), Family(5, 1, 2, True, package=10), Family(3, 2, 1, package=6), Family(11, 1, 1, package=11),
         Family(3, 1, 3, True, package=9, n=3), Family(13, 1, 1, package=10)]
    todo = []
    for k in range(60 if q else 900):
        todo.append(lambda k=k, a=(R.sample(F, R.choice([1, 1, 2])), 0, R.choice([1, 1, 2, 3, 4]), R.choice([1, 1, 2, 3, 5, 8]), R.choice([0, 0, 300]), R.random() < 0.3): one(k, *a))
    for k in range(16 if q else 200):
        todo.append(lambda k=k + 5000, a=([R.choice(F)], R.choice([1, 2, 3]), R.choice([1, 2]), R.choice([1, 2, 5]), R.choice([0, 300]), R.random() < 0.3): one(k, *a))
    G = [Family(13, 1, 1, package=2), Family(3, 2, 1, True, package=3), Family(11, 1, 1, package=2), Family(5, 1, 2, True, package=3)]
    for k in range(12 if q else 100):
        ranks = [2, 3, 4][k % 3]
        todo.append(lambda k=k + 9000, a=([R.choice(G)], ranks, 1, R.choice([14, 20, 30]), R.choice([0, 300]), False, R.randrange(ranks)): one(k, *a))
    R.shuffle(todo)
    parallel(todo, workers=8)
    if not c.distinct and not c.failed and not c.counts.get("undecided_steady_clock"):
        raise HarnessError("no survey had blocks enough")
    c.finish()


main(main_)
