import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.survey import *
from vlib.sched import *

FAMS = [(3, 1, 1, 4), (3, 1, 2, 5), (3, 1, 3, 5), (3, 1, 4, 4), (5, 1, 1, 4), (5, 1, 2, 4), (5, 1, 3, 3), (7, 1, 1, 4), (7, 1, 2, 3), (3, 2, 1, 3), (3, 2, 2, 2),
        (11, 1, 1, 3), (11, 1, 2, 2), (13, 1, 1, 3), (13, 1, 2, 2), (5, 2, 1, 2), (3, 3, 1, 2), (7, 2, 1, 1), (17, 1, 1, 3), (19, 1, 1, 2), (23, 1, 1, 2), (29, 1, 1, 2), (31, 1, 1, 2), (37, 1, 1, 2), (3, 4, 1, 1), (101, 1, 1, 1)]


def main_():
    c = Check("C12", "exploration",
              "hycu-threaded and hycu-merger run as a user runs them, on families with a precomputed brute-force census, over threads, package sizes, "
              "numbers of counted extensions, groupings of families into configurations, intermediate saves (moved clock) and disturbed schedules, "
              "also under a controlled scheduler that decides at every synchronisation which thread goes on; the merged result must equal the census line by line, and so must the sum of the recorded pairs. "
              "Distinct = distinct (family, threads, package size, grouping, save timing).",
              ["data/census, computed by harness/census.cc with arithmetic of its own, is right"])
    q = TIER == "quick"
    exe = build([("threaded", "rel"), ("merger", "rel")])
    th, mg = exe[("threaded", "rel")], exe[("merger", "rel")]
    shim = tool("libshim")
    R = random.Random(SEED * 31337 + 12)

    def cost(p, r, g, n, marked):
        q_ = p ** r
        return q_ ** (2 * g - marked) * (q_ ** n + 200)

    def judge(tag, fam, d, out, where):
        c.ev()
        try:
            rc, cnt, blocks = merge(mg, d, out)
            if rc != 0:
                c.violation("merge_fails", "%s: merger ends with %s" % (where, rc), where)
                return None
            want = fam.census()
            dd = differ(cnt, want)
            if dd:
                c.violation("census", "%s: %s" % (where, dd), where)
            mine, bl = totals(d)
            dd = differ(mine, want)
            if dd:
                c.violation("census_of_files", "%s: %s" % (where, dd), where)
            bf = block_fault(fam, bl)
            if bf:
                c.violation("blocks", "%s: %s" % (where, bf), where)
            if set(bl) != set(blocks):
                c.violation("blocks_once", "%s: recorded blocks are repeated or not those merged" % where, where)
            c.add("lines_compared", len(want)); c.add("polynomials_accounted_for", sum(want.values()) if sum(want.values()) < 2**60 else 0)
            c.add("blocks", len(bl)); c.add("files", len(os.listdir(d)))
            if where.endswith("#1"):
                c.sample("%s: %s" % (where, " ".join("%s:%d" % kv for kv in sorted(want.items())[:3])))
            return set(blocks)
        except (Bad, OSError) as e:
            c.violation("format", "%s: %s" % (where, e), where)

    def survey(k, fams, n, every, jit, real_sleep=False):
        base = c.sub("s%d" % k)
        write_config(base + "/c.yaml", fams, moduli=k % 2)
        env = {"LD_PRELOAD": shim, "VSHIM_SLEEP_DIV": 1 if real_sleep else 40, "VSHIM_JITTER": jit, "VSHIM_SEED": SEED * 13 + k, "VSHIM_CLOCK_EVERY": every, "VSHIM_GR_DELAY": 300, "VSHIM_SLOW": 4 if n and n > 100 else [0, 0, 0, 40, 300][k % 5], "VSHIM_SLOW_MS": 3000 if n and n > 100 else 60}
        cmd = [th] + ([] if n is None else ["-n", str(n)]) + [base + "/c.yaml", base + "/out"]
        where = "%r threads=%s clock=%d jitter=%d #%d" % (fams, n, every, jit, k)
        r = run_retry(cmd, timeout=100 if q else 1500, env=env)
        c.add("surveys")
        if r.timed_out or r.rc != 0:
            c.violation("survey_fails", "%s: ends with %s %s" % (where, "no end" if r.timed_out else r.rc, r.err[-500:] + r.out[-500:]), {"cmd": cmd, "env": env, "families": repr(fams)})
            return
        for f in by_path(fams):
            judge("s", f, os.path.join(base, "out", f.path), os.path.join(base, f.path.replace("/", "_") + "_merged"), "%r threads=%s clock=%d #%d" % (f, n, every, k))
            c.nontrivial((repr(f), n, every > 0, len(fams)))
        shutil.rmtree(base, ignore_errors=True)

    jobs = []
    k = 0
    limit = 4e6 if q else 3e8
    todo = []
    for p, r, g, nmax in FAMS:
        for marked in (False, True):
            for n in range(1, nmax + 1):
                cc = cost(p, r, g, n, marked)
                if cc < limit:
                    todo.append((cc, p, r, g, marked, n))
    todo.sort(key=lambda t: -t[0])
    reps = 2 if q else 8
    for cc, p, r, g, marked, n in todo:
        q_ = p ** r
        for rep in range(1 if cc > limit / 10 else reps):
            k += 1
            pk = R.choice([1, 2, 3, q_ - 1, q_, q_ + 1, q_ * q_, 10 ** 6, 2 ** 31 - 1, R.randint(1, 500)])
            if pk < q_ ** (2 * g - 1) / 3000:
                pk = q_ * q_
            f = Family(p, r, g, marked, None if n == g and rep % 2 else n, package=pk)
            jobs.append((k, [f], R.choice([1, 2, 3, 4, 8, 16]), R.choice([0, 0, 1, 5, 40]), R.choice([0, 0, 100])))
    # groups: several families, also the same one twice under other paths and package sizes
    small = [t for t in todo if t[0] < 3e5]
    for i in range(24 if q else 300):
        k += 1
        fams = []
        for j in range(R.randint(2, 7)):
            if fams and R.random() < 0.4:
                fams.append(relative(R.choice(fams), R, "r%d" % j))
                continue
            cc, p, r, g, marked, n = R.choice(small)
            fams.append(Family(p, r, g, marked, n, path="%s%d" % (R.choice(["f", "sub/dir/f", "x y"]), j), package=R.choice([1, 2, p ** r, 97, 10 ** 5])))
        jobs.append((k, fams, None if i % 4 == 2 else R.choice([1, 2, 4, 12]), R.choice([0, 2, 7, 30]), R.choice([0, 100])))
    # many families, many threads
    tiny = [t for t in todo if t[0] < 2e4]
    fams = [Family(*t[1:4], t[4], t[5], path="f%d" % j, package=R.choice([1, 7, 10 ** 5])) for j, t in enumerate(R.choice(tiny) for _ in range(120))]
    jobs.append((k + 1, fams, 3, 50, 0))
    k += 2
    jobs += [(k, [Family(5, 1, 2, package=1), Family(3, 1, 2, n=2, package=1)], 300, 9, 0), (k + 1, [Family(5, 1, 2, True, package=1), Family(7, 1, 1, package=1)], 150, 0, 0)]
    k += 1
    # and as it is, without the stand-ins' shortened sleeps
    k += 1
    jobs.append((k, [Family(3, 1, 1, package=3), Family(5, 1, 1, package=10)], 3, 0, 0, True))
    # thorough: stress by heavily oversubscribed threads
    for i in range(2 if q else 20):
        k += 1
        jobs.append((k, [Family(3, 1, 2, n=2, package=1)], 64, 3, 200))
    parallel([lambda j=j: survey(*j) for j in jobs])

    # controlled schedules: small families, every decision the scheduler's
    ctl, outs = Controlled(c), []
    tiny = [t for t in todo if t[0] < (2e4 if q else 1e5)]

    def controlled(k):
        r0 = random.Random(SEED * 7777777 + k)
        base, o = c.sub("t%d" % k), os.path.join(c.scratch, "sched%d" % k)
        outs.append(o)
        fams = []
        for j in range(r0.choice([1, 1, 2, 3])):
            if fams and r0.random() < 0.3:
                fams.append(relative(r0.choice(fams), r0, "f%d" % j))
                continue
            cc, p, r, g, marked, n = r0.choice(tiny)
            q_ = p ** r
            fams.append(Family(p, r, g, marked, n, path="f%d" % j, package=r0.choice([1, 2, q_, q_ * q_, 97]) if q_ ** (2 * g - 1) < 200 else r0.choice([q_, q_ * q_])))
        write_config(base + "/c.yaml", fams, moduli=k % 2)
        n, env = r0.choice([1, 2, 2, 3, 4, 6]), sched_env(k, o)
        cmd = [th, "-n", str(n), base + "/c.yaml", base + "/out"]
        where = "%r threads=%d schedule=%d" % (fams, n, k)
        r = ctl(cmd, env=env)
        if r is not None:
            c.add("surveys_with_controlled_schedule")
            if r.rc != 0:
                c.violation("survey_fails", "%s: ends with %s %s" % (where, r.rc, stuck_line(r) or r.err[-500:]), {"cmd": cmd, "env": env, "families": repr(fams)})
            else:
                for f in by_path(fams):
                    judge("s", f, os.path.join(base, "out", f.path), os.path.join(base, f.path + "_merged"), "%r of %s" % (f, where))
        shutil.rmtree(base, ignore_errors=True)
    parallel([lambda k=k: controlled(k) for k in range(1200 if q else 30000)])
    c.nontrivial(n=len(fold(c, outs)))
    c.finish()


main(main_)
