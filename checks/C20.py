import os, sys, random, glob, statistics
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.survey import *
from vlib.mpi import *
from vlib.sanit import frame

LEAKS = {"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1:fast_unwind_on_malloc=0"), "LSAN_OPTIONS": "max_leaks=20:report_objects=0"}
TUN = {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.arena_max=4"}


def leaks(text, mpi=False):
    """leak records of a LeakSanitizer report, without those that are MPI's own"""
    out = []
    for m in re.finditer(r"(Direct|Indirect) leak of (\d+) byte\(s\) in (\d+) object\(s\) allocated from:\n((?:\s+#\d+ [^\n]*\n)+)", text):
        if mpi and (re.search(r"MPI_Init|MPI_Finalize|ompi_mpi_|orte_|opal_|hwloc_|pmix|libevent|mca_", m.group(4)) or not frame(m.group(4))):
            continue
        out.append(m.group(0))
    return out


def main_():
    c = Check("C20", "exploration",
              "Drivers repeat each piece of work (tables, construction, classification, counting by all implementations, registration, flushing, "
              "text forms, records, configurations, families through one pool) and measure the heap over rounds of equal work: it must stay level. All programs and some "
              "drivers run under LeakSanitizer. Surveys with very many saves and with very many families report the heap at each save and at the end: it must "
              "not rise, and neither may that of MPI ranks which only compute, nor depend on the number of curves and families. Distinct = distinct works and runs.",
              ["the C library reports its heap in use correctly", "leaks inside MPI's own initialisation are not the program's"])
    q = TIER == "quick"
    exe = build([("growth", "rel")] + [(x, "asan") for x in ["single", "threaded", "merger", "mpi", "points", "naive", "invariants", "fieldtab", "blocks", "config", "growth"]] + [(x, "rel") for x in ["threaded", "mpi", "merger"]])
    shim, heap = tool("libshim"), tool("libheap")
    R = random.Random(SEED * 4001 + 20)
    todo = []

    # -- level heap over repeated work -----------------------------------------------------------
    def grow(part, k):
        harness(c, [exe[("growth", "rel")], "part", part, "dir", c.sub("g%s%d" % (part, k)), "seed", str(SEED * 10 + k), "x", "1" if q else "8", "threads", str(1 + k % 3)],
                timeout=150 if q else 1500, env=dict(TUN, LD_PRELOAD=shim, VSHIM_FMPZ=1, VSHIM_SLEEP_DIV=50), label="growth " + part, crash_key="growth_crash")
    for k in range(2 if q else 8):
        for part in ("curves", "stores", "tables"):
            todo.append(lambda part=part, k=k: grow(part, k))

    # -- unreachable memory ------------------------------------------------------------------------
    works = []    # LeakSanitizer has worked

    def judge(r, what, cmd, env):
        c.ev(); c.nontrivial(("leaks", what)); c.add("leak_checked_runs")
        if "LeakSanitizer has encountered a fatal error" in r.err:
            c.add("leak_sanitizer_refused")
            return
        L = leaks(r.err, 'mpirun' in cmd)
        if L:
            c.violation("leak:" + frame(L[0]), "%s: %s" % (what, L[0][:2500]), {"cmd": cmd, "env": env})
        elif "LeakSanitizer" not in r.err and r.rc == 0:
            works.append(1)

    def single(a):
        cmd = [exe[("single", "asan")]] + a
        judge(run(cmd, timeout=100, env=LEAKS), "hycu-single " + " ".join(a), cmd, LEAKS)
    for i in range(60 if q else 600):
        p = R.choice([3, 5, 7, 11, 13, 31])
        d = R.randint(1, 7 if p < 8 else 4)
        a = [str(p)] + [str(R.randrange(p)) for _ in range(d)] + [str(R.randrange(1, p))] + R.choice([[], ["--naivenmod"], ["--naivezech"]])
        todo.append(lambda a=a: single(a))
    for a in (["7", "0", "0"], ["9", "1", "1", "1"], ["7", "0", "0", "1", "1"], ["--help"]):
        todo.append(lambda a=a: single(a))

    def survey(k, F, n, every, mpi):
        base = c.sub("l%d" % k)
        write_config(base + "/c.yaml", F)
        env = dict(LEAKS, LD_PRELOAD=shim, VSHIM_SLEEP_DIV=50, VSHIM_CLOCK_EVERY=every)
        for phase in ("first", "again"):
            args = ["-n", str(n), base + "/c.yaml", base + "/out"]
            if mpi:
                r, left, cmd = launch(c, "l%d" % k, mpi, [exe[("mpi", "asan")]] + args, dict(SAN_ENV, **env), 150)
            else:
                cmd = [exe[("threaded", "asan")]] + args
                r = run(cmd, timeout=150, env=env)
            judge(r, "survey %r threads=%d ranks=%d clock=%d %s" % (F, n, mpi, every, phase), cmd, env)
            for f in F:
                d = os.path.join(base, "out", f.path)
                if os.path.isdir(d):
                    cmd = [exe[("merger", "asan")], d, base + "/m"]
                    judge(run(cmd, timeout=100, env=LEAKS), "merge of %r #%d %s" % (f, k, phase), cmd, LEAKS)
                    for x in sorted(os.listdir(d))[::3]:
                        os.unlink(os.path.join(d, x))
        shutil.rmtree(base, ignore_errors=True)
    FF = [[Family(3, 1, 1, package=9), Family(5, 1, 1, True, package=30)], [Family(3, 2, 1, True, package=100)], [Family(7, 1, 1, n=2, package=50)], [Family(3, 1, 2, True, package=60), Family(3, 3, 1, True, package=30000)], [Family(13, 1, 1, package=400)]]
    for k in range(8 if q else 60):
        todo.append(lambda k=k: survey(k, FF[k % 5], 1 + k % 4, [0, 3][k % 2], 0))
    for k in range(100, 103 if q else 120):
        todo.append(lambda k=k: survey(k, FF[k % 5], 1 + k % 3, [0, 3][k % 2], 2 + k % 2))

    def driver(name, kw):
        cmd = [exe[(name, "asan")]] + [str(x) for kv in kw.items() for x in kv]
        judge(run(cmd, timeout=200 if q else 1500, env=LEAKS), "%s %r" % (name, kw), cmd, LEAKS)
    D = [(n, dict(p=p, r=r, maxn=k, curves=20, maxdeg=8, seed=SEED)) for p, r, k in [(3, 1, 4), (3, 2, 2), (7, 1, 2), (5, 3, 1)] for n in ("points", "invariants")]
    D += [("naive", dict(p=5, maxn=3, curves=10, maxdeg=8, seed=SEED)), ("fieldtab", dict(p=3, r=2, maxn=2, seed=SEED)), ("fieldtab", dict(p=65521, r=1, maxn=1, seed=SEED)), ("blocks", dict(shard=1, specs=100, maxpos=500, seed=SEED)), ("config", dict(seed=SEED, n=50))]
    for n, kw in D:
        todo.append(lambda n=n, kw=kw: driver(n, kw))

    # -- heap of whole surveys -------------------------------------------------------------------------
    ends = {}     # (program, threads) -> [(bytes, what)]

    def series(k, F, n, every, mpi=0):
        base = c.sub("h%d" % k)
        write_config(base + "/c.yaml", F, moduli=True)
        env = dict(TUN, LD_PRELOAD=shim + ":" + heap, VSHIM_SLEEP_DIV=50, VSHIM_FMPZ=1, VSHIM_CLOCK_EVERY=every, VHEAP_LOG=base + "/heap")
        args = ["-n", str(n), base + "/c.yaml", base + "/out"]
        if mpi:
            r, left, cmd = launch_retry(c, "h%d" % k, mpi, [exe[("mpi", "rel")]] + args, env, 100 if q else 600)
        else:
            cmd = [exe[("threaded", "rel")]] + args
            r = run_retry(cmd, timeout=100 if q else 600, env=env)
        what = "survey of %d families like %r threads=%d ranks=%d clock=%d" % (len(F), F[0], n, mpi, every)
        rep = {"cmd": cmd, "env": env}
        if r.rc != 0 or r.timed_out:
            c.add("failed_runs"); c.sample("%s: ends with %s" % (what, r.rc))
            return
        curves = 0
        for f in F:
            d = os.path.join(base, "out", f.path)
            if os.path.isdir(d):
                try:
                    cnt, bl = totals(d)
                    curves += block_sizes(bl)
                except Bad:
                    pass
        for fn in sorted(glob.glob(base + "/heap.*")):
            L = [l.split() for l in open(fn)]
            s = [int(x[1]) for x in L if x[0] == "save"]
            c.ev(len(L)); c.nontrivial(("series", what))
            c.add("saves_observed", len(s)); c.add("curves_of_series", curves)
            e = [int(x[1]) for x in L if x[0] == "end"]
            if e:
                with c.lock:
                    ends.setdefault((mpi > 0, len(s) > 0, n, mpi), []).append((e[-1], curves, len(F), what, rep))
            # ranks that only send what they computed
            m = [int(x[1]) for x in L if x[0] == "send"]
            if mpi and not s and len(m) >= 60:
                t = len(m) // 3
                a, b = statistics.median(m[t:2 * t]), statistics.median(m[2 * t:])
                c.add("sends_observed", len(m))
                c.sample("%s: a rank that computes sends %d messages, median heap %d then %d bytes; end %s" % (what, len(m), a, b, e), cap=60)
                if b - a > (3000 if every else 6000) + 160 * (len(F) > 1) * len(F) / 3:
                    c.violation("rising_rank", "%s: the heap of a rank that computes rises from %d to %d bytes in %d messages: %s" % (what, a, b, t, m[:: max(1, len(m) // 15)]), rep)
            if len(s) >= 12:
                t = len(s) // 3
                a, b = s[t:2 * t], s[2 * t:-1] if len(F) == 1 else s[2 * t:]
                rise = statistics.median(b) - statistics.median(a)
                # configurations of families keep their paths; blocks in work vary
                allowed = 3000 + 4000 * (n - 1) + 160 * (t + 1) * (len(F) > 1)
                c.sample("%s: %d saves, median heap at save %d then %d bytes; end %s" % (what, len(s), statistics.median(a), statistics.median(b), e), cap=24)
                if rise > allowed:
                    c.violation("rising", "%s: the heap at saves rises from %d to %d bytes in %d saves: %s" % (what, statistics.median(a), statistics.median(b), t, s[:: max(1, len(s) // 15)]), rep)
        shutil.rmtree(base, ignore_errors=True)
    jobs = []
    for n in (1, 3):
        jobs += [([Family(3, 1, 1, package=9, n=1)], n, 0), ([Family(7, 1, 1, package=2)], n, 3), ([Family(3, 1, 2, package=2, n=3)], n, 3), ([Family(13, 1, 1, package=10)], n, 3), ([Family(3, 2, 1, True, package=10)], n, 1), ([Family(17, 1, 1, True, package=3000, n=1)], n, 3),
                 ([Family(3, 1, 1, package=9, path="f%d" % i) for i in range(24)], n, 0), ([Family(3, 1, 1, package=9, path="f%d" % i) for i in range(72)], n, 0), ([Family(3, 2, 1, True, package=200, path="f%d" % i) for i in range(30)], n, 0)]
        jobs += [([Family(31, 1, 1, package=100)], n, 3), ([Family(5, 1, 2, package=30, n=1)], n, 3), ([Family(3, 1, 3, package=20, n=1)], n, 3)]
        if not q:
            jobs += [([Family(11, 1, 1, package=2)], n, 1), ([Family(3, 1, 3, package=10, n=2)], n, 3), ([Family(3, 1, 1, package=1, path="f%d" % i) for i in range(400)], n, 2), ([Family(5, 1, 2, package=50, n=1)], n, 5)]
    jobs += [([Family(3, 1, 1, package=9, n=1)], 2, 0, 2), ([Family(7, 1, 1, package=2)], 2, 1, 2), ([Family(3, 1, 2, package=2, n=3)], 2, 1, 2), ([Family(3, 1, 1, package=9, path="f%d" % i) for i in range(40)], 2, 0, 2),
             ([Family(13, 1, 1, package=3, n=1)], 1, 0, 2), ([Family(3, 2, 1, True, package=4, n=1)], 1, 2, 3), ([Family(5, 1, 2, package=11, n=1)], 2, 2, 2)]
    for k, j in enumerate(jobs):
        todo.append(lambda k=k, j=j: series(k, *j))
    parallel(todo)
    for key, L in sorted(ends.items()):
        L.sort(key=lambda x: (x[1], x[2]))
        lo = min(x[0] for x in L)
        for x in L:
            # the smallest run has the same caches; path names of families remain in the configuration
            if x[0] - lo > 2000 + (4000 if key[3] else 0) + 4000 * (key[2] - 1) + 200 * x[2]:
                c.violation("remains", "%s: at the end %d bytes are in use, after %d curves; but %d after %d curves (%s)" % (x[3], x[0], x[1], L[0][0], L[0][1], L[0][3]), x[4])
        c.sample("heap at the end of %s: %s" % (key, ["%d after %d curves" % (x[0], x[1]) for x in L]), cap=40)
    if not c.failed and not works and not c.counts.get("leak_sanitizer_refused"):
        raise HarnessError("no run under LeakSanitizer succeeded")
    if not c.failed and (c.counts.get("saves_observed", 0) < 100 or c.counts.get("sends_observed", 0) < 100):
        raise HarnessError("no series of saves or messages")
    c.finish()


main(main_)
