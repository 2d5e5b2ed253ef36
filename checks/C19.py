import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.survey import *
from vlib.mpi import *
from vlib.sanit import *

PROGRAMS = ["single", "threaded", "merger", "mpi"]
DRIVERS = ["points", "naive", "invariants", "fieldtab", "blocks", "enumeration", "conserve", "formats", "pool", "config"]
FAMS = [(3, 1, 1, 4), (3, 1, 2, 4), (5, 1, 1, 3), (5, 1, 2, 2), (7, 1, 1, 3), (3, 2, 1, 2), (11, 1, 1, 2), (13, 1, 1, 2), (3, 3, 1, 1), (5, 2, 1, 1), (17, 1, 1, 1)]


def main_():
    c = Check("C19", "exploration",
              "All programs and drivers of all parts run under AddressSanitizer, UndefinedBehaviorSanitizer (with float casts) and library "
              "assertions: single curves at small, large and boundary fields, threaded and distributed surveys in disturbed schedules with intermediate "
              "saves, runs resumed over partial, damaged and foreign results, merging of counts with thousands of digits, refused command lines. Some run under "
              "valgrind for uninitialised values. Any report is a violation. Distinct = distinct runs (program, input, schedule).",
              ["memory errors inside of uninstrumented libraries are seen at their interceptors and by valgrind only"])
    q = TIER == "quick"
    exe = build([(x, "asan") for x in PROGRAMS + DRIVERS] + [(x, "vg") for x in ["single", "threaded", "merger", "points", "naive", "invariants", "fieldtab", "formats", "conserve", "config", "blocks", "enumeration", "pool"]])
    A = lambda x: exe[(x, "asan")]
    V = lambda x: VALGRIND + [exe[(x, "vg")]]
    shim = tool("libshim")
    R = random.Random(SEED * 6007 + 19)
    fz = {"LD_PRELOAD": shim, "VSHIM_FMPZ": 1}   # large integers one by one on the heap

    def judge(r, what, cmd, env=None, group="", must=None):
        c.ev(); c.add("runs_" + group); c.nontrivial((group, what))
        e = memory_error(r, cmd[0] == "valgrind")
        if e:
            c.violation(e[0], "%s: %s" % (what, e[1]), {"cmd": cmd, "env": env})
            return False
        if r.timed_out:
            c.add("no_end")    # for other properties to judge
        elif must is not None and r.rc not in must:
            c.add("other_failures"); c.sample("%s ends with %s: %s" % (what, r.rc, (r.err + r.out)[-200:]), cap=12)
        return not r.timed_out

    # -- single curves -----------------------------------------------------------------------
    def single(args, valgrind=False):
        cmd = (V("single") if valgrind else [A("single")]) + args
        r = run(cmd, timeout=200, env=fz)
        judge(r, "hycu-single " + " ".join(args), cmd, group="single_valgrind" if valgrind else "single", must=None)
        if r.rc == 0:
            c.add("single_answers")

    todo = []
    small = [3, 5, 7, 11, 13, 31, 127, 251]
    for i in range(250 if q else 4000):
        p = R.choice(small + [257, 1009, 4099])
        d = R.randint(1, 12)
        while p ** max(1, (d - 1) // 2) > (60000 if q else 2000000):
            d -= 1
        co = [R.choice([R.randrange(p), 0, p, 2 * p - 1, -R.randrange(1, 3 * p), R.randrange(-2 ** 63, 2 ** 63), 2 ** 63 - 1, -2 ** 63]) for _ in range(d)] + [R.choice([1, p - 1, R.randrange(1, p)])] + [0] * R.choice([0, 0, 3])
        mode = R.choice([[], [], ["--naivenmod"], ["--naivezech"]])
        todo.append(lambda a=mode + [str(p), "--"] + [str(x) for x in co]: single(a))
    for p in [32749, 46337, 46349, 65521, 65537, 92681, 92683, 92693, 131071, 524287, 1000003] + ([] if q else [2097143, 16777213]):
        todo.append(lambda p=p: single([str(p), "--", "1", "-1", "5", str(p - 1)]))
    for p in (3, 5):
        todo.append(lambda p=p: single([str(p)] + ["1"] * (17 if p == 3 else 13)))
    for a in ([], ["--help"], ["7"], ["7", "1"], ["2", "1", "1", "1"], ["0", "1", "1"], ["1", "1", "1"], ["9", "1", "1", "1"], ["7", "0", "0"], ["7", "7", "7"], ["7", "x"], ["7", "1", "2", "--naivezech", "--naivenmod"],
              ["4294967295", "1", "1"], ["-3", "1"]):
        todo.append(lambda a=a: single(a))
    for a in (["3", "1", "2", "0", "1", "1"], ["11", "1", "2", "3", "4", "5", "1"], ["13", "0", "1", "0", "1"], ["--naivenmod", "7", "1", "2", "3", "4", "5"], ["--naivezech", "7", "1", "2", "3", "4", "5"], ["5", "1", "1"], ["257", "1", "1", "0", "6"], ["3", "1", "0", "0", "0", "0", "0", "1", "1"]):
        todo.append(lambda a=a: single(a, True))

    # -- surveys -----------------------------------------------------------------------------
    def fams():
        r = []
        for i in range(R.randint(1, 3)):
            p, rr, g, nm = R.choice(FAMS)
            r.append(Family(p, rr, g, R.random() < 0.5, R.choice([None if g <= nm else nm, R.randint(1, nm)]), path="f%d" % i, package=R.choice([p ** (2 * rr), 30, 200, 2 ** 31 - 1])))
        return r

    def damage(d, R):
        """what an interrupted run, a full disk or a stranger may leave"""
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if not os.path.isfile(p):
                continue
            k = R.randrange(6)
            s = open(p, "rb").read()
            if k == 0: os.unlink(p)
            elif k == 1: open(p, "wb").write(s[:R.randrange(len(s) + 1)])
            elif k == 2 and s:
                i = R.randrange(len(s)); open(p, "wb").write(s[:i] + bytes([R.choice([0, 10, 13, 32, 45, 48, 57, 58, 59, 44, 255, R.randrange(256)])]) + s[i + 1:])
            elif k == 3: open(p, "ab").write(R.choice([b"\n", b"1 ", b"99999999999 99999999999999999999 \n", b"garbage;:,\n", bytes(R.randrange(256) for _ in range(50)), b"\0" * 40]))
        open(os.path.join(d, "1.hycu_record"), "wb").write(b"")
        open(os.path.join(d, "2.hycu_record.incomplete"), "wb").write(b"1 2 3")
        os.makedirs(os.path.join(d, "13.hycu_record"), exist_ok=True)
        os.makedirs(os.path.join(d, "14.hycu_store"), exist_ok=True)

    def survey(k, kind, F, n, every, jit):
        R = random.Random(SEED * 53 + k)
        tag = "s%d" % k
        base = c.sub(tag)
        write_config(base + "/c.yaml", F, moduli=k % 2)
        env = {"LD_PRELOAD": shim, "VSHIM_SLEEP_DIV": 50, "VSHIM_JITTER": jit, "VSHIM_SEED": SEED * 13 + k, "VSHIM_CLOCK_EVERY": every, "VSHIM_FMPZ": 1}
        args = ["-n", str(n), base + "/c.yaml", base + "/out"]
        what = "%s %r threads=%d clock=%d jitter=%d #%d" % (kind, F, n, every, jit, k)
        for phase in ("first", "resumed", "damaged"):
            if kind == "mpi":
                r, left, cmd = launch(c, tag, 2 + k % 3, [A("mpi")] + args, dict(env, **SAN_ENV), 150)
            elif kind == "valgrind":
                cmd = V("threaded") + args
                r = run(cmd, timeout=300, env=env)
            else:
                cmd = [A("threaded")] + args
                r = run(cmd, timeout=150, env=env)
            if not judge(r, what + " " + phase, cmd, env, "survey_" + kind, must=(0,) if phase != "damaged" else None):
                break
            c.add("survey_" + phase)
            for f in F:
                d = os.path.join(base, "out", f.path)
                if not os.path.isdir(d):
                    continue
                m = [A("merger")] if kind != "valgrind" else V("merger")
                cmd = m + [d, base + "/m" + phase + f.path]
                if not judge(run(cmd, timeout=100, env=fz), "merge of " + what + " " + phase, cmd, group="merge", must=(0,) if phase != "damaged" else None):
                    return
                if phase == "first":
                    for x in sorted(os.listdir(d)):
                        if x.endswith(".hycu_record") and R.random() < 0.5:
                            os.unlink(os.path.join(d, x))
                else:
                    damage(d, R)
        shutil.rmtree(base, ignore_errors=True)

    for k in range(40 if q else 600):
        todo.append(lambda j=(k, "threaded", fams(), R.choice([1, 2, 3, 4, 8]), R.choice([0, 3, 10]), R.choice([0, 0, 100])): survey(*j))
    for k in range(1000, 1010 if q else 1150):
        todo.append(lambda j=(k, "mpi", fams()[:2], R.choice([1, 2, 3]), R.choice([0, 10]), R.choice([0, 50])): survey(*j))
    for k in range(2000, 2004 if q else 2040):
        todo.append(lambda j=(k, "valgrind", [[Family(3, 1, 1, package=9), Family(5, 1, 1, True, package=30)], [Family(3, 2, 1, True, package=500)], [Family(7, 1, 1, n=2, package=100)], [Family(3, 1, 2, True, package=60)]][k % 4], R.choice([1, 3]), R.choice([0, 5]), 0): survey(*j))

    # -- merging big and odd results ------------------------------------------------------------
    def merging(k):
        r = random.Random(SEED * 31 + k)
        d = c.sub("m%d/in" % k)
        for i in range(r.randint(0, 8)):
            n = r.choice([1, 18, 19, 20, 21, 40, 400, 4000])
            st = "".join("%s;%s:%s\n" % (",".join(str(r.randint(1, 9)) for _ in range(r.randint(1, 5))), ",".join(str(r.choice([0, -1, 2 ** 31 - 1, -2 ** 31, r.randint(-99, 99)])) for _ in range(r.randint(1, 4))),
                                         r.choice(["0", "1", str(2 ** 62), str(2 ** 62 - 1), str(2 ** 63), str(2 ** 64 - 1), str(2 ** 64), "".join(r.choice("123456789") for _ in range(n))])) for _ in range(r.randint(0, 30)))
            rc = "".join("".join("%d %d " % (a, a + r.randint(1, 50)) for a in [r.choice([0, r.randrange(2 ** 31 - 60)]) for _ in range(r.randint(1, 8))]) + "\n" for _ in range(r.randint(0, 20)))
            open("%s/%d.hycu_store" % (d, i), "w").write(st)
            open("%s/%d.hycu_record" % (d, i), "w").write(rc)
        if k % 3 == 2:
            damage(d, r)
        cmd = [A("merger"), d, os.path.dirname(d) + "/out"]
        judge(run(cmd, timeout=100, env=fz), "merge of made up results %d" % k, cmd, group="merge", must=None if k % 3 == 2 else (0,))
        if k % 8 == 0:
            cmd = V("merger") + [d, os.path.dirname(d) + "/outv"]
            judge(run(cmd, timeout=100, env=fz), "valgrind merge of made up results %d" % k, cmd, group="merge_valgrind")
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)
    for k in range(60 if q else 1500):
        todo.append(lambda k=k: merging(k))

    def incomplete(k, lines):
        """result lines and records that end early, as a full disk leaves them"""
        d = c.sub("i%d/in" % k)
        open(d + "/1.hycu_store", "w").write("\n".join(lines))
        open(d + "/1.hycu_record", "w").write("\n".join(["0 1 2 3 ", "", "1 2 3", "4", "x", "5 6 "][:k + 2]))
        for m, g in ((V("merger"), "merge_valgrind"), ([A("merger")], "merge")):
            cmd = m + [d, os.path.dirname(d) + "/out"]
            judge(run(cmd, timeout=100), "merge of incomplete lines %r" % lines, cmd, group=g)
    for k, L in enumerate([["1,1;2:3", "1,1;2:4", "1,1;2", "1,1;"], ["1,1", "1,", "1"], ["", "", ":", ":3", ";", ";:", ";1:2"], ["1;2,:4", "1,;2:4", "1;,2:4", "a;b:c", "1;2:c", "-;-:-", "1;2:", "1;2:+"]]):
        todo.append(lambda k=k, L=L: incomplete(k, L))
    none = c.sub("none")
    open(none + "/bad.yaml", "w").write("Prime: 3\n")
    open(none + "/list.yaml", "w").write("- a\n- b\n")
    for prog, a in [("merger", []), ("merger", ["--help"]), ("merger", [none + "/no", none + "/o"]), ("merger", [none, "/proc/no/o"]), ("threaded", []), ("threaded", ["--help"]), ("threaded", [none + "/no.yaml", none + "/o"]),
                    ("threaded", [none + "/bad.yaml", none + "/o"]), ("threaded", [none + "/list.yaml", none + "/o"]), ("threaded", ["-n", "0", none + "/bad.yaml", none + "/o"]), ("mpi", []), ("mpi", ["--help"]), ("mpi", [none + "/bad.yaml", none + "/o"])]:
        def f(prog=prog, a=a):
            cmd = [A(prog)] + a
            judge(run(cmd, timeout=60, env={"OMPI_ALLOW_RUN_AS_ROOT": 1, "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": 1, "TMPDIR": none}), "hycu-%s %s" % (prog, a), cmd, group="refused")
        todo.append(f)

    # -- component drivers: their verdicts are for other properties ------------------------------
    def driver(name, kw, valgrind=False):
        a = [str(x) for kv in kw.items() for x in kv]
        env = dict(fz)
        if name == "pool":
            env = {"LD_PRELOAD": shim, "VSHIM_FMPZ": 1, "VSHIM_SLEEP_DIV": 40, "VSHIM_JITTER": 100, "VSHIM_SEED": SEED}
            a += ["dir", c.sub("pool%d" % (hash(tuple(a)) % 10 ** 9))]
        cmd = (V(name) if valgrind else [A(name)]) + a
        r = run(cmd, timeout=240 if q else 1500, env=env)
        what = "%s %s%s" % (name, " ".join(a), " under valgrind" if valgrind else "")
        if judge(r, what, cmd, env, ("valgrind_" if valgrind else "driver_") + name):
            for l in r.out.splitlines():
                if l.startswith('{"ev":"stat"'):
                    c.add("driver_evaluations", json.loads(l).get("evaluations", 0))
            if '"ev":"done"' not in r.out:
                c.add("drivers_not_done"); c.sample("not done: %s: %s" % (what, (r.out + r.err)[-200:]), cap=12)

    s = SEED
    X = 1 if q else 12
    D = []
    for p, r, n in [(3, 1, 6), (3, 2, 3), (5, 1, 4), (7, 2, 1), (2, 1, 1)][:4] + [(13, 1, 2), (127, 1, 1), (5, 3, 1), (3, 3, 2)]:
        D.append(("points", dict(p=p, r=r, maxn=n, curves=40 * X, maxdeg=10, seed=s)))
        D.append(("invariants", dict(p=p, r=r, maxn=n, curves=30 * X, maxdeg=9, seed=s)))
        D.append(("fieldtab", dict(p=p, r=r, maxn=n, seed=s)))
        if r == 1:
            D.append(("naive", dict(p=p, maxn=n, curves=15 * X, maxdeg=9, seed=s)))
    for p in (46349, 65521, 65537):
        D.append(("fieldtab", dict(p=p, r=1, maxn=1, seed=s)))
        D.append(("points", dict(p=p, r=1, maxn=1, curves=3, maxdeg=6, seed=s)))
    for k in range(2):
        D.append(("blocks", dict(shard=k, specs=300 * X, maxpos=1500, seed=s)))
        D.append(("formats", dict(seed=s * 10 + k, rounds=60 * X, digits=4000)))
        D.append(("config", dict(seed=s * 10 + k, n=300 * X)))
    for p, r, g, m in [(3, 1, 1, 0), (3, 1, 1, 1), (5, 1, 1, 1), (3, 2, 1, 1)]:
        D.append(("enumeration", dict(p=p, r=r, g=g, marked=m, mode="orbits", seed=s)))
    D.append(("conserve", dict(p=5, r=1, n=2, mode="model", rounds=100 * X, seed=s)))
    D.append(("conserve", dict(p=3, r=2, n=1, mode="model", rounds=60 * X, seed=s)))
    D.append(("conserve", dict(p=5, r=1, n=1, mode="conc", threads=4, blocks=60, inject=0, rounds=10 * X, seed=s)))
    for mode in ("pool", "real"):
        D.append(("pool", dict(mode=mode, threads=4, rounds=4 * X, blocks=30, seed=s, limit=200)))
    for name, kw in D:
        todo.append(lambda n=name, kw=kw: driver(n, kw))
    for name, kw in [("points", dict(p=3, r=2, maxn=2, curves=4, maxdeg=6, seed=s)), ("points", dict(p=7, r=1, maxn=2, curves=4, maxdeg=7, seed=s)), ("invariants", dict(p=3, r=1, maxn=3, curves=6, maxdeg=7, seed=s)), ("naive", dict(p=5, maxn=2, curves=4, maxdeg=6, seed=s)),
                     ("fieldtab", dict(p=3, r=2, maxn=2, seed=s)), ("formats", dict(seed=s, rounds=4, digits=300)), ("conserve", dict(p=5, r=1, n=1, mode="model", rounds=6, seed=s)), ("config", dict(seed=s, n=12)),
                     ("blocks", dict(shard=0, specs=60, maxpos=300, seed=s)), ("enumeration", dict(p=3, r=1, g=1, marked=0, mode="orbits", seed=s)), ("enumeration", dict(p=5, r=1, g=1, marked=1, mode="orbits", seed=s)),
                     ("pool", dict(mode="pool", threads=3, rounds=2, blocks=12, seed=s, limit=200)), ("pool", dict(mode="real", threads=2, rounds=1, blocks=8, seed=s, limit=200))]:
        todo.append(lambda n=name, kw=kw: driver(n, kw, True))
    R2 = random.Random(1); R2.shuffle(todo)
    parallel(todo)
    if c.counts.get("survey_first", 0) < 30 or c.counts.get("single_answers", 0) < 100:
        if not c.failed:
            raise HarnessError("the instrumented programs do not work: %r" % c.counts)
    c.finish()


main(main_)
