import os, sys, random, time, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.survey import *
from vlib.mpi import *

FAMS = [(3, 1, 1, 4), (3, 1, 2, 4), (5, 1, 1, 3), (5, 1, 2, 2), (7, 1, 1, 3), (3, 2, 1, 2), (11, 1, 1, 2), (13, 1, 1, 1), (3, 3, 1, 1), (3, 1, 3, 2), (5, 2, 1, 1)]


def main_():
    c = Check("C13", "exploration",
              "hycu-mpi runs under mpirun over ranks, threads per rank, families, package sizes, intermediate saves (moved clock) and disturbed "
              "schedules; every run must end with success, and its merged results must equal the census, as must those of runs resumed after "
              "part of the records were taken away, also when the threaded program did one half. Unusable configurations and command lines must "
              "end all ranks with a failure. No process may be left. Distinct = distinct (family, ranks, threads, package, saves, resumed) and "
              "(refusal, ranks).",
              ["data/census is right", "Open MPI of this sandbox delivers messages as the standard says"])
    q = TIER == "quick"
    exe = build([("mpi", "rel"), ("threaded", "rel"), ("merger", "rel")])
    mx, th, mg = exe[("mpi", "rel")], exe[("threaded", "rel")], exe[("merger", "rel")]
    shim = tool("libshim")
    R = random.Random(SEED * 977 + 13)

    def start(tag, ranks, args, env, timeout):
        return launch_retry(c, tag, ranks, [mx] + args, env, timeout)

    def survey(k, fams, ranks, n, every, jit, resumed, slow=0):
        tag = "s%d" % k
        base = c.sub(tag)
        write_config(base + "/c.yaml", fams, moduli=k % 2)
        env = {"LD_PRELOAD": shim, "VSHIM_SLEEP_DIV": 20, "VSHIM_JITTER": jit, "VSHIM_SEED": SEED * 17 + k, "VSHIM_CLOCK_EVERY": every, "VSHIM_GR_DELAY": 200, "VSHIM_SLOW": slow, "VSHIM_SLOW_MS": 3000 if n and n > 20 else 50}
        where = "%r ranks=%d threads=%s clock=%d jitter=%d resumed=%s slow=%d #%d" % (fams, ranks, n, every, jit, resumed, slow, k)
        args = ([] if n is None else ["-n", str(n)]) + [base + "/c.yaml", base + "/out"]

        def go():
            r, left, cmd = start(tag, ranks, args, env, 120 if q else 900)
            c.add("runs"); c.ev()
            rep = {"cmd": cmd, "families": repr(fams)}
            if r.timed_out:
                c.violation("no_end", where + ": does not end", rep)
                return False
            if r.rc != 0:
                c.violation("survey_fails", "%s: ends with %s %s" % (where, r.rc, (r.err + r.out)[-1500:]), rep)
                return False
            if left:
                c.violation("processes_left", "%s: %d processes left" % (where, left), rep)
                return False
            return True

        if resumed == "threaded":
            rr = run_retry([th] + args, timeout=120, env=env)
            if rr.rc != 0:
                raise HarnessError("hycu-threaded ends with %s in %s" % (rr.rc, where))
        elif not go():
            return
        if resumed:
            for f in by_path(fams):
                d = os.path.join(base, "out", f.path)
                ids = sorted(x[:-12] for x in os.listdir(d) if x.endswith(".hycu_record"))
                gone = [x for x in ids if R.random() < 0.6] or ids[:1]
                for x in gone:
                    os.unlink(os.path.join(d, x + ".hycu_record"))
                    if R.random() < 0.5:
                        os.unlink(os.path.join(d, x + ".hycu_store"))
            if not go():
                return
        for f in by_path(fams):
            d = os.path.join(base, "out", f.path)
            wh = "%r of %s" % (f, where)
            c.ev()
            try:
                rc, cnt, blocks = merge(mg, d, os.path.join(base, f.path + "_m"))
                if rc != 0:
                    c.violation("merge_fails", "%s: %s" % (wh, rc), wh)
                    continue
                want = f.census()
                dd = differ(cnt, want)
                if dd:
                    c.violation("census", "%s: %s" % (wh, dd), wh)
                mine, bl = totals(d)
                dd = differ(mine, want)
                if dd:
                    c.violation("census_of_files", "%s: %s" % (wh, dd), wh)
                bf = block_fault(f, bl)
                if bf:
                    c.violation("blocks", "%s: %s" % (wh, bf), wh)
                c.add("lines_compared", len(want)); c.add("blocks", len(bl)); c.add("files", len(os.listdir(d)))
                c.nontrivial((repr(f), ranks, n, every > 0, resumed))
                c.sample("%s: %d blocks in %d files" % (wh, len(bl), len(os.listdir(d))))
            except (Bad, OSError) as e:
                c.violation("format", "%s: %s" % (wh, e), wh)
        shutil.rmtree(base, ignore_errors=True)

    def refusal(k, name, ranks, text, args, fails=True):
        tag = "r%d" % k
        base = c.sub(tag)
        if text is not None:
            open(base + "/c.yaml", "w").write(text)
        open(base + "/file", "w").write("x")
        args = [a.replace("@", base) for a in args]
        r, left, cmd = start(tag, ranks, args, {"LD_PRELOAD": shim, "VSHIM_SLEEP_DIV": 20, "HYCU_DIR": base + "/"}, 60)
        c.ev(); c.add("refusals")
        where = "%s, %d ranks" % (name, ranks)
        rep = {"cmd": cmd, "config": text}
        if r.timed_out:
            c.violation("no_end_when_refused", where + ": does not end", rep)
        elif fails and r.rc == 0:
            c.violation("not_refused", where + ": ends with success", rep)
        elif left:
            c.violation("processes_left", "%s: %d processes left" % (where, left), rep)
        else:
            c.nontrivial((name, ranks))
        recs = [x for _, _, fs in os.walk(base) for x in fs if x.endswith("hycu_record")]
        if fails and recs and "second" not in name:
            c.violation("results_when_refused", "%s: records were written" % where, rep)
        shutil.rmtree(base, ignore_errors=True)

    todo = []
    k = 0
    good = Family(3, 1, 1, package=3).yaml()
    fam = lambda **kw: "".join("%s: %s\n" % (a, kw.get(a, b)) for a, b in [("Prime", 3), ("PrimeExponent", 1), ("Genus", 1), ("ResultPath", "r"), ("PackageSize", 5), ("CountExponent", 1)] if kw.get(a, b) is not None)
    std = ["-n", "2", "@/c.yaml", "@/out"]
    refs = [("no arguments", None, []), ("no output path", good, ["@/c.yaml"]), ("no configuration file", None, std), ("configuration is a directory", None, ["@/", "@/out"]),
            ("output path below a file", good, ["@/c.yaml", "@/file/out"]), ("output path is a file", good, ["@/c.yaml", "@/file"]),
            ("store type", "StoreType: XX\n" + good, std), ("not YAML", "Prime: [3\n", std), ("empty", "", std), ("no threads", good, ["-n", "0"] + std[2:]),
            ("threads not a number", good, ["-n", "x"] + std[2:]), ("unknown option", good, std + ["--nonsense"]), ("too many arguments", good, std + ["@/a", "@/b"]),
            ("threads per GPU not a number", good, std + ["-g", "x"]),
            ("second family zero", "Moduli:\n  - " + good.replace("\n", "\n    ") + "\n  - " + fam(Genus=0, ResultPath="s").replace("\n", "\n    "), std),
            ("second family incomplete", "Moduli:\n  - " + good.replace("\n", "\n    ") + "\n  - " + fam(PackageSize=None).replace("\n", "\n    "), std),
            ("result path below a file", good.replace("ResultPath: ", "ResultPath: ../file/"), std)]
    for key in ("Prime", "PrimeExponent", "Genus", "PackageSize", "CountExponent"):
        refs.append(("zero " + key, fam(**{key: 0}), std))
    for key in ("Prime", "PrimeExponent", "Genus", "PackageSize", "ResultPath"):
        refs.append(("without " + key, fam(**{key: None}), std))
        if key != "ResultPath":
            refs.append(("not a number: " + key, fam(**{key: "many"}), std))
    for i, (name, text, args) in enumerate(refs):
        for ranks in ((1, 2, 3, 4, 6) if not q else ((2, 4, 3)[i % 3],)):
            k += 1
            todo.append(lambda j=(k, name, ranks, text, args): refusal(*j))
    k += 1
    todo.append(lambda k=k: refusal(k, "help", 3, None, ["--help"], fails=False))

    def fam_of(t, i):
        p, r, g, nm = t
        q_ = p ** r
        return Family(p, r, g, R.random() < 0.4, R.choice([None if g <= nm else nm, R.randint(1, nm)]), package=R.choice([q_, q_ * q_, 97, 1000] + ([1, 2, 3] if q_ ** (2 * g) < 700 else [])), path="f%d" % i)

    for i in range(26 if q else 400):
        k += 1
        one = R.random() < 0.6
        fams = [fam_of(R.choice(FAMS), j) for j in range(1 if one else R.randint(2, 4))]
        if not one:
            for j in range(R.randint(0, 2)):
                fams.insert(R.randint(0, len(fams)), relative(R.choice(fams), R, "r%d" % j))
        ranks, n = R.choice([1, 2, 2, 3, 4, 5] if q else [1, 2, 2, 3, 4, 5, 7, 9]), R.choice([1, 1, 2, 3, 4])
        if i % 6 == 3:
            n = None        # as many as there are processors
        todo.append(lambda j=(k, fams, ranks, n, R.choice([0, 0, 1, 7, 30]), R.choice([0, 0, 100]), R.choice([None, None, None, "mpi", "threaded"]), R.choice([0, 0, 30, 200])): survey(*j))
    # many ranks, many families, many blocks
    few = [(p, r, g, nm) for p, r, g, nm in FAMS if p ** r <= 7 and g == 1]
    k += 1
    todo.insert(0, lambda k=k: survey(k, [Family(5, 1, 2, package=1)], 12, 2, 50, 0, None))
    k += 1
    todo.insert(0, lambda k=k, fams=[fam_of(R.choice(few), j) for j in range(40)]: survey(k, fams, 3, 2, 9, 0, "mpi"))
    # many threads, some blocks of which are far slower than others
    for i, (ranks, n) in enumerate([(2, 100), (1, 200), (3, 90), (2, 150)]):
        k += 1
        todo.insert(0, lambda j=(k, [Family(5, 1, 2, i % 2, package=1), Family(5, 1, 1, package=1)], ranks, n, 0, 0, None, 4): survey(*j))
    parallel(todo, workers=4 if q else 3)
    c.finish()


main(main_)
