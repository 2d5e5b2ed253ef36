import copy, os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.crash import *
from vlib.mpi import *


def main_():
    c = Check("C22", "exploration",
              "hycu-threaded (and hycu-mpi) start on result directories in which a seeded random subset of the blocks is recorded, distributed "
              "over one or many records, also overlapping, in shuffled order, written by the merger or by earlier surveys, next to records of "
              "other package sizes, empty records, stores without record, unrelated files, and records of other families elsewhere; records may "
              "fail to be read at any operation. What is recorded anew must be exactly the blocks that no record listed, each once, with exactly "
              "their results; a run that could not read the records must not record anything twice. "
              "Distinct = distinct (family, subset, layout, threads, saves, fault).",
              ["results of single blocks, learned from undisturbed runs, are right (their sum is compared with the census)"])
    q = TIER == "quick"
    exe = build([("threaded", "rel"), ("merger", "rel"), ("mpi", "rel")])
    th, mg, mx = exe[("threaded", "rel")], exe[("merger", "rel")], exe[("mpi", "rel")]
    shim, sf = tool("libshim"), tool("sysfault")
    R = random.Random(SEED * 6007 + 22)
    labs = [Lab(c, th, mg, shim, f, "l%d" % i) for i, f in enumerate(
        [Family(3, 1, 1, n=2, package=2), Family(3, 1, 2, n=2, package=20), Family(5, 1, 1, n=2, marked=True, package=1), Family(3, 2, 1, marked=True, n=2, package=9)] +
        ([] if q else [Family(5, 1, 1, n=3, package=4), Family(3, 1, 1, n=1, package=1), Family(3, 1, 2, n=2, marked=True, package=7)]))]
    big = Lab(c, th, mg, shim, Family(3, 1, 3, n=1, package=3), "big")   # records longer than a buffer
    ok = parallel([lambda l=l: l.prepare() for l in labs] + [lambda: big.prepare(contributions=False)])
    if c.failed or not all(ok):
        c.finish()

    def write_pair(lab, d, name, blocks):
        tot = Counter()
        for b in blocks:
            tot.update(lab.contrib.get(b, {}) if lab.contrib else {})
        with open(os.path.join(d, name + ".hycu_store"), "w") as f:
            f.writelines("%s:%d\n" % kv for kv in tot.items())
        with open(os.path.join(d, name + ".hycu_record"), "w") as f:
            f.writelines(block_line(b) for b in blocks)

    def case(lab, k, kind):
        r0 = random.Random(SEED * 524287 + k)
        out = lab.base + "/c%d" % k
        d = lab.dir(out)
        os.makedirs(d)
        B = list(lab.blocks)
        frac = r0.choice([0, 0.05, 0.3, 0.5, 0.8, 0.97, 1])
        have = [b for b in B if r0.random() < frac]
        if r0.random() < 0.3:     # a range of them, or all but one
            i = r0.randrange(len(B))
            have = r0.choice([B[:i], B[i:], B[:i] + B[i + 1:], [B[i]]])
        r0.shuffle(have)
        what = []
        if kind == "overlap" and have:
            parts = [r0.sample(have, r0.randint(1, len(have))) for _ in range(r0.randint(2, 4))] + [have]
        else:
            m = r0.choice([1, 1, 2, 3, 5, len(have) or 1])
            parts = [have[i::m] for i in range(m)]
        if kind == "long" and have:     # a record and a name of unusual length: the blocks among many of other families
            i = r0.randrange(3)
            tail = "".join("%d %d 0 %d 1 2 \n" % (x, x + 1, x + 5) for x in range(r0.choice([20000, 70000, 120000])))
            name = r0.choice(["x" * 200, "merged " + "results-" * 20, "1" * 60, "a." * 50])
            if i == 0:
                write_pair(lab, d, name, have)
            else:
                write_pair(lab, d, name, have[::2])
                write_pair(lab, d, "short", have[1::2])
            text = read(os.path.join(d, name + ".hycu_record"))
            with open(os.path.join(d, name + ".hycu_record"), "w") as f:
                f.write([text + tail, tail + text, text][i])
        elif kind == "merged" and have:
            src = lab.base + "/m%d" % k
            os.makedirs(src)
            for i, p in enumerate(parts):
                write_pair(lab, src, str(100 + i), p)
            r = run_retry([mg, src, os.path.join(d, "merged")])
            if r.rc != 0:
                raise HarnessError("merger ends with %s" % r.rc)
            shutil.rmtree(src)
        else:
            for i, p in enumerate(parts):
                write_pair(lab, d, r0.choice(["%d" % (10 ** 15 + i), "part%d" % i, "a.b%d" % i, ".hidden%d" % i, "%d" % i, "0%d" % i, "-%d" % (7 + i), "with space %d" % i, "\u00e4\u00df%d" % i, "UPPER%d" % i]), p)
        if kind == "clutter":
            i = r0.randrange(len(B))
            foreign = lambda bs: "".join(block_line(b) for b in bs if b not in set(B))
            for fn, text in [("x.hycu_record.incomplete", "".join(map(block_line, B))), ("y.hycu_recorded", "".join(map(block_line, B))), ("z.hycu_store", "1,1,1,1;0:5\n"), ("record", block_line(B[i])),
                             ("e.hycu_record", ""), ("e.hycu_store", ""), ("hycu_record", block_line(B[i])), ("s.HYCU_RECORD", block_line(B[i])), ("notes.txt", "x"),
                             ("other.hycu_record", foreign(tuple((lo, hi + 1) for lo, hi in b) for b in B)), ("other.hycu_store", "1,1,1,1;0:5\n"),
                             ("longer.hycu_record", foreign(b + ((0, 1),) for b in B)), ("longer.hycu_store", ""),
                             ("shorter.hycu_record", foreign(b[1:] for b in B)), ("shorter.hycu_store", "")]:
                if r0.random() < 0.7:
                    open(os.path.join(d, fn), "w").write(text)
                    what.append(fn)
            os.makedirs(d + "/dir.hycu_record"); os.makedirs(d + "/sub")
            open(d + "/sub/q.hycu_record", "w").write("".join(map(block_line, B)))
            open(out + "/up.hycu_record", "w").write("".join(map(block_line, B)))
        before = {f for f in os.listdir(d)}
        prior = set()
        for _, rec, _ in pairs(d) if kind not in ("clutter", "long") else []:
            prior.update(rec)
        prior.update(have)
        threads, every, jit = r0.choice([1, 2, 3, 6]), r0.choice([0, 0, 1, 3, 10]), r0.choice([0, 100])
        where = "%d of %d recorded in %d files (%s), %d threads, clock %d #%d" % (len(have), len(B), len(parts), kind + " " + ",".join(what), threads, every, k)
        env = lab.env(VSHIM_CLOCK_EVERY=every, VSHIM_JITTER=jit, VSHIM_SEED=k)
        rep = {"cmd": lab.cmd(out, threads), "env": env, "config": lab.fam.yaml(), "recorded": sorted(have)[:200]}
        if kind == "mpi":
            tag = "d%d" % k
            c.sub(tag)
            r, left, cmd = launch_retry(c, tag, r0.randint(2, 4), [mx, "-n", str(threads), lab.cfg, out], env, 100)
        else:
            r = run_retry(lab.cmd(out, threads), timeout=100, env=env)
        c.ev()
        if r.timed_out or r.rc != 0:
            c.violation("resume_fails", "%r %s: ends with %s: %s" % (lab.fam, where, "no end" if r.timed_out else r.rc, r.err[-600:]), rep)
            return
        new, cnt, want = Counter(), Counter(), Counter()
        for f in sorted(set(os.listdir(d)) - before):
            if f.endswith(".hycu_record"):
                try:
                    rec, sto = parse_record(read(os.path.join(d, f))), parse_store(read(os.path.join(d, f[:-len("record")] + "store")))
                except (Bad, OSError) as e:
                    c.violation("format", "%r %s: %s" % (lab.fam, where, e), rep)
                    return
                new.update(rec); cnt.update(sto)
                if lab.contrib:
                    w = Counter()
                    for b in rec:
                        w.update(lab.contrib.get(b, {}))
                    x = differ(sto, w)
                    if x:
                        c.violation("results", "%r %s: %s does not hold the results of its blocks: %s" % (lab.fam, where, f, x), rep)
                        return
        left = Counter(set(B) - set(have))
        if new != left:
            again = new - left
            kind_ = "computed_again" if again else "left_out"
            c.violation(kind_, "%r %s: %d blocks recorded anew instead of %d; %s %s" % (lab.fam, where, sum(new.values()), sum(left.values()), kind_, sorted((again or left - new).elements())[:3]), rep)
            return
        c.add("blocks_skipped", len(have)); c.add("blocks_computed", len(left))
        c.nontrivial((lab.name, tuple(sorted(have)), kind, len(parts), threads, every, tuple(what)))
        if k % 9 == 0:
            c.sample("%r %s: exactly the other %d recorded" % (lab.fam, where, len(left)))
        if kind in ("plain", "merged", "mpi") and lab.contrib:
            lab.complete(out, "complete", where, rep)
        shutil.rmtree(out, ignore_errors=True)

    def rerun(lab, k):
        """complete directories, of one's own making: nothing is recorded any more"""
        out = lab.base + "/r%d" % k
        for i in range(3):
            n0 = set(os.listdir(lab.dir(out))) if i else set()
            r = run_retry(lab.cmd(out, 1 + (i + k) % 4), timeout=100, env=lab.env(VSHIM_CLOCK_EVERY=k % 4))
            c.ev()
            if r.timed_out or r.rc != 0:
                c.violation("resume_fails", "%r: run %d on one directory ends with %s" % (lab.fam, i + 1, r.rc), lab.fam.yaml())
                return
            if not lab.complete(out, "rerun", "run %d" % (i + 1), lab.fam.yaml()):
                return
        c.nontrivial((lab.name, "rerun", k))
        shutil.rmtree(out, ignore_errors=True)

    def others(k):
        """families with directories of their own: one complete, one in part, one not begun"""
        r0 = random.Random(SEED * 131 + k)
        out = c.sub("others%d" % k)
        ls = [l for l in labs if l.contrib]
        r0.shuffle(ls)
        state = {}
        for l in ls:
            have = r0.choice([[], l.blocks, r0.sample(l.blocks, len(l.blocks) // 2)])
            state[l.name] = len(have)
            if have:
                os.makedirs(l.dir(out))
                write_pair(l, l.dir(out), "77", have)
        run_ = [l for l in ls if r0.random() < 0.7] or ls[:1]
        frozen = {l.name: snapshot(l.dir(out)) if os.path.isdir(l.dir(out)) else None for l in ls}
        cfg = write_config(out + "/c.yaml", [l.fam for l in run_], moduli=True)
        r = run_retry([th, "-n", str(r0.randint(1, 5)), cfg, out], timeout=100, env=labs[0].env(VSHIM_CLOCK_EVERY=r0.choice([0, 2, 9])))
        c.ev()
        where = "families %r of %r" % ([l.fam for l in run_], state)
        if r.timed_out or r.rc != 0:
            c.violation("resume_fails", "%s: ends with %s" % (where, r.rc), where)
            return
        for l in ls:
            if l in run_:
                if not l.complete(out, "families", where, where):
                    return
            elif (snapshot(l.dir(out)) if os.path.isdir(l.dir(out)) else None) != frozen[l.name]:
                c.violation("touches_others", "%s: the directory of %r was changed" % (where, l.fam), where)
                return
        c.nontrivial(("others", where, k))
        shutil.rmtree(out, ignore_errors=True)

    def relatives(k):
        """families with the same blocks in directories of their own, and one family several times"""
        r0 = random.Random(SEED * 137 + k)
        l = r0.choice([l for l in labs if l.contrib])
        ls = []
        for i in range(r0.randint(1, 3)):
            m = copy.copy(l)
            m.fam = copy.copy(l.fam)
            m.fam.path = ["a", "b/c", "d"][i]
            ls.append(m)
        out = c.sub("relatives%d" % k)
        state = []
        for m in ls:
            have = r0.choice([[], m.blocks, r0.sample(m.blocks, r0.randint(0, len(m.blocks)))])
            state.append(len(have))
            if have:
                os.makedirs(m.dir(out))
                write_pair(m, m.dir(out), "77", have)
        fams = [m.fam for m in ls] + [r0.choice(ls).fam for _ in range(r0.randint(0, 2))]
        r0.shuffle(fams)
        cfg = write_config(out + "/c.yaml", fams, moduli=True)
        r = run_retry([th, "-n", str(r0.randint(1, 5)), cfg, out], timeout=100, env=l.env(VSHIM_CLOCK_EVERY=r0.choice([0, 0, 2, 9])))
        c.ev()
        where = "families of equal blocks in %s, of which %r are recorded" % ([f.path for f in fams], state)
        if r.timed_out or r.rc != 0:
            c.violation("resume_fails", "%s: ends with %s" % (where, r.rc), where)
            return
        for m in ls:
            if not m.complete(out, "relatives", where, where):
                return
        c.nontrivial(("relatives", where, k))
        shutil.rmtree(out, ignore_errors=True)

    def fault(lab, mode, at, err, k):
        """reading the records fails"""
        out = lab.base + "/f%d" % k
        d = lab.dir(out)
        os.makedirs(d)
        r0 = random.Random(k)
        have = [b for b in lab.blocks if r0.random() < 0.8]
        r0.shuffle(have)
        m = 1 if lab is big else 3
        for i in range(m):
            write_pair(lab, d, "p%d" % i, have[i::m])
        cmd = [sf, d, out + "/log", mode, str(at), str(err), "read", "--"] + lab.cmd(out)
        r = run_retry(cmd, timeout=60, env=lab.env())
        c.ev()
        n, trig, L = fault_log(out + "/log")
        where = "%s of reading at %d, errno %d" % (mode, at, err)
        rep = {"cmd": cmd, "config": lab.fam.yaml()}
        if r.timed_out:
            c.violation("no_end", "%r %s: does not end" % (lab.fam, where), rep)
            return n
        try:
            cnt, bl = totals(d)
        except Bad as e:
            c.violation("format", "%r %s: %s" % (lab.fam, where, e), rep)
            return n
        if any(v > 1 for v in bl.values()):
            c.violation("unreadable_record", "%r %s (%s): %d blocks were computed again; exit %d" % (lab.fam, where, [l for l in L if "errno" in l][:1], sum(1 for v in bl.values() if v > 1), r.rc), rep)
        elif r.rc == 0 and set(bl) != set(lab.blocks):
            c.violation("success_without_results", "%r %s: success, but %d of %d blocks are recorded" % (lab.fam, where, len(bl), len(lab.blocks)), rep)
        elif trig:
            c.add("read_faults"); c.nontrivial((lab.name, mode, at, err))
        shutil.rmtree(out, ignore_errors=True)
        return n

    todo = []
    k = 0
    for lab in labs:
        for kind, m in [("plain", 22), ("overlap", 8), ("merged", 8), ("clutter", 12), ("long", 4), ("mpi", 2)]:
            for i in range(m if q else m * 12):
                k += 1
                todo.append(lambda j=(lab, k, kind): case(*j))
        for i in range(2 if q else 10):
            k += 1
            todo.append(lambda j=(lab, k): rerun(*j))
    for i in range(8 if q else 60):
        k += 1
        todo.append(lambda j=(big, k, R.choice(["plain", "overlap", "clutter"])): case(*j))
    for i in range(12 if q else 150):
        k += 1
        todo.append(lambda k=k: others(k))
    for i in range(60 if q else 500):
        k += 1
        todo.append(lambda k=k: relatives(k))
    for lab in (labs[0], labs[1], big):
        n = fault(lab, "count", 0, 0, 10 ** 6)
        if c.failed:
            break
        c.add("read_operations", n)
        for at in range(1, n + 1):
            for mode in ("error", "persist"):
                for e in (5, 13) if not q else (R.choice([5, 13]),):
                    k += 1
                    todo.append(lambda j=(lab, mode, at, e, k): fault(*j))
    parallel(todo)
    c.finish()


main(main_)
