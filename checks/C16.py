import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.crash import *
from vlib.mpi import *


def main_():
    c = Check("C16", "exploration",
              "Surveys save often (moved clock) while the random source behind file names is replaced by one that draws from very few values, so that "
              "names collide with those of earlier saves, of earlier surveys, and of files put there on purpose: stores without record, "
              "records without store, incomplete records, pairs of other families. A log of all file operations (ptrace) must not show a file "
              "of the directory created, truncated, renamed onto or removed that existed before; all earlier files must keep their contents, every new "
              "record its store with exactly the results of its blocks, and nothing may be lost. "
              "Distinct = distinct (family, random source, files present, threads, saves).",
              ["names are drawn through std::random_device; otherwise collisions are not forced (those that took place are counted as collisions_forced)"])
    q = TIER == "quick"
    exe = build([("threaded", "rel"), ("merger", "rel"), ("mpi", "rel")])
    th, mg, mx = exe[("threaded", "rel")], exe[("merger", "rel")], exe[("mpi", "rel")]
    shim, sf = tool("libshim"), tool("sysfault")
    R = random.Random(SEED * 3001 + 16)
    labs = [Lab(c, th, mg, shim, f, "l%d" % i) for i, f in enumerate(
        [Family(3, 1, 1, n=2, package=2, path="d"), Family(3, 1, 2, n=2, package=20, path="d"), Family(5, 1, 1, n=2, marked=True, package=1, path="d"), Family(3, 2, 1, marked=True, n=2, package=9, path="d")])]
    ok = parallel([lambda l=l: l.prepare() for l in labs])
    if c.failed or not all(ok):
        c.finish()

    def watch(lab, out, env, threads, key, where, rep, prior, distributed=0):
        """runs a survey, logged; judges it against the files that were there (snapshot) and returns what is recorded anew"""
        d = lab.dir(out)
        before = snapshot(d)
        lg = out.rstrip("/") + ".log"
        if distributed:
            prog = ["sh", "-c", 'exec "%s" "$1" "%s$OMPI_COMM_WORLD_RANK" count 0 0 all -- "%s" -n %d "%s" "$1"' % (sf, lg, mx, threads, lab.cfg), "x", out]
            tag = os.path.relpath(os.path.dirname(out), c.scratch)
            r, left, cmd = launch_retry(c, tag, distributed, prog, env, 100)
            lg += "0"
        else:
            r = run_retry([sf, out, lg, "count", "0", "0", "all", "--"] + lab.cmd(out, threads), timeout=100, env=env)
        c.ev()
        if r.timed_out or r.rc != 0:
            c.violation("survey_fails", "%r %s: ends with %s: %s" % (lab.fam, where, "no end" if r.timed_out else r.rc, r.err[-600:]), rep)
            return None
        # online order of operations: a path in use must not be created again, renamed onto or removed
        n, _, L = fault_log(lg)
        used = set(before)
        fresh = set()
        for l in L:
            w = l.split(" ")
            kind, p = w[1], os.path.relpath(" ".join(w[2:-2]), "/" + lab.fam.path)
            if p.startswith(".."):
                continue
            if kind in ("create", "rename", "unlink") and p in (used if kind != "unlink" else set(before)):
                c.violation("overwritten", "%r %s: %s %s, which was there before" % (lab.fam, where, kind, p), rep)
                return None
            if kind == "create" and p in fresh:
                c.violation("overwritten", "%r %s: %s was created twice" % (lab.fam, where, p), rep)
                return None
            if kind in ("create", "rename"):
                # an incomplete record may come again under a name whose record was renamed away
                if kind == "create" and p.endswith(".hycu_store"):
                    fresh.add(p)
                if p.endswith((".hycu_store", ".hycu_record")):
                    used.add(p)
        after = snapshot(d)
        for f, b in before.items():
            if after.get(f) != b:
                c.violation("damaged", "%r %s: %s %s" % (lab.fam, where, f, "is gone" if f not in after else "changed its contents"), rep)
                return None
        new = sorted(set(after) - set(before))
        names = {}
        for f in new:
            if "." in f:
                names.setdefault(f.split(".")[0], set()).add(f.split(".", 1)[1])
        for nme, exts in names.items():
            if exts != {"hycu_store", "hycu_record"}:
                c.violation("pair", "%r %s: a save added %s of %s" % (lab.fam, where, sorted(exts), nme), rep)
                return None
            if any(f.split(".")[0] == nme for f in before if f.endswith((".hycu_store", ".hycu_record"))):
                c.violation("name_in_use", "%r %s: a save took the name %s, which was in use" % (lab.fam, where, nme), rep)
                return None
        rec_new = Counter()
        for nme in names:
            rec, sto = parse_record(after[nme + ".hycu_record"].decode()), parse_store(after[nme + ".hycu_store"].decode())
            w = Counter()
            for b in rec:
                w.update(lab.contrib.get(b, {"unknown block": 1}))
            x = differ(sto, w)
            if x:
                c.violation("results", "%r %s: %s: %s" % (lab.fam, where, nme, x), rep)
                return None
            rec_new.update(rec)
        if rec_new != Counter(set(lab.blocks) - prior):
            c.violation("lost", "%r %s: %d blocks were recorded anew instead of %d" % (lab.fam, where, sum(rec_new.values()), len(set(lab.blocks) - prior)), rep)
            return None
        c.add("saves", len(names)); c.add("files_present_before", len(before))
        return sorted(names)

    def rd(lab, every, draws, rng, k, jit=0):
        return lab.env(VSHIM_CLOCK_EVERY=every, VSHIM_RD_DRAWS=draws, VSHIM_RD_RANGE=rng, VSHIM_SEED=k, VSHIM_JITTER=jit)

    def collide(lab, k):
        r0 = random.Random(SEED * 65537 + k)
        base = c.sub("k%d" % k)
        draws, rng, every, threads = r0.choice([2, 10, 60, 400, 3000]), r0.choice([1, 1, 2, 3, 8, 1000]), r0.choice([0, 1, 2, 4]), r0.choice([1, 2, 4])
        env = rd(lab, every, draws, rng, k)
        where = "%d draws out of %d, clock %d, %d threads #%d" % (draws, rng, every, threads, k)
        rep = {"env": env, "config": lab.fam.yaml()}
        # what the source proposes first
        os.makedirs(base + "/a")
        names = watch(lab, base + "/a", env, threads, "a", where + ", empty directory", rep, set())
        if names is None:
            return
        # the same source, with some of these names taken
        d = lab.dir(base + "/b")
        os.makedirs(d)
        prior = set()
        put = []
        alien = "".join(block_line(tuple((lo + 50, hi + 50) for lo, hi in b)) for b in lab.blocks[:3])
        lows = [n for n in names if int(n) < 1 << 40] if all(n.isdigit() for n in names) else names
        for nme in sorted(set(names) | {"0", "1"}):
            what = r0.choice(["store", "record", "both", "incomplete", "own", "nothing", "near"])
            w = lambda e, t: (open(os.path.join(d, nme + e), "w").write(t), put.append(nme + e))
            if what == "store":
                w(".hycu_store", r0.choice(["", "1,1,1,1;0:5\n", "torn 1,2"]))
            elif what == "record":
                w(".hycu_record", alien)
            elif what == "both":
                w(".hycu_record", alien); w(".hycu_store", "1,1,1,1;0:5\n")
            elif what == "incomplete":
                w(".hycu_record.incomplete", "0 1 2")
            elif what == "own":
                b = r0.choice(lab.blocks)
                if b not in prior:
                    prior.add(b)
                    w(".hycu_record", block_line(b)); w(".hycu_store", "".join("%s:%d\n" % kv for kv in lab.contrib[b].items()))
            elif what == "near":
                w(".txt", "notes"); w("", "notes"); w(".hycu_store.bak", "x")
        n2 = watch(lab, base + "/b", env, threads, "b", where + ", present: " + " ".join(put), rep, prior)
        if n2 is None:
            return
        if set(names) - set(n2):
            c.add("collisions_forced", len(set(names) - set(n2)))
        # and again, and again with other families in the very same directory, the source starting over
        for i in range(2):
            other = r0.choice(labs)
            have = set()
            for f in os.listdir(d):
                if f.endswith(".hycu_record"):
                    have.update(parse_record(read(os.path.join(d, f))))
            env2 = rd(other, r0.choice([0, 1, 3]), draws, rng, k, 100)
            if watch(other, base + "/b", env2, r0.choice([1, 3]), "c", where + ", then %r" % other.fam, rep, have & set(other.blocks), distributed=r0.choice([2, 3]) if k % 10 == 0 else 0) is None:
                return
        c.nontrivial((lab.name, draws, rng, every, threads, tuple(put)))
        c.sample("%r %s: %d saves avoided %s" % (lab.fam, where, len(n2), " ".join(put[:6])))
        shutil.rmtree(base, ignore_errors=True)

    parallel([lambda j=(lab, i * 4 + li): collide(*j) for i in range(25 if q else 300) for li, lab in enumerate(labs)])
    c.finish()


main(main_)
