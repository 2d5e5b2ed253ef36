import os, sys, random, resource, shutil, signal, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.survey import *


def rnd_key(R, pool):
    if pool and R.random() < .5:
        return R.choice(pool)
    ram = ",".join(str(R.randint(1, 12)) for _ in range(R.randint(1, 8)))
    if R.random() < .003:
        ram = ",".join(str(R.randint(1, 9)) for _ in range(R.randint(100, 40000)))
    off = ",".join(str(R.choice([0, R.randint(-9, 9), R.randint(-70000, 70000), -2147483648, 2147483647])) for _ in range(R.randint(1, 4)))
    k = ram + ";" + off
    pool.append(k)
    return k


def rnd_count(R):
    x = R.random()
    if x < .3:
        return R.choice([0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**62 - 1, 2**62, 2**63, 2**64 - 1, 2**64, 2**64 + 1, 10**40])
    return R.randint(1, 10**R.choice([1, 3, 9, 19, 20, 38, 9000 if x > .998 else 400 if x > .97 else 25]))


def rnd_block(R):
    return tuple((lo, lo + 1 + R.choice([0, 0, 1, R.randint(0, 3000)])) for lo in [R.choice([0, 1, R.randint(0, 5000), R.randint(0, 2**30 - 1)]) for _ in range(R.randint(1, 9))])


def store_text(entries):
    return "".join("%s:%d\n" % e for e in entries)


def record_text(blocks):
    return "".join("".join("%d %d " % t for t in b) + "\n" for b in blocks)


def make_pair(R, pool, blocks, big=False):
    n = R.choice([0, 1, 2, R.randint(1, 40), 3000 if big else 5])
    # a store file lists each invariant once; repeated lines are added as well
    entries = [(rnd_key(R, pool), rnd_count(R)) for _ in range(n)]
    bs = [R.choice(blocks) if blocks and R.random() < .2 else rnd_block(R) for _ in range(R.choice([0, 1, 3, R.randint(1, 30), 2000 if big else 4]))]
    blocks += bs[:5]
    return entries, bs


def in_order(texts):
    """the lines of the files; their order is nobody's promise"""
    return [sorted(t.split("\n")) for t in texts]


def expected(ps):
    c, b = Counter(), set()
    for e, bs in ps:
        for k, v in e:
            c[k] += v
        b.update(bs)
    return c, b


def put(d, name, pair):
    with open(os.path.join(d, name + ".hycu_store"), "w") as f:
        f.write(store_text(pair[0]))
    with open(os.path.join(d, name + ".hycu_record"), "w") as f:
        f.write(record_text(pair[1]))


def main_():
    c = Check("C09", "exploration",
              "Generated directories of result pairs with stray files are merged in one step, under other file names and orders, and in random trees "
              "of steps; the output is compared line by line with sums in Python integers. Incomplete pairs, unreadable inputs and every failing "
              "or cut-short read, open, write and close (by system-call tracing, full devices, size limits) must not end in success with "
              "other output. Distinct = distinct merged outputs and distinct disturbed operations.",
              ["the file system and the kernel's ptrace behave as documented"])
    q = TIER == "quick"
    m = build([("merger", "rel")])[("merger", "rel")]
    sf = tool("sysfault")

    def check_out(tag, rc, cnt, blocks, want, where):
        c.ev()
        if rc != 0:
            c.violation(tag + ":fails", "merger ends with %s on %s" % (rc, where), where)
            return False
        d = differ(cnt, want[0])
        if d:
            c.violation(tag + ":counts", "%s (%s)" % (d, where), where)
            return False
        if len(blocks) != len(set(blocks)) or set(blocks) != want[1]:
            c.violation(tag + ":record", "%d blocks (%d distinct) instead of %d (%s)" % (len(blocks), len(set(blocks)), len(want[1]), where), where)
            return False
        return True

    def safe_merge(tag, d, out):
        try:
            return merge(m, d, out)
        except (Bad, OSError) as e:
            c.violation(tag + ":format", "%s in %s" % (e, d), d)
            return None

    def directory(i):
        R = random.Random(SEED * 100003 + i)
        base = c.sub("dir%d" % i)
        pool, blocks = [], []
        ps = [make_pair(R, pool, blocks, big=(i % 40 == 7)) for _ in range(1500 if i % 200 == 3 else R.choice([0, 1, 2, 3, R.randint(2, 14)]))]
        if i % 200 == 4:     # one long pair among short ones
            ps.append(([(rnd_key(R, []), rnd_count(R)) for _ in range(60000)], [rnd_block(R) for _ in range(60000)]))
            c.add("long_pairs")
        want = expected(ps)
        names = ["%d" % R.randint(0, 2**63 - 1) if R.random() < .7 else R.choice(["a", "res.ult", "q3 g2", "x-y", "Zz", "merged", "café", "w" * 200, "results of " * 12]) + str(k) for k in range(len(ps))]
        d = os.path.join(base, "in")
        os.makedirs(d)
        order = list(range(len(ps)))
        R.shuffle(order)
        for k in order:
            put(d, names[k], ps[k])
        # what is to be ignored
        if R.random() < .6:
            junk = make_pair(R, pool, blocks)
            for nm, t in [("only.hycu_store", store_text(junk[0])), ("notes.txt", "hello\n"), ("x.hycu_record.incomplete", record_text(junk[1])), ("x.hycu_recordx", "9 9 \n"),
                          ("y.hycu_store~", "1;1:5\n"), ("hycu_record", "1 2 \n"), ("README", ""), ("z.record", "1 2 \n"), ("z.hycu_store.bak", "1;1:5\n")]:
                if R.random() < .7:
                    open(os.path.join(d, nm), "w").write(t)
            if R.random() < .5:
                os.makedirs(os.path.join(d, "sub.hycu_record"))
            if R.random() < .5:
                os.makedirs(os.path.join(d, "sub"))
                put(os.path.join(d, "sub"), "inner", junk)
        before = snapshot(d)
        res = safe_merge("one_step", d, os.path.join(base, "one"))
        if not res or not check_out("one_step", *res, want, d):
            return
        c.add("pairs_merged", len(ps)); c.add("lines_summed", sum(len(e) for e, _ in ps))
        one = (read(base + "/one.hycu_store"), read(base + "/one.hycu_record"))
        c.nontrivial(one)
        if snapshot(d) != before:
            c.violation("input_changed", d, d)
        if len(one[0]) < 300 and ps:
            c.sample("%d pairs -> %s" % (len(ps), one[0].replace("\n", " ")[:200]))
        # other names, other order
        d2 = os.path.join(base, "in2")
        os.makedirs(d2)
        R.shuffle(order)
        for k in order:
            put(d2, "%d" % R.randint(0, 10**6) + "_%d" % k, ps[k])
        res = safe_merge("renamed", d2, os.path.join(base, "two"))
        if res and check_out("renamed", *res, want, d2):
            if in_order((read(base + "/two.hycu_store"), read(base + "/two.hycu_record"))) != in_order(one):
                c.violation("order_dependent", "output depends on names or order: %s and %s" % (d, d2), d)
        # several steps, into a random tree
        groups = [(k, None) for k in range(len(ps))]
        step = 0
        dn = os.path.join(base, "tree")
        os.makedirs(dn)
        files = []
        for k in range(len(ps)):
            put(dn, "leaf%d" % k, ps[k])
            files.append(os.path.join(dn, "leaf%d" % k))
        while len(files) > 1 or step == 0:
            R.shuffle(files)
            take = files[:R.randint(1, max(1, min(400 if len(ps) > 100 else 5, len(files))))]
            if step > 2 and len(take) == 1 and len(files) > 1:
                take = files[:2]
            del files[:len(take)]
            ds = os.path.join(base, "step%d" % step)
            os.makedirs(ds)
            for f in take:
                for e in (".hycu_store", ".hycu_record"):
                    shutil.move(f + e, os.path.join(ds, os.path.basename(f) + e))
            # sometimes the output lies in the directory that is merged next, sometimes elsewhere
            out = os.path.join(base, "m%d" % step)
            res = safe_merge("stepwise", ds, out)
            if not res or res[0] != 0:
                c.violation("stepwise:fails", "merger ends with %s on %s" % (res and res[0], ds), ds)
                return
            files.append(out)
            step += 1
            c.add("steps")
        final = (read(files[0] + ".hycu_store"), read(files[0] + ".hycu_record"))
        c.ev()
        if in_order(final) != in_order(one):
            c.violation("stepwise", "merging in %d steps gives another result than in one (%s)" % (step, base), base)
        # an incomplete pair makes it fail
        if ps:
            k = R.randrange(len(ps))
            os.unlink(os.path.join(d2, [f for f in os.listdir(d2) if f.endswith("_%d.hycu_store" % k)][0]))
            if R.random() < .3:
                st = [f for f in os.listdir(d2) if f.endswith("_%d.hycu_record" % k)][0][:-len("record")] + "store"
                os.makedirs(os.path.join(d2, st))
            r = run_retry([m, d2, os.path.join(base, "bad")], timeout=60)
            c.ev(); c.add("incomplete_pairs")
            if r.rc == 0 or r.timed_out:
                c.violation("record_without_store", "merger ends with success although a record has no store: %s" % d2, d2)
        shutil.rmtree(base, ignore_errors=True)

    parallel([lambda i=i: directory(i) for i in range(150 if q else 2500)])

    # ---- faults ---------------------------------------------------------------------------------
    R = random.Random(SEED + 5)
    base = c.sub("faults")
    d = os.path.join(base, "in")
    os.makedirs(d)
    pool, blocks = [], []
    ps = [([(rnd_key(R, pool), rnd_count(R)) for _ in range(n)], [rnd_block(R) for _ in range(n)]) for n in (600, 900, 5)]
    for k, pr in enumerate(ps):
        put(d, "f%d" % k, pr)
    want = expected(ps)

    def judge(tag, r, out, hits):
        """success only with complete and right output"""
        c.ev(); c.add("faulted_runs"); c.nontrivial(tag)
        if r.timed_out:
            c.violation("fault_hang", tag, tag)
            return
        if r.rc != 0:
            c.add("faults_reported")
            return
        try:
            cnt, bl = parse_store(read(out + ".hycu_store")), parse_record(read(out + ".hycu_record"))
        except (Bad, OSError) as e:
            c.violation("success_without_output", "%s: exit 0, but %s" % (tag, e), tag)
            return
        dd = differ(cnt, want[0])
        if dd or set(bl) != want[1]:
            c.violation("success_with_other_output", "%s: exit 0, but %s" % (tag, dd or "other record"), tag)

    # outputs that cannot be written
    def special(kind):
        o = os.path.join(base, kind)
        os.makedirs(o)
        out = os.path.join(o, "out")
        pre = None
        if kind == "full_store":
            os.symlink("/dev/full", out + ".hycu_store")
        elif kind == "full_record":
            os.symlink("/dev/full", out + ".hycu_record")
        elif kind == "no_dir":
            out = os.path.join(o, "missing", "out")
        elif kind == "store_is_dir":
            os.makedirs(out + ".hycu_store")
        elif kind == "record_is_dir":
            os.makedirs(out + ".hycu_record")
        elif kind.startswith("limit"):
            n = int(kind[5:])

            def pre():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        p = subprocess.Popen([m, d, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=pre, start_new_session=True)
        try:
            p.wait(60)
            r = Result(p.returncode, "", "", False)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            r = Result(-9, "", "", True)
        if kind.startswith("full") or "_is_dir" in kind or kind == "no_dir":
            c.ev(); c.add("unwritable_outputs"); c.nontrivial(kind)
            if r.rc == 0 or r.timed_out:
                c.violation("unwritable_output", "%s: ends with %s" % (kind, r.rc), kind)
        else:
            judge(kind, r, out, 1)

    size = max(os.path.getsize(os.path.join(d, f)) for f in os.listdir(d))
    for kind in ["full_store", "full_record", "no_dir", "store_is_dir", "record_is_dir"] + ["limit%d" % n for n in (0, 1, 511, 4096, 8191, 20000, size // 2, size, 3 * size)]:
        special(kind)
    # inputs that are no directory
    for bad in (os.path.join(base, "nothing"), os.path.join(d, "f0.hycu_store")):
        r = run_retry([m, bad, os.path.join(base, "o")], timeout=60)
        c.ev()
        if r.rc == 0:
            c.violation("input_no_directory", bad, bad)

    # every operation, disturbed
    o = os.path.join(base, "sys")
    os.makedirs(o)
    log = os.path.join(o, "log")

    def ops(root, cls):
        r = run_retry([sf, root, log, "count", "0", "0", cls, "--", m, d, os.path.join(o, "count")], timeout=60)
        if r.rc != 0:
            raise HarnessError("sysfault: %d %s" % (r.rc, r.err[-500:]))
        return int(read(log).splitlines()[-1].split()[1])
    # a read that fails shows an unreadable input; an end of file instead of the data cannot be told apart
    todo = []
    for root, classes in ((d, ["read"]), (o, ["create", "write", "close", "all"])):
        for cls in classes:
            n = ops(root, cls)
            c.add("operations_" + cls, n)
            cap = 40 if q else 600
            ks = range(1, n + 1) if n <= cap else sorted(set(range(1, cap // 4)) | set(range(n - cap // 4, n + 1)) | set(R.sample(range(1, n + 1), cap // 2)))
            for k in ks:
                for mode, arg in [("error", 5), ("error", 28), ("error", 13), ("persist", 28), ("short", 0)] if root == o else [("error", 5), ("error", 13), ("persist", 5)]:
                    todo.append((root, mode, k, arg, cls))
    for b in (0, 1, 100, 5000, 9000, 30000):
        todo.append((o, "full", b, 28, "write"))

    def fault(t):
        root, mode, k, arg, cls = t
        tag = "%s %s %d of %s, %d" % ("input" if root == d else "output", mode, k, cls, arg)
        out = os.path.join(o, "t%d_%s_%s_%d" % (k, mode, cls, arg))
        lg = out + ".log"
        # the root must be where the files are; each run has its own names below it
        r = run_retry([sf, root, lg, mode, str(k), str(arg), cls, "--", m, d, out], timeout=60)
        judge(tag, r, out, 1)
        if os.path.exists(lg) and " triggered 1" in read(lg):
            c.add("faults_delivered")
    parallel([lambda t=t: fault(t) for t in todo])
    c.finish()


main(main_)
