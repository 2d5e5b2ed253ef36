"""Surveys under faults: what each block contributes, and the judgement of a result directory."""
import os, shutil
from collections import Counter
from .report import run_retry, HarnessError
from .survey import *


def block_line(b):
    return "".join("%d %d " % x for x in b) + "\n"


class Lab:
    """A family with its blocks and what each of them contributes to the results."""

    def __init__(self, c, exe, merger, shim, fam, name):
        self.c, self.exe, self.merger, self.shim, self.fam, self.name = c, exe, merger, shim, fam, name
        self.base = c.sub("lab_" + name)
        self.cfg = write_config(self.base + "/c.yaml", [fam])
        self.want = fam.census()

    def env(self, **kw):
        e = {"LD_PRELOAD": self.shim, "VSHIM_SLEEP_DIV": 100}
        e.update(kw)
        return e

    def cmd(self, out, threads=2):
        return [self.exe, "-n", str(threads), self.cfg, out]

    def survey(self, out, threads=2, timeout=100, **kw):
        return run_retry(self.cmd(out, threads), timeout=timeout, env=self.env(**kw))

    def dir(self, out):
        return os.path.join(out, self.fam.path)

    def seed(self, out, blocks, name="100"):
        """a directory with a record of blocks and nothing in its store"""
        d = self.dir(out)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, name + ".hycu_store"), "w").close()
        with open(os.path.join(d, name + ".hycu_record"), "w") as f:
            f.writelines(block_line(b) for b in blocks)

    def prepare(self, contributions=True):
        """learns the blocks from an undisturbed run, and the contributions by leaving only one to do"""
        out = self.base + "/ref"
        r = self.survey(out)
        if r.rc != 0:
            self.c.violation("undisturbed", "%r: an undisturbed survey ends with %s: %s" % (self.fam, r.rc, r.err[-800:]), self.fam.yaml())
            return False
        try:
            cnt, bl = totals(self.dir(out))
        except Bad as e:
            self.c.violation("undisturbed", "%r: an undisturbed survey leaves %s" % (self.fam, e), self.fam.yaml())
            return False
        self.blocks = sorted(bl)
        d = differ(cnt, self.want)
        if d or any(v > 1 for v in bl.values()):
            self.c.violation("undisturbed", "%r: an undisturbed survey does not give the census: %s" % (self.fam, d), self.fam.yaml())
            return False
        d = block_fault(self.fam, bl)
        if d:
            self.c.violation("undisturbed_blocks", "%r: after an undisturbed survey, %s" % (self.fam, d), self.fam.yaml())
            return False
        shutil.rmtree(out)
        self.contrib = {}
        if contributions:
            tot = Counter()
            for i, b in enumerate(self.blocks):
                o = self.base + "/one"
                self.seed(o, [x for x in self.blocks if x != b])
                r = self.survey(o)
                cnt, bl = totals(self.dir(o))
                if r.rc != 0 or bl != Counter(self.blocks):
                    self.c.violation("remaining_block", "%r: with only %s not recorded, the survey ends with %s, and its records then list %d blocks, %s" %
                                     (self.fam, b, r.rc, sum(bl.values()), sorted((bl - Counter(self.blocks)).elements())[:3] or "missing it"), self.fam.yaml())
                    return False
                self.contrib[b] = cnt
                tot.update(cnt)
                shutil.rmtree(o)
            d = differ(tot, self.want)
            if d:
                self.c.violation("contributions", "%r: the contributions of single blocks do not add up to the census: %s" % (self.fam, d), self.fam.yaml())
                return False
        return True

    # -- judgements ----------------------------------------------------------------------------
    def consistent(self, out, key, where, replay=None, strict=True):
        """every record lists blocks of the family, none twice, and comes with exactly their results.
        Returns the recorded blocks, or None."""
        d = self.dir(out)
        if not os.path.isdir(d):
            return Counter()
        try:
            ps = pairs(d)
        except (Bad, OSError) as e:
            self.c.violation(key + ":format", "%r %s: %s" % (self.fam, where, e), replay)
            return None
        seen = Counter()
        for name, rec, sto in ps:
            seen.update(rec)
            want = Counter()
            for b in rec:
                if b not in self.contrib:
                    self.c.violation(key + ":block", "%r %s: %s lists a block that is none of the survey: %s" % (self.fam, where, name, b), replay)
                    return None
                want.update(self.contrib[b])
            x = differ(sto, want)
            if x:
                self.c.violation(key + ":pair", "%r %s: %s lists %d blocks, but its store does not hold their results: %s" % (self.fam, where, name, len(rec), x), replay)
                return None
            self.c.add("pairs_judged")
        if any(v > 1 for v in seen.values()):
            self.c.violation(key + ":twice", "%r %s: blocks are recorded twice" % (self.fam, where), replay)
            return None
        return seen

    def complete(self, out, key, where, replay=None, merge_it=True):
        """the directory holds exactly the census and all blocks once"""
        seen = self.consistent(out, key, where, replay)
        if seen is None:
            return False
        if set(seen) != set(self.blocks):
            self.c.violation(key + ":incomplete", "%r %s: %d of %d blocks are recorded" % (self.fam, where, len(seen), len(self.blocks)), replay)
            return False
        if merge_it:
            m = out.rstrip("/") + "_merged"
            try:
                rc, cnt, blocks = merge(self.merger, self.dir(out), m)
            except (Bad, OSError) as e:
                rc, cnt, blocks = str(e), None, None
            for e in (".hycu_store", ".hycu_record"):
                if os.path.exists(m + e):
                    os.unlink(m + e)
            if rc != 0:
                self.c.violation(key + ":merge", "%r %s: merging ends with %s" % (self.fam, where, rc), replay)
                return False
            x = differ(cnt, self.want)
            if x or sorted(blocks) != self.blocks:
                self.c.violation(key + ":census", "%r %s: the merged result is not the census: %s" % (self.fam, where, x or "other blocks"), replay)
                return False
        return True

    def resume(self, out, key, where, replay=None, threads=2, **kw):
        r = self.survey(out, threads, **kw)
        if r.timed_out or r.rc != 0:
            self.c.violation(key + ":resume", "%r %s: resuming ends with %s: %s" % (self.fam, where, "no end" if r.timed_out else r.rc, (r.err + r.out)[-600:]), replay)
            return False
        return self.complete(out, key, where + ", resumed", replay)


def fault_log(fn):
    """(operations counted, triggered, lines) of a sysfault log"""
    try:
        L = read(fn).splitlines()
    except OSError:
        return 0, False, []
    if not L or not L[-1].startswith("end "):
        return 0, False, L
    w = L[-1].split()
    return int(w[1]), w[3] == "1", L[:-1]


class Multi:
    """Several prepared families in one configuration, with the interface of a Lab."""

    def __init__(self, c, labs, name):
        self.c, self.labs, self.name = c, labs, name
        self.base = c.sub("lab_" + name)
        self.exe, self.env = labs[0].exe, labs[0].env
        self.cfg = write_config(self.base + "/c.yaml", [l.fam for l in labs], moduli=True)
        self.fam = self
        self.blocks = [(i, b) for i, l in enumerate(labs) for b in l.blocks]

    def __repr__(self):
        return "+".join(repr(l.fam) for l in self.labs)

    def yaml(self):
        return read(self.cfg)

    cmd, survey = Lab.cmd, Lab.survey

    def consistent(self, out, key, where, replay=None):
        tot = Counter()
        for i, l in enumerate(self.labs):
            s = l.consistent(out, key, where, replay)
            if s is None:
                return None
            tot.update({(i, b): n for b, n in s.items()})
        return tot

    def complete(self, out, key, where, replay=None, merge_it=True):
        return all([l.complete(out, key, where, replay, merge_it) for l in self.labs])

    resume = Lab.resume
