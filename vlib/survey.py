"""Surveys run as users run them: configurations, result directories, and the reference census."""
import gzip, os, re, shutil, glob, sys, threading
from collections import Counter
from .build import build
from .report import run, run_retry, HarnessError, SEED, VERIF

CENSUS = {}


def _load(p, r, d, n):
    k = (p, r, d)
    if k not in CENSUS:
        fs = glob.glob(os.path.join(VERIF, "data", "census", "%d_%d_%d_*.gz" % k))
        if not fs:
            raise HarnessError("no reference census for %r" % (k,))
        f = fs[0]
        lines = gzip.open(f, "rt").read().split()
        CENSUS[k] = (int(f.rsplit("_", 1)[1][:-3]), lines)
    have, lines = CENSUS[k]
    if n > have:
        raise HarnessError("reference census for %r has only n=%d" % (k, have))
    return have, lines


def census(p, r, g, marked, n):
    """Counter of 'ram;offsets' -> number of squarefree polynomials"""
    out = Counter()
    for d in [2 * g + 1] if marked else [2 * g + 1, 2 * g + 2]:
        have, lines = _load(p, r, d, n)
        for l in lines:
            key, cnt = l.split(":")
            ram, off = key.split(";")
            out[ram + ";" + ",".join(off.split(",")[:n])] += int(cnt)
    return out


sys.set_int_max_str_digits(0)


class Family:
    def __init__(self, p, r, g, marked=False, n=None, path=None, package=100):
        self.p, self.r, self.g, self.marked = p, r, g, marked
        self.n = n if n is not None else g
        self.explicit = n is not None
        self.path = path or "q%d_%dg%d%s_n%d" % (p, r, g, "m" if marked else "", self.n)
        self.package = package

    def yaml(self, ind="", first=""):
        L = ["Prime: %d" % self.p, "PrimeExponent: %d" % self.r, "Genus: %d" % self.g]
        if self.marked:
            L.append("WithMarkedPoint: true")
        if self.explicit:
            L.append("CountExponent: %d" % self.n)
        L += ["ResultPath: %s" % self.path, "PackageSize: %d" % self.package]
        return "".join((first if i == 0 else ind) + l + "\n" for i, l in enumerate(L))

    def census(self):
        return census(self.p, self.r, self.g, self.marked, self.n)

    def __repr__(self):
        return "q=%d^%d g=%d%s n=%d package=%d" % (self.p, self.r, self.g, " marked" if self.marked else "", self.n, self.package)


def relative(f, R, path):
    """a family which shares blocks with f: itself once more, elsewhere, with another number of counts, or with the other kind of curves"""
    kind = R.choice(["again", "elsewhere", "counts", "marked"])
    if kind == "again":
        path = f.path
    g = Family(f.p, f.r, f.g, f.marked != (kind == "marked"), R.randint(1, f.n) if kind == "counts" else f.n if f.explicit else None, path, f.package)
    try:
        g.census()
    except (OSError, KeyError, HarnessError):
        return f
    return g


def by_path(families):
    return list({f.path: f for f in families}.values())


def write_config(fn, families, moduli=None):
    """moduli: write the Moduli form even for one family"""
    if len(families) == 1 and not moduli:
        s = families[0].yaml()
    else:
        s = "StoreType: EC\nModuli:\n" + "".join(f.yaml("    ", "  - ") for f in families)
    with open(fn, "w") as h:
        h.write(s)
    return fn


class Bad(Exception):
    """A result file breaks the format or a rule."""


def parse_store(text):
    out = Counter()
    for l in text.splitlines():
        m = re.fullmatch(r"(\d+(?:,\d+)*);(-?\d+(?:,-?\d+)*):(\d+)", l)
        if not m:
            raise Bad("line %r" % l[:120])
        k = m.group(1) + ";" + m.group(2)
        if k in out:
            raise Bad("two lines for %s" % k)
        out[k] = int(m.group(3))
    if text and not text.endswith("\n"):
        raise Bad("text does not end with a line")
    return out


def parse_record(text):
    out = []
    for l in text.splitlines():
        w = l.split()
        if len(w) % 2 or not all(x.isdigit() for x in w):
            raise Bad("record line %r" % l[:120])
        out.append(tuple((int(w[i]), int(w[i + 1])) for i in range(0, len(w), 2)))
    if text and not text.endswith("\n"):
        raise Bad("record does not end with a line")
    return out


def read(fn):
    with open(fn, "r", errors="replace") as f:
        return f.read()


def pairs(d):
    """recorded pairs of a directory: [(name, record blocks, store counter)]"""
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".hycu_record") and os.path.isfile(os.path.join(d, f)):
            s = os.path.join(d, f[:-len(".hycu_record")] + ".hycu_store")
            if not os.path.isfile(s):
                raise Bad("record %s without store" % f)
            out.append((f, parse_record(read(os.path.join(d, f))), parse_store(read(s))))
    return out


def totals(d):
    """(sum of recorded stores, Counter of recorded blocks), merged here, not by the merger"""
    cnt, blocks = Counter(), Counter()
    for _, rec, sto in pairs(d):
        cnt.update(sto)
        blocks.update(b for b in rec)
    return cnt, blocks


_blocks, _blocks_lock = {}, threading.Lock()


def config_blocks(fam):
    """the blocks that a survey of the family hands out, asked from the enumeration itself (whose set of polynomials C06
    judges), without pool and store; None if it cannot be asked"""
    k = (fam.p, fam.r, fam.g, int(fam.marked), fam.package)
    with _blocks_lock:
        if k not in _blocks:
            exe = build([("blocklist", "rel")])[("blocklist", "rel")]
            r = run_retry([exe], timeout=100, stdin=("%d %d %d %d %d\n" % k).encode())
            L = r.out.splitlines()
            _blocks[k] = Counter(parse_record("".join(l + "\n" for l in L[:-1]))) if r.rc == 0 and L and L[-1] == "end" else None
        return _blocks[k]


def block_fault(fam, bl):
    """what is wrong with the recorded blocks of a complete survey"""
    want = config_blocks(fam)
    if want is None:
        return "a block is recorded twice: %r" % (max(bl, key=bl.get),) if any(v > 1 for v in bl.values()) else None
    for what, x in (("not recorded", want - bl), ("recorded too often, or none of the survey's", bl - want)):
        if x:
            return "%d of %d blocks %s, such as %s" % (sum(x.values()), sum(want.values()), what, min(x))
    return None


def differ(got, want):
    """first difference of two counters"""
    for k in sorted(set(got) | set(want)):
        if got.get(k, 0) != want.get(k, 0) or (k in got) != (k in want):
            return "%s: %s instead of %s" % (k, got.get(k), want.get(k))
    return None


def merge(exe, d, out, timeout=60, env=None):
    """(rc, Counter, set of blocks) by the program's merger"""
    r = run_retry([exe, d, out], timeout=timeout, env=env)
    if r.timed_out:
        return "timeout", None, None
    if r.rc != 0:
        return r.rc, None, None
    return 0, parse_store(read(out + ".hycu_store")), parse_record(read(out + ".hycu_record"))


def snapshot(d):
    """contents of a directory tree"""
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def block_sizes(blocks):
    n = 0
    for b in blocks:
        s = 1
        for lo, hi in b:
            s *= hi - lo
        n += s
    return n
