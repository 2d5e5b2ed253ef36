import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool

MODES = ["", "--naivenmod", "--naivezech"]


def isprime(n):
    if n < 2:
        return False
    d = 2
    while d * d <= n:
        if n % d == 0:
            return False
        d += 1
    return True


def parse(out):
    """The printed answer: (terms {exponent: coefficient}, field, exponents, counts, offsets, ramification)."""
    m = re.match(r"\s*Y\^2 = (.*?)\s*/\s*F_(\d+)\s*\ncoefficient exponents:([^\n]*)\nnumber of points:([^\n]*)\nhasse-weil offsets:([^\n]*)\nramification type:([^\n]*)\n?\s*$", out)
    if not m:
        raise ValueError("the answer cannot be read")
    terms = {}
    for t in m.group(1).split("+"):
        k = re.fullmatch(r"\s*\((\d+)\)\*X\^(\d+)\s*", t)
        if not k or int(k.group(2)) in terms:
            raise ValueError("the polynomial cannot be read")
        terms[int(k.group(2))] = int(k.group(1))
    ints = lambda s: [int(x) for x in s.replace(";", " ").replace(",", " ").split()]
    n = ints(m.group(4))
    if len(n) % 2:
        raise ValueError("number of points cannot be read")
    return terms, int(m.group(2)), ints(m.group(3)), list(zip(n[::2], n[1::2])), ints(m.group(5)), ints(m.group(6))


def generators(p):
    """A generator of the multiplicative group, by factoring p-1."""
    n, fs, d = p - 1, [], 2
    while d * d <= n:
        if n % d == 0:
            fs.append(d)
            while n % d == 0:
                n //= d
        d += 1
    if n > 1:
        fs.append(n)
    return fs


def main_():
    c = Check("C18", "exploration",
              "hycu-single is run as a program, in all of its CPU implementations, on seeded random coefficients of many shapes (reduced or not, negative, "
              "with zeros in front, 64 bit large) over primes up to 2*10^6, and what it prints is held against an independent oracle: polynomial, "
              "discrete logarithms (they must be those of one primitive root), counts, offsets, ramification type. Input that defines no curve must end with "
              "a failure status. Distinct = distinct (implementation, p, coefficients as given) and refusals.",
              ["harness/ref_field.hh is right", "naive implementations are given primes below 2^16, for which Conway polynomials exist"])
    q = TIER == "quick"
    exe = build([("single", "rel")])[("single", "rel")]
    orc = tool("single_oracle")
    R = random.Random(SEED * 7919 + 18)
    small = [p for p in range(3, 400) if isprime(p)]
    mid = [p for p in range(400, 5000) if isprime(p)]
    large = [p for p in [8191, 32749, 46337, 46349, 65519, 65521, 65537, 65539, 92681, 92693, 99991, 109987, 110017, 131071, 262147, 524287, 524309, 1000003, 1048583, 1999993] if isprime(p)]

    def raw(p, x):
        """some integer that is x modulo p"""
        k = R.random()
        if k < .5:
            return x
        if k < .7:
            return x + p * R.randint(1, 5)
        if k < .85:
            return x - p * R.randint(1, 5)
        if k < .95:
            return x + p * R.randrange(-(2 ** 31) // p, 2 ** 31 // p + 1)
        if k < .97:    # the numbers next to the ends of the range
            lo, hi = -2 ** 63, 2 ** 63 - 1
            return lo + (x - lo) % p if R.random() < .5 else hi - (hi - x) % p
        return x + p * R.randrange(-(2 ** 63 - 1) // p + 2, (2 ** 63 - 1) // p - 2)

    def poly(p, d):
        shape = R.randrange(6)
        f = [R.randrange(p) for _ in range(d)] + [R.randrange(1, p)]
        for i in range(d):
            if shape == 1 and R.random() < .6: f[i] = 0
            if shape == 2: f[i] = R.randrange(2)
            if shape == 3 and (d - i) % 2: f[i] = 0
            if shape == 4 and R.random() < .5: f[i] = p - 1
        if R.random() < .3: f[0] = R.choice([0, 1, p - 1])
        if R.random() < .4: f[d] = R.choice([1, p - 1])
        return f

    cases, seen = [], set()
    limit = 400000 if q else 5000000

    def case(p, f, mode, given=None):
        g = (len(f) - 2) // 2 if len(f) % 2 == 0 else (len(f) - 3) // 2
        if given is None:
            given = [raw(p, x) for x in f] + [raw(p, 0) for _ in range(R.choice([0, 0, 0, 1, 2, 5] + [R.randint(6, 200)] * (R.random() < .2)))]
        cases.append((p, g, f, mode, given))

    # every shape over the smallest fields
    for p in (3, 5):
        for d in (1, 2, 3) + ((4,) if p == 3 else ()):
            n = p ** d * (p - 1)
            for i in range(n):
                f, k = [], i
                for _ in range(d):
                    f.append(k % p); k //= p
                f.append(k + 1)
                if n < 200 or R.random() < (150 if q else n) / n:
                    case(p, f, MODES[i % 3])
    n = 0
    while n < (900 if q else 20000):
        p = R.choice(R.choice([small[:6], small[:20], small, mid]))
        d = R.randint(1, 10)
        g = (d - 1) // 2
        if p ** max(g, 1) > limit:
            continue
        mode = R.choice(MODES)
        if mode and p ** max(g, 1) > limit / 8:
            continue
        case(p, poly(p, d), mode); n += 1
    for p in small[:12] + large[:3]:
        for e in (-2 ** 63, 2 ** 63 - 1, -2 ** 63 + 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 32 - 1, -2 ** 32):
            for at in (0, 1, 2, 3):
                given = [R.randrange(p) for _ in range(3)] + [R.randrange(1, p)]
                given[at] = e
                f = [x % p for x in given]
                while f and f[-1] == 0: f.pop()
                if len(f) > 1:
                    case(p, f, "", given)
    for p in large:
        for d in (1, 2, 3, 4):
            case(p, poly(p, d), "" if p > 65521 else R.choice(MODES))
    if not q:
        for p in (1009, 2003, 3001, 4999):
            for d in (5, 6):
                case(p, poly(p, d), "")
        for d in (7, 8):
            case(251, poly(251, d), "")
        case(3, poly(3, 30), "")
    c.add("oracle_lines", len(cases))
    # the oracle, in batches by size
    order = sorted(range(len(cases)), key=lambda i: (cases[i][0], cases[i][1]))
    batch = [order[i::8] for i in range(8)]
    answers = {}

    def ask(ix):
        txt = "".join("%d %d %s\n" % (cases[i][0], cases[i][1], " ".join(map(str, cases[i][2]))) for i in ix)
        r = run([orc], stdin=txt.encode(), timeout=800 if q else 6000)
        lines = r.out.split("\n")
        if r.rc != 0 or len(lines) != len(ix) + 1:
            raise HarnessError("oracle: %s %s" % (r.rc, r.err[-300:]))
        for i, l in zip(ix, lines):
            answers[i] = [int(x) for x in l.split()]
    parallel([lambda b=b: ask(b) for b in batch])

    def logs_ok(p, f, ex, facs):
        """The exponents are logarithms of the coefficients to one primitive root."""
        N = p - 1
        for x, e in zip(f, ex):
            if (x == 0) != (e == N) or e > N:
                return False
        nz = [(x, e) for x, e in zip(f, ex) if x]
        if p <= 5000:
            for h in range(1, p):
                if all(pow(h, e, p) == x for x, e in nz) and all(pow(h, N // l, p) != 1 for l in facs):
                    return True
            return False
        # pairs must agree: x^e' = y^e, and orders must match: order of x is N / gcd(e, N)
        import math
        for x, e in nz:
            o = N // math.gcd(e, N) if e else 1
            if pow(x, o, p) != 1 or any(o % l == 0 and pow(x, o // l, p) == 1 for l in facs):
                return False
            for y, e2 in nz:
                if pow(x, e2, p) != pow(y, e, p):
                    return False
        return True

    def one(i):
        p, g, f, mode, given = cases[i]
        ans = answers[i]
        neg = any(x < 0 for x in given)
        args = [str(p)] + [str(x) for x in given]
        cmd = [exe] + ([mode] if mode else []) + (["--"] if neg or i % 3 == 0 else []) + args
        if mode and not neg and i % 2:
            cmd = [exe] + args + [mode]
        r = run_retry(cmd, timeout=60 if q else 600)
        c.ev(); c.add("runs"); c.add("mode_" + (mode or "tables"))
        what = " ".join(cmd[1:])

        def bad(key, txt):
            c.violation(key, "hycu-single %s: %s; printed %r" % (what, txt, r.out[-700:]), {"cmd": cmd})
        if r.timed_out:
            return bad("no_end", "does not end")
        if r.rc != 0:
            return bad("fails", "ends with %d %s" % (r.rc, r.err[-400:]))
        try:
            terms, fld, ex, pts, off, ram = parse(r.out)
        except ValueError as e:
            return bad("unreadable", str(e))
        if fld != p or {k: v for k, v in terms.items() if v} != {k: v for k, v in enumerate(f) if v} or max(terms) != len(f) - 1:
            return bad("polynomial", "does not print the polynomial %s over F_%d" % (f, p))
        if len(ex) != len(f) or not logs_ok(p, f, ex, generators(p)):
            return bad("exponents", "exponents %s are not the logarithms of %s" % (ex, f))
        c.add("polynomials")
        if not ans[0]:
            c.add("not_squarefree")
            return
        want = list(zip(ans[1:1 + 2 * g:2], ans[2:2 + 2 * g:2]))
        if pts != want:
            return bad("points", "there are %s points" % want)
        if off != [p ** (k + 1) + 1 - u - v for k, (u, v) in enumerate(want)]:
            return bad("offsets", "the offsets of %s are others" % want)
        if sorted(ram) != sorted(ans[1 + 2 * g:]):
            return bad("ramification", "the ramification type is %s" % ans[1 + 2 * g:])
        c.add("counts", g); c.nontrivial((mode, p, tuple(given)))
        c.sample("hycu-single %s -> %s" % (what, r.out.replace("\n", " | ")))

    def refuse(name, args):
        r = run_retry([exe] + args, timeout=20)
        c.ev(); c.add("refusals"); c.nontrivial((name, tuple(args)))
        if r.timed_out:
            c.violation("refusal_no_end", "hycu-single %s (%s) does not end" % (args, name), {"args": args})
        elif r.rc in (-4, -7, -8, -9, -11):
            c.violation("refusal_crash", "hycu-single %s (%s) dies of signal %d" % (args, name, -r.rc), {"args": args})
        elif r.rc == 0:
            c.violation("accepted", "hycu-single %s (%s) ends with success: %s" % (args, name, r.out[:400]), {"args": args})
        elif "number of points" in r.out:
            c.violation("answered", "hycu-single %s (%s) fails with an answer: %s" % (args, name, r.out[:400]), {"args": args})

    todo = [lambda i=i: one(i) for i in sorted(range(len(cases)), key=lambda i: -cases[i][0] ** max(1, cases[i][1]))]
    for n in [0, 1, 2, 4, 6, 8, 9, 15, 21, 25, 27, 49, 91, 121, 341, 561, 1105, 1729, 2047, 2821, 3277, 65535, 65536, 1373653, 25326001, 4294967294, 4294967295]:
        for mode in MODES:
            for co in (["1", "2", "3", "1"], ["1", "0", "0", "0", "0", "1"]):
                todo.append(lambda n=n, co=co, mode=mode: refuse("no odd prime", [x for x in [mode] if x] + [str(n)] + co))
    for p in ("3", "7", "101", "65537"):
        for co in ([], ["0"], ["1"], ["1", "0"], ["0", "0", "0"], ["5", p], ["5", p, "0", p], ["2", str(3 * int(p))], ["1", "--", "-" + p], ["--", "3", "-" + p, "0", "-" + str(5 * int(p))], ["--", "-" + p, "-" + p], ["4"] + ["0"] * 90 + [p],
                   ["--", "2", str(-2 ** 63 + 2 ** 63 % int(p))], ["2", str(2 ** 63 - 1 - (2 ** 63 - 1) % int(p))]):
            todo.append(lambda p=p, co=co: refuse("constant", [p] + co))
            todo.append(lambda p=p, co=co: refuse("constant", ["--naivenmod", p] + co))
    for a in ([], ["seven", "1", "1", "1"], ["7", "1", "x", "1"], ["7", "1", "1.5", "1"], ["7", "1", "", "1"], ["7.0", "1", "1", "1"], ["7", "1", "99999999999999999999", "1"], ["99999999999999999999", "1", "1", "1"],
              ["--", "-7", "1", "1", "1"], ["7", "1", "1", "1", "1", "--naivenmod", "--naivezech"], ["7", "1", "1", "1", "1", "--nosuch"]):
        todo.append(lambda a=a: refuse("unusable", a))
    parallel(todo)
    c.finish()


main(main_)
