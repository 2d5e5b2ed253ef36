import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build
from vlib.fields import *


def main_():
    c = Check("C04", "exploration",
              "For every odd prime power below a bound and selected larger ones, the whole table is read: bijection, consecutive powers "
              "(linear recurrence of the generator), ranges, coset systems for many n, and conversion of every exponent to each extension "
              "(additive and multiplicative). Distinct = distinct fields and field extensions.",
              ["fields of order up to about 10^6"])
    exe = build([("fieldtab", "rel")])[("fieldtab", "rel")]
    q = TIER == "quick"
    lim = 600 if q else 5000
    small = [p for p in range(3, lim) if all(p % d for d in range(2, int(p ** .5) + 1))]
    jobs = []
    for p in small:
        for r in range(1, 7):
            if p ** r >= lim:
                break
            n = 1
            while p ** (r * (n + 1)) <= (30000 if q else 300000):
                n += 1
            jobs.append(dict(p=p, r=r, maxn=n, seed=SEED))
    for p, r in [(4099, 1), (8191, 1), (32749, 1), (65521, 1), (65537, 1), (65539, 1), (109987, 1), (110017, 1), (131101, 1), (3, 11), (251, 2), (47, 3)] + \
            ([] if q else [(1000003, 1), (524287, 1), (200003, 1), (150001, 1), (262147, 1), (1021, 2), (3, 12), (101, 3), (5, 8), (4099, 2)]):
        jobs.append(dict(p=p, r=r, maxn=1, seed=SEED))
    # many fields in one process, in turn and at the same time
    for i in range(3 if q else 12):
        jobs.append(dict(several=several(3000 if q else 20000, SEED * 10 + i, 20), passes=2, threads=[1, 4, 1][i % 3], seed=SEED + i, p=7, r=1, maxn=6))
    jobs.sort(key=lambda k: -(k["p"] ** (k["r"] * k["maxn"])))
    run_jobs(c, exe, jobs, "fieldtab", 120 if q else 2400)
    c.finish()


main(main_)
