import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build
from vlib.fields import *


def main_():
    c = Check("C03", "exploration",
              "Random polynomials (dense, products of small factors, with squares, in x^p) over F_q; ramification type asked after "
              "every or random sets of extensions were counted in random order, and all derived invariants compared with independent "
              "factorization and point counts. Distinct = distinct (q, f).",
              ["reference arithmetic in harness/ref_field.hh is right"])
    exe = build([("invariants", "rel")])[("invariants", "rel")]
    q = TIER == "quick"
    jobs = []
    for p, r, n in fields(20000 if q else 300000):
        jobs.append(dict(p=p, r=r, maxn=n, curves=100 if q else 300, maxdeg=9, seed=SEED))
    # many small extensions, so that the ramification type follows from the counts alone
    for p, r, n, d in [(3, 1, 8, 9), (3, 1, 9, 10), (5, 1, 5, 6), (5, 1, 6, 7), (7, 1, 4, 8), (3, 2, 4, 5), (3, 1, 4, 14), (5, 1, 3, 14), (3, 2, 2, 12), (7, 1, 2, 16), (3, 1, 1, 16), (11, 1, 1, 16)]:
        for k in range(1 if q else 8):
            jobs.append(dict(p=p, r=r, maxn=n, curves=120 if q else 200, maxdeg=d, seed=SEED + 50 + k))
    # many fields in one process, in turn and at the same time
    for i in range(3 if q else 12):
        jobs.append(dict(several=several(3000 if q else 20000, SEED * 10 + i, 14), passes=2, threads=[1, 4, 1][i % 3], curves=25 if q else 60, maxdeg=9, seed=SEED + i, p=7, r=1, maxn=6))
    # high degrees
    for p, r, n, d in [(3, 1, 5, 70), (7, 1, 4, 40), (5, 2, 2, 40), (101, 1, 2, 40), (1009, 1, 1, 130), (3, 3, 2, 200)]:
        jobs.append(dict(p=p, r=r, maxn=n, curves=30 if q else 100, maxdeg=d, seed=SEED))
    jobs.sort(key=lambda k: -(k["p"] ** (k["r"] * k["maxn"])) * k["curves"])
    run_jobs(c, exe, jobs, "invariants", 120 if q else 2400)
    c.finish()


main(main_)
