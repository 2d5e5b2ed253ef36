import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build
from vlib.fields import *


def main_():
    c = Check("C01", "exploration",
              "Squarefree polynomials f over F_q (all of small degree over small fields; seeded random dense, sparse, even, "
              "0/1 ones else) counted by tables in random order, several curves at a time, and again; each count is compared "
              "with a brute-force evaluation in independent field arithmetic. Distinct = distinct (q, f).",
              ["the field order stays below 2.1*10^7 here", "reference arithmetic in harness/ref_field.hh is right"])
    exe = build([("points", "rel")])[("points", "rel")]
    q = TIER == "quick"
    jobs = []

    def job(**kw):
        kw["seed"] = SEED
        jobs.append(kw)
    # exhaustive
    for p, r, n, lo, hi in [(3, 1, 5, 3, 6), (5, 1, 3, 3, 4), (7, 1, 2, 3, 3), (3, 2, 2, 3, 3)] + \
            ([] if q else [(3, 1, 4, 7, 8), (5, 1, 2, 5, 5), (7, 1, 2, 4, 4), (11, 1, 1, 3, 3), (13, 1, 1, 3, 3), (5, 2, 1, 3, 3)]):
        job(p=p, r=r, maxn=n, mindeg=lo, maxdeg=hi, all=1, curves=30)
    # random
    lim = 60000 if q else 2000000
    for p, r, n in fields(lim):
        for k in range(1 if q else 4):
            job(p=p, r=r, maxn=n, curves=60 if q else 100, maxdeg=12, seed=SEED + 7 * k)
    for p in [1009, 4099, 8191, 32749, 46337, 65521, 65537, 109987, 110017, 131101, 1000003]:
        job(p=p, r=1, maxn=1, curves=12 if q else 80, maxdeg=9)
    # large tables
    for p, r, n in [(3, 1, 12), (1021, 1, 2), (101, 1, 3)] + ([] if q else [(3, 2, 7), (5, 1, 10), (11, 1, 7), (4093, 1, 2), (13, 3, 2), (251, 1, 3)]):
        job(p=p, r=r, maxn=n, onlymax=1, curves=4 if q else 12, maxdeg=9)
    # many fields in one process, in turn and at the same time
    for i in range(3 if q else 12):
        job(several=several(3000 if q else 20000, SEED * 10 + i, 14), passes=2, threads=[1, 4, 1][i % 3], curves=12 if q else 40, maxdeg=9, p=7, r=1, maxn=6)
    # high degrees
    for p, r, n, d in [(3, 1, 5, 70), (7, 1, 4, 40), (5, 2, 2, 40), (101, 1, 2, 40), (1009, 1, 1, 130), (3, 3, 2, 300)]:
        job(p=p, r=r, maxn=n, curves=30 if q else 300, maxdeg=d)
    # above 2^24
    job(p=4099, r=1, maxn=2, onlymax=1, curves=2 if q else 6, maxdeg=9, _t=260)
    if not q:
        job(p=257, r=1, maxn=3, onlymax=1, curves=3, maxdeg=9)
        job(p=67, r=2, maxn=2, onlymax=1, curves=2, maxdeg=9)
    jobs.sort(key=lambda k: -(k["p"] ** (k["r"] * k["maxn"])) * k["curves"])

    run_jobs(c, exe, jobs, "points", 150 if q else 2400)
    c.finish()


main(main_)
