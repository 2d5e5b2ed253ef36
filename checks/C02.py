import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build
from vlib.fields import *


def main_():
    c = Check("C02", "exploration",
              "Random squarefree f over F_q with a random set of extensions, counted by tables, naive nmod, naive Zech and a mixture, "
              "each in its own random order; counts, offsets, ramification types and largest exponents are compared. "
              "Distinct = distinct (q, f, extensions).",
              ["primes with Conway polynomial below 2^16, which all implementations accept"])
    exe = build([("naive", "rel")])[("naive", "rel")]
    q = TIER == "quick"
    jobs = []
    for p, r, n in fields(3000 if q else 200000, PRIMES + [1009, 1999, 2003], maxr=1):
        for k in range(1 if q else 3):
            jobs.append(dict(p=p, maxn=n, curves=(60 if q else 40) if p ** n > 500 else 150, maxdeg=10, seed=SEED + 100 * k))
    # base fields that are not prime
    for p, r, n in fields(8000 if q else 200000):
        if r > 1:
            jobs.append(dict(p=p, r=r, maxn=n, curves=(20 if q else 60) if p ** r > 500 else 60, maxdeg=10, seed=SEED))
    for p, r in [(257, 2), (47, 3), (521, 2)] + ([] if q else [(3, 11), (1021, 2), (19, 4)]):
        jobs.append(dict(p=p, r=r, maxn=1, curves=6 if q else 20, maxdeg=8, seed=SEED))
    for p in [4099, 8191, 32749, 46337, 46349, 65521]:
        jobs.append(dict(p=p, maxn=1, curves=3 if q else 30, maxdeg=7, seed=SEED))
    # high degrees
    for p, r, n, d in [(3, 1, 5, 70), (7, 1, 4, 40), (5, 2, 2, 40), (101, 1, 2, 40), (1009, 1, 1, 130), (3, 3, 2, 200)]:
        jobs.append(dict(p=p, r=r, maxn=n, curves=12 if q else 60, maxdeg=d, seed=SEED))
    jobs.append(dict(p=3, maxn=9, curves=5, maxdeg=12, seed=SEED))
    jobs.append(dict(p=181, maxn=2, curves=3, maxdeg=8, seed=SEED))
    jobs.append(dict(p=37, maxn=3, curves=3, maxdeg=8, seed=SEED))
    # above 2^24
    jobs.append(dict(p=4099, r=1, maxn=2, huge=1, curves=1, maxdeg=5, seed=SEED, _t=240))
    if not q:
        jobs.append(dict(p=4099, r=1, maxn=2, onlymax=1, curves=2, maxdeg=5, seed=SEED, _t=240))
        jobs.append(dict(p=1021, maxn=2, curves=3, maxdeg=8, seed=SEED))
    # many fields in one process, in turn and at the same time
    for i in range(3 if q else 12):
        jobs.append(dict(several=several(1000 if q else 5000, SEED * 10 + i, 12), passes=2, threads=[1, 4, 1][i % 3], curves=10 if q else 40, maxdeg=9, seed=SEED + i, p=7, r=1, maxn=6))
    jobs.sort(key=lambda k: -(k["p"] ** (k.get("r", 1) * k["maxn"])) * k["curves"])
    run_jobs(c, exe, jobs, "naive", 120 if q else 2400)
    c.finish()


main(main_)
