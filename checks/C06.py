import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build
from vlib.fields import *


def main_():
    c = Check("C06", "exploration",
              "For small (q, genus, marked point) all polynomials are partitioned into classes under X -> aX+b and scaling, and each "
              "squarefree class must carry exactly its size in weights; for larger ones the total mass and random whole classes are "
              "checked; package sizes 1, 2, 3, q-1, q, q+1, q^2, huge and random must give the same set. "
              "Distinct = distinct squarefree classes and mass formulas.",
              ["reference arithmetic in harness/ref_field.hh is right"])
    exe = build([("enumeration", "rel")])[("enumeration", "rel")]
    q = TIER == "quick"
    jobs = []
    O = [(3, 1, 1), (3, 1, 2), (3, 1, 3), (3, 1, 4), (3, 1, 5), (5, 1, 1), (5, 1, 2), (5, 1, 3), (7, 1, 1), (7, 1, 2), (3, 2, 1), (3, 2, 2), (11, 1, 1), (13, 1, 1), (17, 1, 1), (19, 1, 1), (5, 2, 1)]
    if not q:
        O += [(3, 1, 6), (3, 3, 1), (23, 1, 1), (29, 1, 1), (7, 1, 3), (11, 1, 2), (5, 1, 4)]
    for p, r, g in O:
        for m in (0, 1):
            jobs.append(dict(p=p, r=r, g=g, marked=m, mode="orbits", seed=SEED, cost=(p ** r) ** (2 * g + 3 - m)))
    M = [(3, 3, 1, 0), (7, 2, 1, 0), (31, 1, 1, 0), (37, 1, 1, 1), (13, 1, 2, 0), (11, 1, 2, 0), (17, 1, 2, 1), (7, 1, 3, 1), (3, 1, 5, 0), (3, 2, 3, 1), (5, 1, 4, 0), (5, 2, 2, 1), (61, 1, 1, 0), (47, 1, 1, 0), (7, 1, 3, 0), (3, 1, 6, 0), (3, 1, 6, 1)]
    if not q:
        M += [(101, 1, 1, 0), (11, 2, 1, 0), (3, 1, 7, 0), (3, 2, 3, 0), (5, 1, 5, 0), (7, 1, 4, 1), (11, 1, 3, 1), (13, 1, 3, 1), (23, 1, 2, 0), (31, 1, 2, 1), (251, 1, 1, 0), (7, 2, 2, 1), (3, 4, 1, 0), (3, 5, 1, 0)]
    for p, r, g, m in M:
        jobs.append(dict(p=p, r=r, g=g, marked=m, mode="sample", samples=12 if q else 40, seed=SEED, cost=8 * (p ** r) ** (2 * g - m) + 10 ** 6))
    # multiplicities beyond 32 and 64 bit
    for p, r, m in [(1009, 1, 1), (2003, 1, 1), (4099, 1, 1), (65521, 1, 1), (131101, 1, 1), (3, 9, 1), (5, 6, 1), (251, 1, 0)] + ([] if q else [(1009, 1, 0), (1000003, 1, 1), (3, 12, 1), (1021, 2, 1)]):
        jobs.append(dict(p=p, r=r, g=1, marked=m, mode="mass", seed=SEED, cost=(p ** r) ** (2 - m) * 20))
    # whole classes where the enumeration is too long to be listed: every distance between exponents, in genus 3 to 8
    K = [(p, 1, g, m) for p in (11, 13, 17, 19, 23, 29, 31, 37, 43) for g in range(2, 9) for m in (0, 1) if p ** (2 * g + 1 - m) < 5e15]
    K += [(p, r, g, m) for p, r in [(3, 1), (5, 1), (7, 1), (3, 2), (5, 2), (3, 3), (7, 2), (3, 4)] for g in range(1, 13) for m in (0, 1) if 10 ** 4 < (p ** r) ** (2 * g + 1 - m) < 5e15]
    if not q:
        K += [(p, r, g, m) for p, r in [(41, 1), (47, 1), (61, 1), (71, 1), (97, 1), (101, 1), (11, 2), (5, 3)] for g in (1, 2, 3) for m in (0, 1) if p ** (2 * g + 1 - m) < 5e15]
    for p, r, g, m in K:
        jobs.append(dict(p=p, r=r, g=g, marked=m, mode="classes", per=1 if q else 6, seed=SEED, cost=2 * g * g * (p ** r) ** 3 * (1 if q else 6)))
    # several fields in one process, in turn and at the same time
    for i in range(2 if q else 6):
        jobs.append(dict(p=7, r=1, several="3:1:1/5:1:1/3:2:1/7:1:1/11:1:1/13:1:1", passes=2, threads=[1, 4][i % 2], g=1, marked=i // 2 % 2, mode="sample", samples=5, seed=SEED + i, cost=10 ** 7))
    jobs.sort(key=lambda k: -k["cost"])
    for k in jobs:
        del k["cost"]
    run_jobs(c, exe, jobs, "enumeration", 120 if q else 3000)
    c.finish()


main(main_)
