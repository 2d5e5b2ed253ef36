import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build


def main_():
    c = Check("C08", "exploration",
              "Random result texts (counts from 0 to thousands of digits, with the edges of 31, 32, 62, 63, 64 and 128 bits, repeated and nearly "
              "equal invariants, several files) and random record sets pass through extract and insert and are compared with a model in GMP "
              "integers; the same under address and undefined-behaviour sanitizers. Distinct = distinct result texts and records.",
              ["GMP arithmetic is right"])
    q = TIER == "quick"
    exe = build([("formats", "rel"), ("formats", "asan")])
    n = 400 if q else 6000
    jobs = [("rel", SEED * 100 + k, n * 3) for k in range(6)] + [("asan", SEED * 100 + 50 + k, n) for k in range(2)]
    # and long ones
    jobs = [j + (30,) for j in jobs] + [("rel", SEED * 100 + 70 + k, 4 if q else 40, 60000) for k in range(2)] + [("asan", SEED * 100 + 80, 3, 20000)]
    jobs = [j + (3000 if q else 30000,) for j in jobs] + [("rel", SEED * 100 + 90, 200, 5, 80000), ("asan", SEED * 100 + 91, 60, 5, 80000)]
    parallel([lambda f=f, s=s, m=m, z=z, d=d: harness(c, [exe[("formats", f)], "seed", str(s), "rounds", str(m), "digits", str(d), "size", str(z)],
                                            timeout=150 if q else 2500, label="formats " + f) for f, s, m, z, d in jobs])
    c.finish()


main(main_)
