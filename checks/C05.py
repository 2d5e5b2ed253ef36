import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build
from vlib.fields import *


def main_():
    c = Check("C05", "exploration",
              "All products of up to three small ranges with every package size, and random specifications of up to eighteen ranges, sets "
              "and dependent sets of up to 700 elements with random package sizes (also ranges up to 2^30): every visited position, package, sub-iterator "
              "and copy is compared with a plain product. Distinct = distinct specifications.",
              ["as documented in the source: no range or set is empty, sets have no repetitions, and dependent sets depend on sets, or on ranges when the package size is 1"])
    exe = build([("blocks", "rel")])[("blocks", "rel")]
    q = TIER == "quick"
    run_jobs(c, exe, [dict(shard=i, specs=2000 if q else 40000, maxpos=2000 if q else 6000, seed=SEED) for i in range(8)], "blocks", 120 if q else 2400)
    c.finish()


main(main_)
