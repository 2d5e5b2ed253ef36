#!/usr/bin/env python3
"""Precomputes data/census/*.gz with harness/census.cc (brute force, independent of the program)."""
import gzip, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.build import tool
# (p, r, genus, n)
FAM = [(3, 1, 1, 4), (3, 1, 2, 5), (3, 1, 3, 5), (3, 1, 4, 4), (5, 1, 1, 4), (5, 1, 2, 4), (5, 1, 3, 3), (7, 1, 1, 4), (7, 1, 2, 3), (3, 2, 1, 3), (3, 2, 2, 2),
       (11, 1, 1, 3), (11, 1, 2, 2), (13, 1, 1, 3), (13, 1, 2, 2), (5, 2, 1, 2), (3, 3, 1, 2), (7, 2, 1, 1), (17, 1, 1, 3), (19, 1, 1, 2), (23, 1, 1, 2), (29, 1, 1, 2), (31, 1, 1, 2), (37, 1, 1, 2), (3, 4, 1, 1), (101, 1, 1, 1)]
exe = tool("census")
os.makedirs(os.path.join(V, "data", "census"), exist_ok=True)
jobs = []
for p, r, g, n in FAM:
    q = p ** r
    for d in (2 * g + 1, 2 * g + 2):
        jobs.append((q ** (d - (d % p != 0)) * q ** n, p, r, d, n))
def go(j):
    _, p, r, d, n = j
    f = os.path.join(V, "data", "census", "%d_%d_%d_%d.gz" % (p, r, d, n))
    if os.path.exists(f): return
    out = subprocess.run([exe, str(p), str(r), str(d), str(n)], stdout=subprocess.PIPE, check=True).stdout
    with open(f + ".tmp", "wb") as h:
        h.write(gzip.compress(out, 9, mtime=0))
    os.replace(f + ".tmp", f)
    print(f, len(out), flush=True)
with ThreadPoolExecutor(7) as ex:
    list(ex.map(go, sorted(jobs)))
