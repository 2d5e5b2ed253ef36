"""What sanitizers and valgrind say about a run."""
import os, re
from .build import SRC

VALGRIND = ["valgrind", "-q", "--error-exitcode=77", "--fair-sched=yes", "--track-origins=yes", "--num-callers=30"]
VG = r"(Invalid (?:read|write|free)[^\n]*|Conditional jump or move depends on uninit[^\n]*|Use of uninit[^\n]*|Syscall param [^\n]*(?:uninit|unaddress)[^\n]*|Mismatched free[^\n]*|Source and destination overlap[^\n]*|Argument '[^\n]*fishy[^\n]*|Jump to the invalid[^\n]*)"


def frame(text):
    """the innermost frame in the code under test"""
    for m in re.finditer(r"(?:#\d+ 0x[0-9a-f]+ in |(?:at|by) 0x[0-9A-F]+: )([^\n]*)", text):
        k = re.search(r"([\w.]+\.(?:cc|hh)):(\d+)", m.group(1))
        if k and os.path.basename(k.group(1)) not in ("libshim.cc",) and (SRC in m.group(1) or any(k.group(1) in fs for _, _, fs in os.walk(SRC))):
            return k.group(1)
    return ""


def memory_error(r, valgrind=False):
    """(kind, text) if the run shows a memory error or undefined behaviour"""
    t = r.err + "\n" + r.out
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", t)
    if m and m.group(1) not in ("out-of-memory", "allocation-size-too-big", "failed"):
        return "asan:" + m.group(1) + ":" + frame(t[m.start():m.start() + 6000]), t[m.start():m.start() + 3000]
    m = re.search(r"([^\n]*)runtime error: ([^\n]*)", t)
    if m:
        k = re.search(r"([\w.]+):\d+:\d+:", m.group(1))
        return "ubsan:" + re.sub(r"[-\d.e+]+|'[^']*'|0x[0-9a-f]+", "#", m.group(2))[:60] + ":" + (k.group(1) if k else ""), t[m.start():m.start() + 2500]
    m = re.search(r"[^\n]*Assertion '[^\n]*' failed", t)
    if m:
        return "assertion:" + (re.search(r"Assertion '([^\n]*)' failed", m.group(0)).group(1))[:60], m.group(0)[:2000]
    m = re.search(r"double free or corruption|munmap_chunk\(\)|free\(\): invalid|malloc\(\): [^\n]*|corrupted size|stack smashing detected|realloc\(\): invalid", t)
    if m:
        return "heap:" + m.group(0)[:30], t[max(0, m.start() - 200):m.start() + 1500]
    if valgrind:
        m = re.search(r"==\d+== " + VG, t)
        if m:
            return "valgrind:" + re.sub(r"\d+", "#", m.group(1))[:60] + ":" + frame(t[m.start():m.start() + 4000]), t[m.start():m.start() + 3500]
    if r.rc in (-11, -7, -8, -4, 139, 135, 136, 132):
        return "signal:%d" % r.rc, "ends by signal %d: %s" % (r.rc, r.err[-1500:])
    return None
