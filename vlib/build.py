"""Builds the code under test from /repo's current working tree, and the harnesses of /verif.

Objects are cached under /verif/build by the hash of everything that goes into them
(all headers of the source tree, the source file, the compiler flags), so a changed
tree is always rebuilt and an unchanged one is not.
"""
import itertools
import hashlib, os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HYCU_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

# headers the sources use without including them (the same list as the project's build here)
FORCED = ["string", "flint/ulong_extras.h", "flint/fmpz.h", "flint/nmod_poly.h",
          "flint/nmod_poly_factor.h", "flint/fq_nmod_poly.h", "flint/fq_nmod_poly_factor.h",
          "boost/serialization/vector.hpp"]
FORCED_FLAGS = [x for h in FORCED for x in ("-include", h)]

BASE = ["-g", "-w", "-pthread", "-I", SRC, "-I", HARNESS]
FLAVORS = {
    # name: (compiler, compile flags, link flags)
    # uninitialized variables hold a pattern (so does memory, by MALLOC_PERTURB_, see report.run)
    "rel":  ("g++", ["-O2", "-ftrivial-auto-var-init=pattern"], []),
    # for valgrind, which is to see uninitialized variables
    "vg":   ("g++", ["-O1", "-fno-omit-frame-pointer"], []),
    "asan": ("clang++", ["-O1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
                     "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
             ["-fsanitize=address,undefined,float-cast-overflow"]),
    "tsan": ("clang++", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "ocl":  ("g++", ["-O2", "-DWITH_OPENCL", "-I", os.path.join(HARNESS, "oclshim")], ["-lOpenCL"]),
}
LIBS = ["-lboost_filesystem", "-lboost_program_options", "-lboost_system", "-lyaml-cpp",
        "-lflint", "-lgmp", "-pthread"]
MPI_LIBS = ["-lboost_mpi", "-lboost_serialization", "-lmpi_cxx", "-lmpi"]
MPI_INC = ["-I", "/usr/lib/x86_64-linux-gnu/openmpi/include",
           "-I", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]


class BuildError(Exception):
    pass


def _walk(d, exts):
    out = []
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(root, f))
    return out


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr_cache = {}


def _headers_hash(d):
    if d not in _hdr_cache:
        h = hashlib.sha256()
        for p in _walk(d, (".hh", ".h", ".hpp", ".cl")):
            h.update(os.path.relpath(p, d).encode()); h.update(b"\0"); h.update(_read(p)); h.update(b"\0")
        _hdr_cache[d] = h.hexdigest()
    return _hdr_cache[d]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def _compile(src, flavor, extra=()):
    cc, cflags, _ = FLAVORS[flavor]
    flags = [cc] + BASE + list(cflags) + list(extra) + FORCED_FLAGS
    h = hashlib.sha256()
    h.update(_headers_hash(SRC).encode())
    if src.startswith(HARNESS):
        h.update(_headers_hash(HARNESS).encode())
    elif flavor == "ocl":
        h.update(_headers_hash(os.path.join(HARNESS, "oclshim")).encode())
    h.update("\0".join(flags).encode())
    h.update(src.encode()); h.update(_read(src))
    key = h.hexdigest()[:24]
    d = os.path.join(BUILD, "obj"); os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, os.path.basename(src).replace(".", "_") + "-" + flavor + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = _tmp(obj)
        _run(flags + ["-c", src, "-o", tmp])
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


_serial = itertools.count()


def _tmp(p):
    return "%s.%d.%d.tmp" % (p, os.getpid(), next(_serial))


def _prune():
    """Keep the cache small: drop objects and programs not used for a while beyond 1.5 GB."""
    items = []
    for sub in ("obj", "bin"):
        d = os.path.join(BUILD, sub)
        if os.path.isdir(d):
            for f in os.listdir(d):
                p = os.path.join(d, f)
                try:
                    st = os.stat(p)
                except OSError:
                    continue
                items.append((st.st_mtime, st.st_size, p))
    total = sum(i[1] for i in items)
    for m, s, p in sorted(items):
        if total < 1.5e9 or time.time() - m < 3600:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        total -= s


def core_sources(flavor="rel", config=True):
    """All non-program, non-MPI sources of the tree (globbed, so that an added file is taken in)."""
    out = []
    for p in _walk(SRC, (".cc",)):
        rel = os.path.relpath(p, SRC)
        if rel.startswith("executables/"):
            continue
        if rel.startswith("opencl/") and flavor != "ocl":
            continue
        if rel.startswith("worker_pool/") and "mpi" in rel:
            continue
        out.append(p)
    return out


def mpi_sources():
    return [p for p in _walk(os.path.join(SRC, "worker_pool"), (".cc",)) if "mpi" in os.path.basename(p)]


def _link(name, objs, flavor, libs):
    cc, _, lflags = FLAVORS[flavor]
    h = hashlib.sha256()
    for o in objs:
        h.update(os.path.basename(o).encode())
    h.update(" ".join(libs + lflags).encode())
    d = os.path.join(BUILD, "bin"); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "%s-%s-%s" % (name, flavor, h.hexdigest()[:16]))
    if not os.path.exists(exe):
        tmp = _tmp(exe)
        _run([cc, "-g", "-o", tmp] + objs + lflags + libs)
        os.replace(tmp, exe)
    else:
        os.utime(exe)
    return exe


def build(targets):
    """targets: list of (name, flavor). A name is a program of the project (single, threaded,
    merger, mpi) or a harness NAME (harness/NAME.cc). Returns {(name, flavor): path}."""
    os.makedirs(BUILD, exist_ok=True)
    jobs = {}      # (src, flavor, extra) -> None
    plan = {}
    for name, flavor in targets:
        core = [(s, flavor, ()) for s in core_sources(flavor)]
        if name == "mpi":
            extra = tuple(MPI_INC)
            parts = core + [(s, flavor, extra) for s in mpi_sources()]
            parts.append((os.path.join(SRC, "executables", "mpi.cc"), flavor, extra))
            libs = MPI_LIBS + LIBS
        elif name in ("single", "threaded", "merger"):
            parts = core + [(os.path.join(SRC, "executables", name + ".cc"), flavor, ())]
            libs = LIBS
        else:
            parts = core + [(os.path.join(HARNESS, name + ".cc"), flavor, ())]
            libs = ["-lboost_serialization"] + LIBS + ["-ldl"]
        plan[(name, flavor)] = (parts, libs)
        for q in parts:
            jobs[q] = None
    with ThreadPoolExecutor(max_workers=8) as ex:
        keys = list(jobs)
        def comp(k):
            try:
                return _compile(*k)
            except BuildError as e:
                if not k[0].startswith(HARNESS):
                    raise
                return e       # a driver that does not fit this tree's classes (any more): see report.run
        for k, o in zip(keys, ex.map(comp, keys)):
            jobs[k] = o
        res = {}
        tk = list(plan)

        def link(k):
            bad = [jobs[q] for q in plan[k][0] if isinstance(jobs[q], BuildError)]
            if bad:
                print("driver not built: %s" % str(bad[0])[-1500:])
                return "nodriver:" + k[0]
            return _link("hycu-" + k[0] if k[0] in ("single", "threaded", "merger", "mpi") else k[0],
                         [jobs[q] for q in plan[k][0]], k[1], plan[k][1])
        outs = ex.map(link, tk)
        for k, o in zip(tk, outs):
            res[k] = o
    _prune()
    return res


def tool(name, libs=()):
    """Builds a helper of harness/ in plain C++ that does not use the code under test.
    lib*.so names give a shared object."""
    src = os.path.join(HARNESS, name + ".cc")
    key = hashlib.sha256(_read(src) + _headers_hash(HARNESS).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "bin"); os.makedirs(d, exist_ok=True)
    so = name.startswith("lib")
    out = os.path.join(d, name + "-" + key + (".so" if so else ""))
    if not os.path.exists(out):
        tmp = _tmp(out)
        _run(["g++", "-O2", "-g", "-w", "-pthread"] + (["-shared", "-fPIC"] if so else []) +
             [src, "-o", tmp, "-ldl"] + list(libs))
        os.replace(tmp, out)
    return out
