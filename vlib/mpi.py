"""Distributed runs, and what they leave behind."""
import os, shutil, signal, time
from .report import run


def stragglers(mark):
    """processes that name a path in an argument and still run"""
    out = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                cl = open("/proc/%s/cmdline" % p, "rb").read().split(b"\0")
                st = open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()[0]
            except (OSError, IndexError):
                continue
            if st not in "ZX" and any(mark.encode() in a for a in cl) and int(p) != os.getpid():
                out.append(int(p))
    return out


def launch(c, tag, ranks, prog, env, timeout, enough=None):
    """mpirun of a command line; (result, number of processes left, command). Arguments of the
    processes should name c.scratch/tag/, by which they are found."""
    tmp = c.sub("tmp_" + tag)
    e = {"TMPDIR": tmp, "OMPI_MCA_mpi_yield_when_idle": 1, "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_btl": "self,vader",
         "OMPI_MCA_rmaps_base_oversubscribe": 1, "OMPI_MCA_orte_tmpdir_base": tmp, "PMIX_MCA_gds": "hash"}
    cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-n", str(ranks), "env"] + ["%s=%s" % kv for kv in env.items()] + prog
    r = run(cmd, timeout=timeout, env=e, enough=enough)
    left = []
    mark = os.path.join(c.scratch, tag) + "/"
    for i in range(100):
        left = stragglers(mark)
        if not left or r.timed_out:
            break
        time.sleep(0.1)
    for p in left:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
    shutil.rmtree(tmp, ignore_errors=True)
    return r, 0 if r.timed_out else len(left), cmd


def launch_retry(c, tag, ranks, prog, env, timeout):
    r, left, cmd = launch(c, tag, ranks, prog, env, timeout)
    if r.timed_out and not c.failed:
        r, left, cmd = launch(c, tag, ranks, prog, env, 2 * timeout, timeout)
    return r, left, cmd
