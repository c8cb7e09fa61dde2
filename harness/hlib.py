"""Common part of the harnesses that drive the real code. Imports the package from /repo."""
import sys, os, json, math, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("VF_REPO") or "/repo")
import warnings
warnings.filterwarnings("ignore")

VF_DIR = os.environ.get("VF_DIR", ".")

# ---- recording proxy around the world communicator (installed before the package is imported)
from mpi4py import MPI

_COLL = ("Allreduce", "allreduce", "Bcast", "bcast", "allgather", "Allgather", "Allgatherv", "gather", "Gather", "Gatherv", "Barrier",
         "barrier", "reduce", "Reduce", "scatter", "Scatter", "alltoall", "Alltoall", "Scan", "scan", "exscan", "Exscan", "Scatterv")


class CommProxy:
    def __init__(self, comm):
        object.__setattr__(self, "_c", comm)
        object.__setattr__(self, "log", [])

    def __getattr__(self, name):
        a = getattr(object.__getattribute__(self, "_c"), name)
        if name in _COLL:
            log = object.__getattribute__(self, "log")

            def wrapped(*args, **kw):
                log.append(name)
                return a(*args, **kw)
            return wrapped
        return a


REAL = MPI.COMM_WORLD
PROXY = CommProxy(REAL)
MPI.COMM_WORLD = PROXY
RANK, SIZE = REAL.Get_rank(), REAL.Get_size()

import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import numpy as np
import flax.linen as nn
import jVMC
import jVMC.mpi_wrapper as mpi
import jVMC.global_defs as gd

ALLDEV = list(jax.devices())
open(os.path.join(VF_DIR, "started_%d" % RANK), "w").write("1")


def set_devices(d):
    jVMC.set_pmap_devices(ALLDEV[:d]) if hasattr(jVMC, "set_pmap_devices") else gd.set_pmap_devices(ALLDEV[:d])


BIG = 1000000000


def q(x, scale=1000000):
    """Quantise a real number; not finite or huge values become BIG (never equal to an expectation)."""
    x = float(np.real(x))
    if not math.isfinite(x):
        return BIG
    v = round(x * scale)
    if abs(v) >= BIG:
        return BIG
    return int(v)


def qa(a, scale=1000000):
    a = np.asarray(a)
    if a.ndim == 0:
        return q(a, scale)
    return [qa(x, scale) for x in a]


def qc(z, scale=1000000):
    return [q(np.real(z), scale), q(np.imag(z), scale)]


def qca(a, scale=1000000):
    a = np.asarray(a)
    if a.ndim == 0:
        return qc(a, scale)
    return [qca(x, scale) for x in a]


def ints(a):
    return np.asarray(a).astype(int).tolist()


def finite(a):
    return bool(np.all(np.isfinite(np.asarray(a))))


def prog(msg):
    with open(os.path.join(VF_DIR, "prog_%d" % RANK), "a") as f:
        f.write(str(msg) + "\n")


def err(e):
    return "%s: %s" % (type(e).__name__, str(e)[:300])


def save(out):
    tmp = os.path.join(sys.argv[2], "out_%d.tmp" % RANK)
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.rename(tmp, os.path.join(sys.argv[2], "out_%d.json" % RANK))


def main(run_case):
    """run_case(case) -> list of events (one per step). Exceptions of the code under test become events."""
    inp = json.load(open(sys.argv[1]))
    out = []
    for i, case in enumerate(inp):
        prog("case %d %s" % (i, json.dumps(case)[:200]))
        ev = []
        try:
            run_case(case, ev)
        except Exception as e:
            ev.append({"err": err(e), "at": traceback.format_exc()[-700:]})
            out.append({"ev": ev})
            if SIZE > 1:
                # the other processes may wait in a collective: record and stop the whole group
                save(out + [{"ev": [{"err": "skipped after an exception"}]}] * (len(inp) - len(out)))
                REAL.Abort(7)
            continue
        out.append({"ev": ev})
    save(out)
