from hlib import *
import h5py, io, re, time, contextlib
from jVMC.util.output_manager import OutputManager

CLOCK = [1000]
EPS = 2.**-40


def fake(*a):
    return CLOCK[0] / 1000.


NS = lambda *a: CLOCK[0] * 10**6
FAKE = {time.perf_counter: fake, time.time: fake, time.monotonic: fake, time.process_time: fake, time.perf_counter_ns: NS, time.time_ns: NS, time.monotonic_ns: NS}


def clocks():
    """every place the code may read a clock from"""
    import jVMC.util.output_manager as om
    res = []
    for o in (time, om):
        for k, v in list(vars(o).items()):
            try:
                if v in FAKE:
                    res.append((o, k, v, FAKE[v]))
            except TypeError:
                pass
    return res


def enc(k):
    return k + k * EPS


def dec(x):
    """exact inverse of enc; anything else becomes a value no expectation has"""
    x = np.asarray(x)
    if x.ndim == 0:
        x = x[None]
    res = []
    for v in np.ravel(x):
        k = int(round(float(np.real(v)))) if np.isfinite(v) else 0
        res.append(k if (np.isreal(v) and float(np.real(v)) == enc(k)) else 1000000 + k)
    return res


def dump(fn):
    res = []
    with h5py.File(fn, "r") as f:
        def visit(name, obj):
            if isinstance(obj, h5py.Dataset):
                res.append(["/" + name, [dec(obj[i]) for i in range(obj.shape[0])]])
        f.visititems(visit)
    return sorted(res)


NUM = [0]


def run(case, ev):
    NUM[0] += 1
    shared = REAL.bcast(VF_DIR, 0)
    fn = os.path.join(shared, "data_%d.hdf5" % NUM[0])
    CLOCK[0] = 1000
    out = None
    shape = {"mean": (), "ElocMean": (), "variance": (2,), "snr": (2,)}
    grp = "/"
    for s in case["steps"]:
        op = s["op"]
        e = dict(s)
        buf = io.StringIO()
        val = lambda p, row: (np if len(row) % 2 else jnp).array([enc(k) for k in row]).reshape(shape.get(p.split("/")[-1], (len(row),)))
        if op in ("start", "stop", "add", "show"):
            CLOCK[0] += s["adv"]
        frozen = clocks() if op in ("start", "stop", "add", "show") else []
        for o, k, v, f in frozen:
            setattr(o, k, f)
        try:
            with contextlib.redirect_stdout(buf):
                if op == "open":
                    if s["g"] == "/" and s["dflt"]:
                        out = OutputManager(fn, append=True) if s["ap"] else OutputManager(fn)
                    else:
                        out = OutputManager(fn, group=s["g"], append=s["ap"])
                    grp = s["g"]
                elif op == "group":
                    out.set_group(s["g"])
                    grp = s["g"]
                elif op == "obs":
                    d = {}
                    for it in s["items"]:
                        k, n = it["path"].split("/")
                        d.setdefault(k, {})[n] = val(n, it["row"])
                    out.write_observables(enc(s["t"]), **d)
                elif op == "meta":
                    out.write_metadata(enc(s["t"]), **{it["path"]: val(it["path"], it["row"]) for it in s["items"]})
                elif op == "ckpt":
                    out.write_network_checkpoint(enc(s["t"]), val("w", s["items"][0]["row"]))
                elif op == "get":
                    REAL.Barrier()
                    t, w = out.get_network_checkpoint() if s["by"] == "last" else out.get_network_checkpoint(time=enc(s["v"])) if s["by"] == "time" else out.get_network_checkpoint(idx=s["v"])
                    e["wt"], e["w"] = dec(t)[0], dec(w)
                elif op in ("data", "error"):
                    REAL.Barrier()
                    x = np.array([enc(r[0]) for r in s["rows"]])
                    if op == "error":
                        out.write_error_data(s["name"], x, mpiRank=s["rank"])
                    elif s["g"] == "/":
                        out.write_dataset(s["name"], x, mpiRank=s["rank"])
                    else:
                        out.write_dataset(s["name"], x, groupname=s["g"], mpiRank=s["rank"])
                elif op == "start":
                    out.start_timing(s["n"])
                elif op == "stop":
                    out.stop_timing(s["n"])
                elif op == "add":
                    out.add_timing(s["n"], s["adv"] / 1000.)
                elif op == "show":
                    out.print_timings()
        finally:
            for o, k, v, f in frozen:
                setattr(o, k, v)
        REAL.Barrier()
        e["dump"] = dump(fn)
        with h5py.File(fn, "r") as f:
            e["hasgrp"] = grp == "/" or ("/" + grp) in f
        REAL.Barrier()
        e["tims"] = [{"n": k, "total": q(v["total"], 1000), "count": int(v["count"]), "newest": q(v["newest"], 1000)} for k, v in out.timings.items()]
        e["shown"] = []
        if op == "show":
            for k in out.timings:
                m = re.search(r"(?<!\w)%s(?!\w)[^0-9+-]*([0-9.eE+-]+)" % re.escape(k), buf.getvalue())
                if m:
                    e["shown"].append([k, q(float(m.group(1).rstrip(".")), 1000)])
        ev.append(e)
    REAL.Barrier()
    if RANK == 0:
        os.remove(fn)


main(run)
