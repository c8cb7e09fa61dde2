from hlib import *


def run(case, ev):
    for st in case["steps"]:
        prog(st["op"])
        devs = [ALLDEV[i - 1] for i in st["dev"][RANK]]
        jVMC.set_pmap_devices(devs)
        a = np.array(st["data"][RANK], dtype=float)
        a = a[..., 0] + 1j * a[..., 1]
        if not st["cpx"]:
            a = a.real
        a = a + st["off"]
        if st["form"] != "vec":
            a = a.reshape(a.shape[:2] + {"num": (), "mat": (2, 2)}[st["form"]])
        a = jnp.array(a)
        W = sum(sum(sum(d) for d in r) for r in st["w"])
        p = jnp.array(np.array(st["w"][RANK], dtype=float) / W)
        n0 = len(PROXY.log)
        op = st["op"]
        if op == "sum":
            r = mpi.global_sum(a)
        elif op == "mean":
            r = mpi.global_mean(a, p)
        elif op == "var":
            r = mpi.global_variance(a, p)
        elif op == "cov":
            r = mpi.global_covariance(a, p)
        elif op == "gather":
            r = mpi.gather(a)
        elif op == "bcast":
            x = np.array([i * i - 3. * st["root"] for i in range(1, st["len"] + 1)], dtype=np.float64)
            r = mpi.bcast_unknown_size(x if RANK == st["root"] else None, root=st["root"])
        r = np.asarray(r)
        ev.append(dict(st, shape=list(r.shape), devs={"n": gd.device_count(), "m": gd.myDeviceCount, "ids": [ALLDEV.index(d) + 1 for d in gd.devices()]}, res=[qc(z, 1000) for z in r.ravel()], coll=PROXY.log[n0:]))


main(run)
