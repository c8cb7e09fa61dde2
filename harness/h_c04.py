from hlib import *
from jVMC.stats import SampledObs

FUN = {"id": lambda x: x, "conj": lambda x: jnp.conj(x), "real": lambda x: jnp.real(x), "imag": lambda x: jnp.imag(x), "sq": lambda x: x * x,
       "abs2": lambda x: jnp.abs(x)**2, "affine": lambda x: 2. * x - (1. + 1.j)}


class Net(nn.Module):
    K: int

    @nn.compact
    def __call__(self, s):
        th = self.param("th", nn.initializers.ones, (self.K,), jnp.float64)
        k = jnp.arange(1, self.K + 1)
        return jnp.sum(k * th * s) + 1.j * jnp.sum(th * th * s)


class CpxNet(nn.Module):
    K: int

    @nn.compact
    def __call__(self, s):
        th = self.param("th", nn.initializers.ones, (self.K,), jnp.complex128)
        k = jnp.arange(1, self.K + 1)
        return jnp.sum((k + 1.j) * th * s)


def estimator(p, s):
    th = jax.tree_util.tree_leaves(p)[0]
    return jnp.sum(th * th * s) + 1.j * jnp.sum(jnp.conj(th) * s) * s[0]


def est_params(st):
    z = np.array(st["q"], dtype=float)
    z = z[:, 0] + 1.j * z[:, 1] if st["cpx"] else z[:, 0]
    return jnp.array(z) if sum(st["a"]) % 2 == 0 else {"th": jnp.array(z)}


def mine(flat, case):
    """The part of a list in process/device/batch order that belongs to this process, as (device, batch, ...)."""
    d, bs = case["d"], case["bs"]
    off = sum(bs[r] * d for r in range(RANK))
    return np.array(flat[off:off + d * bs[RANK]]).reshape((d, bs[RANK]) + np.shape(flat)[1:])


BIG = 12000000.5


def fl(a):
    return [qc(z, 100) for z in np.asarray(a).ravel()]


def desc(o):
    m = np.asarray(o.mean())
    return dict(shape=list(m.shape), mean=fl(m), var=fl(o.var()))


def run(case, ev):
    set_devices(case["d"])
    objs, sizes = [], []
    for st in case["steps"]:
        prog(st["op"])
        op = st["op"]
        if op in ("base", "grad"):
            w = mine(np.array(st["a"], dtype=float)**(2 if op == "base" else 1), case) / float(np.sum(np.array(st["a"], dtype=float)**(2 if op == "base" else 1)))
        if op == "base":
            x = np.array(st["x"], dtype=float)
            x = x[..., 0] + 1j * x[..., 1] if st["cpx"] else x[..., 0]
            x = mine(x, case)
            if st["K"] == 1 and sum(st["a"]) % 2 == 0:
                x = x[..., 0]          # scalar observations without a component dimension
            o = SampledObs(jnp.array(x), jnp.array(w))
        elif op == "est":
            w = mine(np.array(st["a"], dtype=float)**2, case) / float(np.sum(np.array(st["a"], dtype=float)**2))
            s = jnp.array(mine(np.array(st["s"]), case))
            if st["late"]:
                o = SampledObs(s, jnp.array(w), estimator=estimator)
                o.mean(est_params(st))
            else:
                o = SampledObs(s, jnp.array(w), estimator=estimator, params=est_params(st))
        elif op == "move":
            o = objs[st["o"] - 1]
            g = []
            if st["how"] == "grad":
                psi = jVMC.vqs.NQS((CpxNet if st["cpx"] else Net)(len(st["q"])), seed=2)
                psi.gradients(jnp.array(mine(np.array(st["s"]), case)))
                m, g = o.mean_and_grad(psi, est_params(st))
                g = fl(g)
                m = fl(m)
            else:
                m = fl(o.mean(params=est_params(st)))
            ev.append(dict(st, **dict(desc(o), mean=m), grad=g))
            continue
        elif op == "select":
            o = objs[st["o"] - 1].select(jnp.array([i - 1 - (np.shape(objs[st["o"] - 1].mean())[0] if k == 1 else 0) for k, i in enumerate(st["ixs"])]))
        elif op == "subset":
            kw = {}
            b, neg = sizes[st["o"] - 1], SIZE == 1 and st["o"] % 2 == 1       # positions counted from the end
            if st["st"] != 0:
                kw["start"] = st["st"] - b if neg and st["st"] < b else st["st"]
            if st["en"] != 9:
                kw["end"] = st["en"] - b if neg and st["en"] < b else st["en"]
            if st["sp"] != 1:
                kw["step"] = st["sp"]
            o = objs[st["o"] - 1].subset(**kw)
        elif op == "map":
            o = objs[st["o"] - 1].transform(nonLinearFun=FUN[st["f"]])
        elif op == "lin":
            kw = {} if st["f"] == "id" else {"nonLinearFun": FUN[st["f"]]}
            o = objs[st["o"] - 1].transform(linearFun=jnp.array(st["M"], dtype=float), **kw)
        elif op == "covdata":
            o = objs[st["o"] - 1].covar_data(None if st["o"] == st["p"] else objs[st["p"] - 1])
        elif op in ("covar", "covvar"):
            a, b = objs[st["o"] - 1], objs[st["p"] - 1]
            if a is b:
                r = a.covar() if op == "covar" else a.covar_var()
            else:
                r = a.covar(b) if op == "covar" else a.covar_var(b)
            ev.append(dict(st, val=fl(r)))
            continue
        elif op == "kernel":
            ev.append(dict(st, val=fl(objs[st["o"] - 1].tangent_kernel())))
            continue
        elif op == "grad":
            K = len(st["p"])
            s = jnp.array(mine(np.array(st["s"]), case))
            psi = jVMC.vqs.NQS(Net(K), seed=2)
            psi.gradients(s)
            params = jnp.array(st["p"], dtype=float)
            e = SampledObs(s, jnp.array(w), estimator=lambda p, s: jnp.sum(p * p * s) + 1.j * jnp.sum(p * s) * s[0])
            m, g = e.mean_and_grad(psi, params)
            ev.append(dict(st, mean=fl(m), grad=fl(g)))
            continue
        objs.append(o)
        b = case["bs"][RANK] if op in ("base", "est") else sizes[st["o"] - 1]
        sizes.append(len(range(b)[st["st"]:min(st["en"], b):st["sp"]]) if op == "subset" else b)
        tw = []
        if op == "base":        # the same observations with a large constant added
            z = BIG * (1. + (0.5j if st["cpx"] else 0.))
            t = SampledObs(jnp.array(x) + z, jnp.array(w))
            tw = [fl(np.asarray(t.mean()) - z), fl(t.var()), fl(t.covar())]
        ev.append(dict(st, tw=tw, **desc(o)))
    if objs:
        ev.append({"op": "all", "all": [desc(o) for o in objs]})


main(run)
