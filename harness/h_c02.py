from hlib import *
from jVMC.sampler import ExactSampler
LN2 = float(np.log(2.))


class Amp(nn.Module):
    """log psi(s) = kappa*ln2*(th.s + 700*sh) + i*unit*ph.s, or psi itself"""
    n: int
    kappa: float
    log: bool
    unit: float

    @nn.compact
    def __call__(self, s):
        p = self.param("p", nn.initializers.zeros, (2 * self.n + 1,), jnp.float64)
        x = s.ravel().astype(jnp.float64)
        r = self.kappa * LN2 * (jnp.dot(p[:self.n], x) + 700. * p[-1]) + 1.j * self.unit * jnp.dot(p[self.n:2 * self.n], x)
        return r if self.log else jnp.exp(r)


def vec(par):
    return jnp.array(list(par["th"]) + list(par["ph"]) + [par["sh"]], dtype=jnp.float64)


def big(case, ev):
    """a basis too large to list: numbers of states and values, and the range of weights for each value of one site"""
    set_devices(case["d"])
    shape, L, j = tuple(case["shape"]), case["L"], case["site"]
    n = int(np.prod(shape))
    psi = jVMC.vqs.NQS(Amp(n, .5, True, 1.), batchSize=1000)
    s = ExactSampler(psi, shape, lDim=L)
    psi.set_parameters(vec({"th": [1 if i == j else 0 for i in range(n)], "ph": [0] * n, "sh": 0}))
    c, l, p = [np.asarray(x) for x in s.sample()]
    live = c.reshape((-1, n))[p.ravel() > 0].astype(np.int64)
    w = p.ravel()[p.ravel() > 0] * float(L) ** n
    live, w = np.concatenate(REAL.allgather(live)), np.concatenate(REAL.allgather(w))
    ev.append({"op": "big", "live": len(live), "distinct": len(np.unique(live, axis=0)), "hist": [[int(np.sum(live[:, i] == v)) for v in range(L)] for i in range(n)],
               "w": [[q(f(w[live[:, j] == v], initial=0. if f is np.max else 9.), 1000) for f in (np.min, np.max)] for v in range(L)]})


def run(case, ev):
    if "site" in case:
        return big(case, ev)
    set_devices(case["d"])
    shape = tuple(case["shape"])
    n = int(np.prod(shape))
    kap = 0.5 * case["kap"]
    unit = 1. if case["log"] else 0.01      # phases of plain amplitudes stay within one turn
    psi = jVMC.vqs.NQS(Amp(n, kap, case["log"], unit), logarithmic=case["log"], batchSize=5)
    s = ExactSampler(psi, shape, lDim=case["L"], logProbFactor=kap)
    for st in case["steps"]:
        prog(st)
        if st["op"] == "set":
            psi.set_parameters(vec(st["par"]))
            ev.append(st)
            continue
        kw = {"parameters": vec(st["par"])} if "par" in st else {}
        c, l, p = s.sample(**kw)
        cn, ln, pn = np.asarray(c), np.asarray(l), np.asarray(p)
        res = [[[ints(cn[d, k].ravel()), 1 if pn[d, k] != 0 else 0, q(pn[d, k]), q(ln[d, k].real / (kap * LN2), 1000), q(ln[d, k].imag / unit, 1000)]
                for k in range(cn.shape[1])] for d in range(cn.shape[0])]
        ev.append(dict(st, res=res, shp=list(cn.shape[2:])))


main(run)
