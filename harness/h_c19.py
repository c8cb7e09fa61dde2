from hlib import *
import itertools
from jVMC.sampler import MCSampler
from jVMC.vqs import NQS
from jVMC.nets import sym_wrapper as sw
from jVMC.util.symmetries import get_orbit_1D, get_orbit_2D_square

KAP = {1: .5, 2: 1., 3: .25}


class Phase(nn.Module):
    @nn.compact
    def __call__(self, s):
        w = self.param("w", nn.initializers.ones, (s.size,), jnp.float64)
        return jnp.sum(w * jnp.sin(1. + s.ravel() * jnp.arange(1, s.size + 1)))


class Cell1(nn.Module):
    """a user's cell with two hidden vectors"""
    f: int

    @nn.compact
    def __call__(self, carry, state):
        d = lambda: nn.Dense(self.f, param_dtype=jnp.float64)
        h = jnp.tanh(d()(carry[0]) + state)
        m = jnp.sin(d()(carry[1]) + 2. * h)
        return jnp.stack([h, m]), h - m


class Cell2(nn.Module):
    f: int

    @nn.compact
    def __call__(self, cH, cV, state):
        d = lambda: nn.Dense(self.f, param_dtype=jnp.float64)
        h = jnp.tanh(d()(cH[0]) + d()(cV[1]) + state)
        m = jnp.sin(d()(cV[0]) + 2. * d()(cH[1]) + h)
        return jnp.stack([h, m]), h - m


class Custom(nn.Module):
    """recurrent network with a user's cells and initial hidden state (hashable, as NQS demands)"""
    dim: int
    kw: tuple

    def setup(self):
        kw = dict(self.kw)
        h, L, dep = kw["hiddenSize"], kw["L"], kw["depth"]
        cells = [(Cell1 if self.dim == 1 else Cell2)(h) for _ in range(dep)]
        sh = (dep, 2, h) if self.dim == 1 else (L, dep, 2, h)
        carry = jnp.sin(1. + jnp.arange(int(np.prod(sh))).reshape(sh)).astype(jnp.float64)
        self.net = (jVMC.nets.RNN1DGeneral if self.dim == 1 else jVMC.nets.RNN2DGeneral)(cell=(cells, carry), **kw)

    def __call__(self, s):
        return self.net(s)

    def sample(self, n, key):
        return self.net.sample(n, key)


class Plain(nn.Module):
    """amplitudes instead of their logarithms"""
    net: nn.Module

    def __call__(self, s):
        return jnp.exp(self.net(s))

    def sample(self, n, key):
        return self.net.sample(n, key)


def run(case, ev):
    set_devices(case["dv"])
    D, L, v = case["dv"], case["L"], case["v"]
    shape = (L,) if case["dim"] == 1 else (L, L)
    n = int(np.prod(shape))
    cls = jVMC.nets.RNN1DGeneral if case["dim"] == 1 else jVMC.nets.RNN2DGeneral
    kap = KAP[case["kap"]]
    kws = dict(L=L, hiddenSize=case["hid"], depth=case["depth"], inputDim=v, logProbFactor=kap, realValuedOutput=case["rout"], realValuedParams=not case.get("cpx", False))
    net = Custom(case["dim"], tuple(kws.items())) if case["cell"] == "custom" else cls(cell=case["cell"], **kws)
    kw = {}
    if case["wrap"] == "sym":
        names = [a for a, b in zip(("translation", "reflection", "spinflip"), case["sym"]) if b]
        kw = {"orbit": (get_orbit_1D if case["dim"] == 1 else get_orbit_2D_square)(L, *names), "avgFun": sw.avgFun_Coefficients_Sep}
    if case["wrap"] == "plain":
        net = Plain(net)
        kw = {"logarithmic": False}
    psi = NQS((net, Phase()) if case["wrap"] == "two" else net, seed=case["seed"], batchSize=case["batch"], **kw)
    X = np.array(list(itertools.product(range(v), repeat=n)), dtype=np.int32).reshape((-1,) + shape)
    pad = (-len(X)) % D
    XX = jnp.array(np.concatenate([X, X[:pad]]).reshape((D, -1) + shape))

    def table():
        a = np.asarray(psi(XX)).ravel()[:len(X)]
        return np.log(a + 0j) if case["wrap"] == "plain" else a
    table()
    rng = np.random.default_rng(case["seed"])
    p0 = np.asarray(psi.get_parameters())
    p1 = p0 * case["scale"] + .3 * case["noise"] * rng.normal(size=p0.shape)
    if case.get("cpx"):
        psi.set_parameters(jnp.array(p1))
        ev.append({"op": "norm", "P": qa(np.exp(np.real(table()) / kap), 10**8)})
        return
    S = MCSampler(psi, shape, case["seed"] + 1, numSamples=case["n"], logProbFactor=kap, mu=1. / kap if kap >= .5 else 2.)
    S.sample(multipleOf=case["mult"])
    if case["par"]:
        c, l, w = S.sample(parameters=jnp.array(p1), multipleOf=case["mult"])
        psi.set_parameters(jnp.array(p1))
    else:
        psi.set_parameters(jnp.array(p1))
        c, l, w = S.sample(multipleOf=case["mult"])
    if case["par"]:
        l = jnp.log(psi(c) + 0j) if case["wrap"] == "plain" else psi(c)     # (direct sampling with given parameters: coefficients are compared after they were set)
    t = table()
    c = np.asarray(c)
    ok = c.shape[2:] == shape and bool(np.all((c >= 0) & (c < v)))
    x = c.reshape((-1, n)).astype(int)
    idx = np.zeros(len(x), dtype=int)
    for k in range(n):
        idx = idx * v + np.clip(x[:, k], 0, v - 1)
    l = np.asarray(l).ravel()
    tot = REAL.allreduce(len(x))
    ev.append({"op": "sample", "P": qa(np.exp(np.real(t) / kap), 10**8), "n": int(S.get_last_number_of_samples()), "total": int(tot), "range": ok,
               "cnt": ints(np.bincount(idx, minlength=len(X))), "tbl": [qc(a, 10**5) for a in t],
               "smp": [[int(i), q(a.real, 10**5), q(np.imag(a), 10**5)] for i, a in list(zip(idx, l))[:60]]})


main(run)
