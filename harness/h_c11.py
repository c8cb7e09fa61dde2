from hlib import *
import jVMC.sampler as smp
from jVMC.sampler import MCSampler
from jVMC.vqs import NQS
LN2 = float(np.log(2.))


class Tab(nn.Module):
    """log2 modulus and phase looked up by the value of the single site; -1 stands for a vanishing modulus"""
    amp: tuple
    phase: tuple
    what: str
    off: float = 0.

    @nn.compact
    def __call__(self, s):
        w = self.param("w", nn.initializers.ones, (1,), jnp.float64)[0]
        a = jnp.array(self.amp, dtype=float)[s.ravel()[0]]
        ph = jnp.array(self.phase, dtype=float)[s.ravel()[0]]
        if self.what == "phase":
            return 0 * w + ph
        re = jnp.where(a < 0, -jnp.inf, (w * a + self.off) * LN2)
        if self.what == "plain":
            return jnp.exp(re) * jnp.exp(1j * ph)
        return re + 1j * ph if self.what == "cpx" else re


def cyc(key, s, arg):
    return (s + arg["shift"]) % arg["n"]


def fork(key, s, arg):
    b = (jax.random.uniform(key) < 0.5).astype(s.dtype)
    return jnp.where(s == 0, 1 + b, 0).astype(s.dtype)


def chain(case, ev):
    h = case["h"]
    set_devices(h["d"])
    amp, ph = tuple(h["amp"]), tuple(h["phase"])
    net = {"cpx": lambda: Tab(amp, ph, "cpx", h["off"]), "real": lambda: Tab(amp, ph, "real", h["off"]), "plain": lambda: Tab(amp, ph, "plain"),
           "two": lambda: (Tab(amp, ph, "real", h["off"]), Tab(amp, ph, "phase"))}[h["net"]]()
    psi = NQS(net, seed=1, logarithmic=h["net"] != "plain")
    nw = 2 if h["net"] == "two" else 1
    arg = {"shift": h["arg"], "n": h["n"]}
    s = MCSampler(psi, (1,), jax.random.PRNGKey(h["seed"]), updateProposer=cyc if h["prop"] == "cyc" else fork, updateProposerArg=arg,
                  numChains=h["chains"], sweepSteps=h["sweep"], thermalizationSweeps=h["therm"], mu=h["mu2"] / 2, logProbFactor=h["kap2"] / 2,
                  initState=jnp.array([h["start"]], dtype=np.int32))
    for st in case["steps"]:
        prog(st)
        if st["op"] == "set":
            psi(jnp.zeros((h["d"], 1, 1), dtype=np.int32))
            psi.set_parameters(jnp.full((nw,), float(st["v"])))
            ev.append(st)
            continue
        kw = {"parameters": jnp.full((nw,), float(st["par"]))} if "par" in st else {}
        if kw:
            psi(jnp.zeros((h["d"], 1, 1), dtype=np.int32))
        c, l, p = s.sample(numSamples=st["n"], **kw)
        c, l, p = np.asarray(c), np.asarray(l), np.asarray(p)
        wm = max(REAL.allgather(float(p.max())))
        ws = sum(REAL.allgather(float(p.sum())))
        steps = (st["n"] // (SIZE * h["d"] * h["chains"]) + h["therm"]) * h["sweep"]
        ratio = float(np.asarray(s.acceptance_ratio()).ravel()[0])
        ev.append(dict(st, st=ints(c.reshape(c.shape[:2])), w=qa(p / wm), wsum=q(ws), acc=q(ratio * steps * SIZE * h["d"] * h["chains"], 1),
                       co=[[[q(x.real / LN2 - (h["off"] if h["net"] != "plain" else 0), 1000), q(x.imag, 1000)] for x in row] for row in l]))
    ev.append({"op": "end"})


PROPS = {"spin_flip": smp.propose_spin_flip, "POVM": smp.propose_POVM_outcome, "spin_flip_Z2": smp.propose_spin_flip_Z2, "zeroMag": smp.propose_spin_flip_zeroMag}


JIT = {}


def kernel(case, ev):
    set_devices(1)
    for k in case["items"]:
        prog(k)
        f = PROPS[k["prop"]]
        s = jnp.array(np.array(k["s"]).reshape(k["shape"]), dtype=jnp.int32)
        keys = jax.random.split(jax.random.PRNGKey(k["seed"]), k["n"])
        if (k["prop"], s.shape) not in JIT:
            JIT[k["prop"], s.shape] = jax.jit(jax.vmap(lambda key, x, f=f: f(key, x, None), in_axes=(0, None)))
        r = np.asarray(JIT[k["prop"], s.shape](keys, s)).reshape((k["n"], -1))
        u, c = np.unique(r, axis=0, return_counts=True)
        ev.append({"op": "kernel", "prop": k["prop"], "s": k["s"], "n": k["n"], "out": [[ints(x), int(y)] for x, y in zip(u, c)]})


class Smooth(nn.Module):
    @nn.compact
    def __call__(self, s):
        w = self.param("w", nn.initializers.normal(0.6), (s.size,), jnp.float64)
        return jnp.sum(w * s.ravel()) + 0.3 * jnp.sum(s.ravel()[1:] * s.ravel()[:-1])


def libwalk(case, ev):
    for k in case["items"]:
        set_devices(k["d"])
        prog(k)
        psi = NQS(Smooth(), seed=k["seed"])
        s = MCSampler(psi, tuple(k["shape"]), k["seed"], updateProposer=PROPS[k["prop"]], numChains=1, sweepSteps=1, thermalizationSweeps=0,
                      initState=jnp.array(np.array(k["s"]).reshape(k["shape"]), dtype=jnp.int32))
        paths = [[k["s"]] for _ in range(k["d"])]
        for n in k["calls"]:
            c, _, _ = s.sample(numSamples=n * k["d"])
            c = np.asarray(c)
            for d in range(k["d"]):
                paths[d] += [ints(x.ravel()) for x in c[d]]
        for d in range(k["d"]):
            ev.append({"op": "libwalk", "prop": k["prop"], "path": paths[d]})


def run(case, ev):
    {"chain": chain, "kernel": kernel, "libwalk": libwalk}[case["kind"]](case, ev)


main(run)
