from hlib import *
import jVMC.operator as op
from jVMC.sampler import ExactSampler, MCSampler, propose_spin_flip, propose_POVM_outcome
from jVMC.util.tdvp import TDVP
from jVMC.util.minsr import MinSR
from jVMC.util.symmetries import get_orbit_1D
from jVMC.nets.sym_wrapper import SymNet
from h_c05 import build
from h_c08 import omega
LN2 = float(np.log(2.))


def index(s, L):
    s = s.ravel()
    return jnp.dot(s, jnp.array([L**(s.size - 1 - k) for k in range(s.size)], dtype=s.dtype))


class Real(nn.Module):
    """one real number per configuration"""
    n: int
    L: int

    @nn.compact
    def __call__(self, s):
        return self.param("p", nn.initializers.zeros, (self.n,), jnp.float64)[index(s, self.L)]


class Holo(nn.Module):
    n: int
    L: int
    log: bool = True

    @nn.compact
    def __call__(self, s):
        r = self.param("p", nn.initializers.zeros, (self.n,), jnp.complex128)[index(s, self.L)]
        return r if self.log else jnp.exp(r)


class Anti(nn.Module):
    """complex parameters, not holomorphic"""
    n: int
    L: int

    @nn.compact
    def __call__(self, s):
        return jnp.conj(self.param("p", nn.initializers.zeros, (self.n,), jnp.complex128)[index(s, self.L)])


class Cpx(nn.Module):
    n: int
    L: int

    @nn.compact
    def __call__(self, s):
        p = self.param("p", nn.initializers.zeros, (2 * self.n,), jnp.float64)
        i = index(s, self.L)
        return p[i] + 1j * p[self.n + i]


def propose(key, s, info):
    k1, k2 = jax.random.split(key)
    i = jax.random.randint(k1, (), 0, s.size)
    return s.ravel().at[i].set((s.ravel()[i] + jax.random.randint(k2, (), 1, 3)) % 3).reshape(s.shape)


def net(h, n, shape):
    k, L = h["kind"], h["L"]
    if k in ("holo", "plain"):
        return Holo(n, L, k == "holo"), {"logarithmic": k == "holo"}
    if k == "anti":
        return Anti(n, L), {}
    if k == "two":
        return (Real(n, L), Real(n, L)), {}
    if k in ("prob", "povm"):
        return Real(n, L), {}
    if k == "cpx":
        return Cpx(n, L), {}
    return SymNet(orbit=get_orbit_1D(shape[0], "translation"), net=Cpx(n, L)), {}


def run(case, ev):
    h = case["h"]
    set_devices(h["d"])
    L, shape, D = h["L"], tuple(h["shape"]), h["d"]
    n = L**int(np.prod(shape))
    nets, kw = net(h, n, shape)
    psi = jVMC.vqs.NQS(nets, batchSize=h["bs"], **kw)
    psi(jnp.zeros((D, 1) + shape, dtype=np.int32))
    prob = h["kind"] in ("prob", "povm")
    lpf = 1. if prob else 0.5
    if h["sam"] == "exact":
        S = ExactSampler(psi, shape, lDim=L, logProbFactor=lpf)
    else:
        S = MCSampler(psi, shape, jax.random.PRNGKey(h["seed"]), updateProposer={2: propose_spin_flip, 3: propose, 4: propose_POVM_outcome}[L], numChains=h["nch"], numSamples=h["ns"] * SIZE * D,
                      sweepSteps=3, thermalizationSweeps=2, mu=h["mu"], logProbFactor=lpf)
    seen = []
    orig = S.sample

    def sample(*a, **k):
        r = orig(*a, **k)
        seen.append(np.asarray(r[0]).reshape((-1,) + shape))
        return r
    S.sample = sample
    x = complex(*h["x"])
    if h["eq"] == "minsr":
        eq = MinSR(S, pinvTol=1e-9)
    else:
        eq = TDVP(S, snrTol=1e-8, pinvTol=1e-14, pinvCutoff=1e-9, makeReal=h["mr"], rhsPrefactor=x if x.imag else x.real)
    if h["kind"] == "povm":
        povm = op.POVM({"dim": "1D", "L": shape[0]})
        H = op.POVMOperator(povm, ElocBatchSize=h["ebs"])
    else:
        H = op.BranchFreeOperator(lDim=L, ElocBatchSize=h["ebs"])
    for st in case["steps"]:
        prog(st["op"])
        if st["op"] == "add":
            for s in st["strs"]:
                if h["kind"] == "povm":
                    nm = "T%d" % len(povm.operators)
                    povm.add_unitary(nm, omega(s["pqr"], 4**len(s["sites"])))
                    H.add({"name": nm, "sites": tuple(i - 1 for i in s["sites"]), "strength": float(s["w"])})
                else:
                    H.add(build(s, L))
            ev.append(st)
            continue
        th, ph = np.array(st["th"]) * LN2, np.array(st["ph"]) * np.pi / 2
        sg = -1 if h["kind"] == "anti" else 1
        y = jnp.array(th if prob else np.concatenate([th, sg * ph]))
        psi.set_parameters(y)
        seen.clear()
        t = st["t"] / 2.
        if st["how"] == "call":
            u = eq(y, t, psi=psi, hamiltonian=H, intStep=0)
        else:
            dt = 1. / 64
            y1, _ = jVMC.util.stepper.Euler(timeStep=dt).step(t, eq, y, psi=psi, hamiltonian=H)
            u = (y1 - y) / dt
        kept = bool(np.array_equal(np.asarray(psi.get_parameters()), np.asarray(y)))
        u = np.asarray(u)
        v = u if prob else u[:n] + 1j * sg * u[n:]
        cf = np.concatenate(REAL.allgather(np.concatenate(seen))) if seen else np.zeros((0,) + shape, dtype=int)
        cnt = np.bincount([int(np.dot(c.ravel(), [L**(c.size - 1 - k) for k in range(c.size)])) for c in cf], minlength=n)
        ev.append(dict(st, u=[qc(z, 100) for z in v], cnt=ints(cnt), mean=q(eq.get_energy_mean(), 100), var=q(eq.get_energy_variance(), 100), kept=kept))


main(run)
