from hlib import *
from jVMC.sampler import MCSampler, ExactSampler
import jVMC.sampler as smp
import jVMC.operator as op
from jVMC.vqs import NQS
from jVMC.util import TDVP, MinSR, measure
from jVMC.util.stepper import Heun, AdaptiveHeun
from flax.core import freeze

L = 3
U = 100000


class Smooth(nn.Module):
    """generic state with three real parameters"""
    @nn.compact
    def __call__(self, s):
        w = self.param("w", nn.initializers.normal(1.), (2,), jnp.float64)
        v = self.param("a", nn.initializers.normal(1.), (1,), jnp.float64)
        x = 2. * s - 1.
        return w[0] * x[0] + w[1] * x[1] * x[2] + v[0] * x[1] + 1j * (w[0] * x[1] + 0.5 * w[1] * x[0] * x[2] - v[0] * w[0] * x[2])


class Peak(nn.Module):
    """weight on the configuration spelled by the parameters only"""
    def setup(self):
        self.w = self.param("w", nn.initializers.zeros, (L,), jnp.float64)
        self.c = self.param("c", nn.initializers.zeros, (1,), jnp.float64)

    def __call__(self, s):
        return -40. * jnp.sum(jnp.abs(s.ravel() - self.w)) + self.c[0]


class PeakGen(Peak):
    def sample(self, n, key):
        return jnp.stack([jnp.round(self.w).astype(jnp.int32)] * n)


class Phase(nn.Module):
    @nn.compact
    def __call__(self, s):
        b = self.param("b", nn.initializers.zeros, (1,), jnp.float64)
        return b[0] * (1. + s.ravel()[0])


class Ham:
    """stands for a Hamiltonian and notes what it is called with"""
    def __init__(self):
        self.seen = None

    def get_O_loc(self, samples, psi, logPsi=None, *args):
        c = np.asarray(samples)
        l = np.asarray(logPsi)
        u = sorted({tuple(ints(x.ravel())) for row in c for x in row})
        lu = sorted({(q(x.real, U), q(x.imag, U)) for row in l for x in row})
        fresh = sorted({(q(x.real, U), q(x.imag, U)) for row in np.asarray(psi(samples)) for x in row})
        self.seen = [v for t in u for v in t] + [v for t in lu for v in t] + [v for t in fresh for v in t] + qa(psi.get_parameters(), U) + [q(args[0], U) if args else 0]
        return jnp.array(np.arange(c.shape[0] * c.shape[1]).reshape(c.shape[:2]) % 5 + 0.5 + 0j)


def tfim():
    H = op.BranchFreeOperator()
    for l in range(L):
        H.add(op.scal_opstr(-1., (op.Sz(l), op.Sz((l + 1) % L))))
        H.add(op.scal_opstr(-.7, (op.Sx(l),)))
    H.add(op.scal_opstr(.3, (op.Sy(0),)))
    return H


MEMO = {}


def run(case, ev):
    h = case["h"]
    D, fam = h["d"], h["fam"]
    set_devices(D)
    rng = np.random.default_rng(h["seed"])
    H = tfim()
    obs = {"z": [op.BranchFreeOperator() for _ in range(L)]}
    for l in range(L):
        obs["z"][l].add(op.scal_opstr(1., (op.Sz(l),)))
    if fam == "exact":
        vecs = [np.round(rng.uniform(-1.2, 1.2, size=3) * 256) / 256 for _ in range(3)]
    else:
        bits = rng.permutation(8)[:3]
        vecs = [np.array([k + 1.] + [float(b >> i & 1) for i in range(L)]) for k, b in enumerate(bits)]   # sorted names: c, w
        if h["two"]:
            vecs = [np.concatenate([v, [0.25 * (k + 1)]]) for k, v in enumerate(vecs)]
    cfgs = jnp.array(rng.integers(0, 2, size=(D, 3, L)), dtype=jnp.int32)

    def objects(k):
        if fam == "exact":
            psi = NQS(Smooth(), seed=5, batchSize=3)
            S = ExactSampler(psi, (L,))
        else:
            net = Peak() if fam == "mc" else PeakGen()
            psi = NQS((net, Phase()) if h["two"] else net, seed=5, batchSize=3)
            S = MCSampler(psi, (L,), 7, updateProposer=smp.propose_spin_flip, numChains=2, sweepSteps=10, thermalizationSweeps=20, numSamples=6)
        psi(cfgs)
        psi.set_parameters(jnp.array(vecs[k - 1]))
        ham = H if fam == "exact" else Ham()
        T = {cv: TDVP(S, pinvTol=1e-6, pinvCutoff=1e-8, rhsPrefactor=1., makeReal="real", crossValidation=cv) for cv in (False, True)}
        return dict(psi=psi, S=S, ham=ham, T=T, M=MinSR(S, pinvTol=1e-6))

    def given(o, k, form):
        v = jnp.array(vecs[k - 1])
        if form == "vec":
            return v
        p2 = NQS(o["psi"].net, seed=5)
        p2(cfgs)
        p2.set_parameters(v)
        t = jax.tree_util.tree_map(lambda x: x, dict(p2.params))
        return freeze(t) if form == "frozen" else t

    def compute(o, st):
        psi, S, k = o["psi"], o["S"], st["op"]
        if k == "sample":
            kw = {} if st["g"] == 0 else {"parameters": given(o, st["g"], st["form"])}
            if fam != "exact":
                kw["numSamples"] = st["n"] * D * SIZE
            c, l, p = S.sample(**kw)
            if fam == "exact":
                return qca(l, U), qa(p, U)
            u = sorted({tuple(ints(x.ravel())) for row in np.asarray(c) for x in row})
            return [list(x) for x in u], sorted({tuple(qc(x, U)) for row in np.asarray(l) for x in row})
        if k == "eval":
            return qca(psi(cfgs), U)
        if k == "grad":
            return qca(psi.gradients(cfgs), 1000)
        if k == "measure":
            r = measure(obs if fam != "exact" else dict(obs, h=H), psi, S)
            return [qa(r[n]["mean"], U) for n in sorted(r)]
        if k in ("tdvp", "minsr"):
            f = o["T"][st["cv"]] if k == "tdvp" else o["M"]
            kw = {} if st["stage"] < 0 else {"intStep": st["stage"]}
            r = f(given(o, st["g"], "vec"), 0.25, psi=psi, hamiltonian=o["ham"], **kw)
            return qca(r, 1000) if fam == "exact" else o["ham"].seen
        if k == "step":
            stp = AdaptiveHeun(timeStep=2.**-6, tol=1e9, maxStep=2.**-6) if st["ada"] else Heun(timeStep=2.**-6)
            y, _ = stp.step(0., o["T"][False], given(o, st["g"], "vec"), psi=psi, hamiltonian=H)
            return qa(y, 10000)

    def flat(x):
        if isinstance(x, (list, tuple)):
            return [v for y in x for v in flat(y)]
        return [x]

    def what(st):
        k = st["op"]
        return k + ("a" if st.get("ada") else "")
    kinds = [{"op": "sample", "g": 0, "form": "vec", "n": 2}, {"op": "eval"}, {"op": "grad"}, {"op": "measure"}, {"op": "tdvp", "cv": False, "stage": -1},
             {"op": "minsr", "stage": -1}] + ([{"op": "step", "ada": a} for a in (False, True)] if fam == "exact" else [])
    used = {what(st) for st in case["steps"]}
    for kd in kinds:
        if what(kd) in used and not (fam != "exact" and kd["op"] == "grad"):
            for k in (1, 2, 3):
                st = dict(kd, g=k) if kd["op"] in ("tdvp", "minsr", "step") else kd
                prog(["ref", st])
                mk = (fam, D, h["seed"], h["two"], what(kd), k)
                if mk not in MEMO:
                    MEMO[mk] = flat(compute(objects(k), st))
                ev.append({"op": "ref", "what": what(kd), "k": k, "out": MEMO[mk]})
    o = objects(1)
    psi = o["psi"]

    def pid():
        v = np.asarray(psi.get_parameters())
        for k in (1, 2, 3):
            if v.shape == vecs[k - 1].shape and np.array_equal(v, vecs[k - 1]):
                return k
        return 0
    ev.append({"op": "set", "k": 1, "form": "vec", "pid": pid()})
    cur = 1
    for st in case["steps"]:
        prog(st)
        k = st["op"]
        if k == "grad" and fam != "exact":
            continue
        if k == "set":
            psi.set_parameters(given(o, st["k"], st["form"]))
            cur = st["k"]
            ev.append(dict(st, pid=pid()))
        elif k == "upd":
            psi.update_parameters(jnp.array(vecs[st["k"] - 1] - vecs[cur - 1]))
            cur = st["k"]
            ev.append(dict(st, pid=pid()))
        else:
            r = flat(compute(o, st))
            ev.append(dict(st, what=what(st), out=r, pid=pid()))


main(run)
