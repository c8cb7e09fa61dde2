from hlib import *
import h5py, io, contextlib
import jVMC.operator as op
from jVMC.operator import povm as pv
from jVMC.sampler import MCSampler, ExactSampler
import jVMC.sampler as smp
from jVMC.vqs import NQS
from jVMC.util import TDVP, MinSR
import jVMC.util.util as util
from jVMC.util.output_manager import OutputManager

LN2 = float(np.log(2.))
U = 1000000


class Amp(nn.Module):
    n: int

    @nn.compact
    def __call__(self, s):
        p = self.param("p", nn.initializers.zeros, (self.n,), jnp.float64)
        return LN2 * jnp.dot(p, s.ravel().astype(jnp.float64)) + 0j


class Smooth(nn.Module):
    @nn.compact
    def __call__(self, s):
        w = self.param("w", nn.initializers.normal(.3), (3,), jnp.float64)
        x = 2. * s - 1.
        return w[0] * x[0] + w[1] * x[1] * x[2] + w[2] * x[1] + 0j


def operator(o):
    H = op.BranchFreeOperator()
    for t in o["terms"]:
        loc = [op.Sz(i) for i, z in enumerate(t["z"]) if z] + ([op.Sx(t["x"] - 1)] if t["x"] else [])
        c = complex(*t["c"])
        if len(o["args"]) == 0:
            pre = c
        elif len(o["args"]) == 1:
            pre = lambda a, c=c: 2. * c * a
        else:
            pre = lambda a, b, c=c: 2. * c * (a - b)
        H.add(op.scal_opstr(pre, tuple(loc) if loc else (op.Id(0),)))
    return H


def observables(obs):
    d, ops = {}, {}

    def shared(x):      # equal operators are one object
        k = repr((x["terms"], len(x["args"])))
        if k not in ops:
            ops[k] = operator(x)
        return ops[k]
    for o in obs:
        xs = [shared(x) if not x["args"] else (shared(x),) + tuple(a / 2. for a in x["args"]) for x in o["ops"]]
        # (an operator with arguments is passed in a list, as documented)
        d[o["name"]] = xs if o["list"] or o["ops"][0]["args"] else xs[0]
    return d


class Watch:
    """sampler that notes what is drawn from it"""

    def __init__(self, S=None, data=None, shape=None, inf=False):
        self.S, self.data, self.shape, self.inf, self.calls, self.got = S, data, shape, inf, [], []
        if data is not None:
            tot = sum(x[1] for r in data for d in r for x in d)
            mine = data[RANK]
            self.c = jnp.array([[x[0] for x in d] for d in mine], dtype=np.int32).reshape((len(mine), -1) + shape)
            self.p = jnp.array([[x[1] / tot for x in d] for d in mine])
            self.n = sum(len(d) for r in data for d in r)

    def sample(self, parameters=None, numSamples=None, multipleOf=1):
        self.calls.append(0 if numSamples is None else int(numSamples))
        if self.data is not None:
            return self.c, self.psi(self.c) if self.psi else None, self.p
        r = self.S.sample(parameters=parameters, numSamples=numSamples, multipleOf=multipleOf) if isinstance(self.S, MCSampler) else self.S.sample(parameters=parameters, numSamples=numSamples)
        self.got = ints(np.asarray(r[0]).reshape((-1,) + np.asarray(r[0]).shape[2:]))
        return r

    def get_last_number_of_samples(self):
        if self.data is not None:
            return jnp.inf if self.inf else self.n
        return self.S.get_last_number_of_samples()

    def set_number_of_samples(self, N):
        self.S.set_number_of_samples(N)


def stats(r, f=1.):
    one = lambda a, k, s: [q(x / f**k, s) for x in np.ravel(np.asarray(a))]
    return {"mean": one(r["mean"], 1, 1000), "var": one(r["variance"], 2, 1000), "err": one(r["MC_error"], 1, 100)}


def do_measure(case, ev):
    L, D = case["L"], case["d"]
    psi = NQS(Amp(L), batchSize=7)
    psi(jnp.zeros((D, 1, L), dtype=np.int32))
    psi.set_parameters(jnp.array(case["th"], dtype=jnp.float64))
    if case["smp"] == "stub":
        S = Watch(data=case["data"], shape=(L,))
        S.psi = psi
    elif case["smp"] == "exact":
        S = Watch(ExactSampler(psi, (L,)))
    else:
        S = Watch(MCSampler(psi, (L,), case["seed"], updateProposer=smp.propose_spin_flip, numSamples=case["n0"], numChains=2, sweepSteps=2, thermalizationSweeps=1, mu=case["mu"]))
    obs = observables(case["obs"])
    for rep in range(2):
        S.calls, S.got = [], []
        r = util.measure(obs, psi, S, **({"numSamples": case["num"]} if case["num"] else {}))
        ev.append({"op": "measure", "names": list(r.keys()), "rep": [stats(r[o["name"]]) if o["name"] in r else {} for o in case["obs"]], "calls": S.calls, "cfgs": S.got})


def do_povm(case, ev):
    L, D = case["L"], case["d"]
    shape = (L,) if case["dim"] == 1 else (L, L)
    P = pv.POVM({"dim": "1D" if case["dim"] == 1 else "2D", "L": L})
    S = Watch(data=case["data"], shape=shape, inf=case["inf"])
    S.psi = None
    kw = {}
    if case["given"]:
        kw = {"sampleConfigs": S.c, "probs": S.p}
    if not case["def"]:
        kw["observables"] = {o["name"]: jnp.array(o["v"], dtype=jnp.float64) for o in case["obs"]}
    r = pv.measure_povm(P, S, **kw)
    rep, cor = [], []
    for o in case["obs"]:
        f = o["f"]**.5
        rep.append(stats(r[o["name"]], f))
        cor.append([stats(r[o["name"] + "_corr_L%d" % d], f * f) for d in range(L)])
    ev.append({"op": "povm", "names": sorted(r.keys()), "rep": rep, "cor": cor, "calls": S.calls})


class Eq:
    """stands for the variational equation: scripted updates and variances"""

    def __init__(self, script, shift, log):
        self.script, self.k, self.log = script, 0, log
        if shift:
            self.diagonalShift = 8.
            self.set_diagonal_shift = self._set

    def _set(self, d):
        self.diagonalShift = d

    def __call__(self, y, t, **kw):
        self.k += 1
        self.log.append({"op": "step", "y": qa(np.asarray(y), 1000), "psi": qa(np.asarray(kw["psi"].get_parameters()), 1000), "shift": q(getattr(self, "diagonalShift", 8.) / 8.),
                         "ham": kw["hamiltonian"] == "the hamiltonian", "t": q(t, 1000)})
        return jnp.array(self.script[min(self.k, len(self.script)) - 1]["u"], dtype=jnp.float64)

    def get_energy_variance(self):
        return self.script[min(self.k, len(self.script)) - 1]["var"] / 16. if self.k else float("nan")

    def get_energy_mean(self):
        return 0.5


NUM = [0]


def output():
    NUM[0] += 1
    return os.path.join(REAL.bcast(VF_DIR, 0), "gs_%d.hdf5" % NUM[0])


def recorded(fn, names, ev):
    REAL.Barrier()
    rec = {"times": [], "obs": []}
    if os.path.exists(fn):
        with h5py.File(fn, "r") as f:
            if "observables" in f:
                rec["times"] = qa(np.ravel(f["observables/times"][:]), 1000)
                rec["obs"] = [[stats({k: f["observables/%s/%s" % (nm, k)][i] for k in ("mean", "variance", "MC_error")}) for i in range(f["observables/%s/mean" % nm].shape[0])] for nm in names]
    return rec


def do_search(case, ev):
    L, D = 2, case["d"]
    psi = NQS(Amp(L), batchSize=7)
    psi(jnp.zeros((D, 1, L), dtype=np.int32))
    psi.set_parameters(jnp.array(case["th"], dtype=jnp.float64))
    S = Watch(ExactSampler(psi, (L,)))
    eq = Eq(case["script"], case["shift"], ev)
    fn = output()
    out = OutputManager(fn, append=False) if case["out"] else None
    obs = observables(case["obs"]) if case["obs"] else None
    with contextlib.redirect_stdout(io.StringIO()):
        util.ground_state_search(psi, "the hamiltonian", eq, S, numSteps=case["lim"], varianceTol=case["tol"] / 16., stepSize=.5, observables=obs, outp=out)
    e = recorded(fn, [o["name"] for o in case["obs"]], ev)
    e.update({"op": "end", "par": qa(np.asarray(psi.get_parameters()), 1000), "shift": q(getattr(eq, "diagonalShift", 8.) / 8.)})
    ev.append(e)


def watched(cls):
    class E(cls):
        def __call__(self, y, t, **kw):
            u = super().__call__(y, t, **kw)
            self.rec.append((np.asarray(y), np.real(np.asarray(u)), float(getattr(self, "diagonalShift", 1.)), self.get_energy_variance()))
            return u
    return E


def do_real(case, ev):
    L, D = 3, case["d"]

    def go(lim, tol, out):
        psi = NQS(Smooth(), batchSize=7, seed=case["seed"])
        psi(jnp.zeros((D, 1, L), dtype=np.int32))
        S = Watch(ExactSampler(psi, (L,)))
        H = op.BranchFreeOperator()
        for l in range(L):
            H.add(op.scal_opstr(-1., (op.Sz(l), op.Sz((l + 1) % L))))
            H.add(op.scal_opstr(-.7, (op.Sx(l),)))
        E = watched(TDVP)(S, rhsPrefactor=1., pinvTol=1e-8, diagonalShift=4., makeReal="real") if case["eq"] == "tdvp" else watched(MinSR)(S, pinvTol=1e-8)
        E.rec = []
        fn = output()
        o = OutputManager(fn, append=False) if out else None
        p0 = np.asarray(psi.get_parameters())
        with contextlib.redirect_stdout(io.StringIO()):
            util.ground_state_search(psi, H, E, S, numSteps=lim, varianceTol=tol, stepSize=.0625, observables={"e": H}, outp=o)
        return E, p0, np.asarray(psi.get_parameters()), recorded(fn, ["e"], ev)
    A = go(4, 0., False)[0]
    tol = 0. if case["early"] == 0 or case["early"] > len(A.rec) else float(A.rec[case["early"] - 1][3]) * (1 + 1e-9)
    E, p0, p1, rec = go(case["lim"], tol, case["out"])
    for k, (y, u, s, v) in enumerate(E.rec):
        ev.append({"op": "rstep", "y": qa(y, U), "u": qa(u * .0625, U), "shift": q(s / (4. if case["eq"] == "tdvp" else 1.)), "above": bool(v > tol)})
    ev.append({"op": "rend", "first": qa(p0, U), "par": qa(p1, U), "shift": q(E.diagonalShift / 4.) if case["eq"] == "tdvp" else U, "times": rec["times"]})


def run(case, ev):
    set_devices(case["d"])
    {"measure": do_measure, "povm": do_povm, "search": do_search, "real": do_real}[case["kind"]](case, ev)


main(run)
