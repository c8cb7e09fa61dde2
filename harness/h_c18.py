from hlib import *
from jVMC.sampler import ExactSampler
from jVMC.util.tdvp import TDVP
from jVMC.util.minsr import MinSR
from jVMC.stats import SampledObs


class Feed:
    """stands for the ansatz, the sampler and the Hamiltonian: hands out the given sample"""

    def __init__(self, case):
        self.case = case
        self.D = case["h"]["d"]
        self.cur = None
        self.par = jnp.zeros(case["h"]["P"])
        self.times = []
        self.scale = 1.

    def local(self, x):
        x = np.asarray(x)
        n = x.shape[0] // SIZE
        return jnp.array(x[RANK * n:(RANK + 1) * n].reshape((self.D, -1) + x.shape[1:]))

    def arrays(self):
        s = self.case["sets"][self.cur - 1]
        k = np.array(s["k"], dtype=float)
        g = np.array(s["g"], dtype=float)
        E = np.array(s["E"], dtype=float)
        return self.local(g[..., 0] + 1j * g[..., 1]), self.local(E[..., 0] + 1j * E[..., 1]), self.local(k / k.sum())
    # ansatz

    def get_parameters(self):
        return self.par

    def set_parameters(self, p):
        self.par = p

    def gradients(self, s):
        g = self.arrays()[0]
        return g.at[..., 0].multiply(self.scale)
    # Hamiltonian

    def get_O_loc(self, s, psi, logPsi=None, *args):
        self.times.append(args[0] if args else None)
        return self.arrays()[1]


def sampler(feed, exact):
    def sample(self, parameters=None, numSamples=None, multipleOf=1):
        g, E, p = feed.arrays()
        n = feed.case["h"]["N"]
        mpi.distribute_sampling(n, localDevices=feed.D)
        c = jnp.zeros(p.shape + (2,), dtype=np.int32)
        return c, jnp.zeros(p.shape), p
    base = ExactSampler if exact else object
    cls = type("Fed", (base,), {"sample": sample, "__init__": lambda self: None, "get_last_number_of_samples": lambda self: np.inf if exact else feed.case["h"]["N"]})
    return cls()


def reports(eq, kind):
    r = {"mean": q(eq.get_energy_mean(), 10000), "var": q(eq.get_energy_variance(), 10000)}
    if kind == "tdvp":
        err_, res = eq.get_residuals()
        m = eq.get_metadata()
        r.update(err=q(np.ravel(err_)[0], 10000), res=q(res, 100), snr=qa(eq.get_snr(), 100), spec=qa(np.real(np.asarray(eq.get_spectrum())), 10000), cut=q(m["pinv_cutoff"], 10000))
    return r


def run(case, ev):
    h = case["h"]
    set_devices(h["d"])
    feed = Feed(case)
    S = sampler(feed, h["exact"])
    x = complex(*h["x"])
    if h["kind"] == "minsr":
        eq = MinSR(S, pinvTol=1e-9, diagonalizeOnDevice=h["dev"])
        two = eq
    else:
        kw0 = kw = dict(snrTol=h["tol"] or 1e-6, pinvTol=1e-14, pinvCutoff=h["cut"] / 100 or 1e-8, makeReal=h["mr"], rhsPrefactor=x if x.imag else x.real, diagonalShift=h["sh"] / 2, diagonalizeOnDevice=h["dev"])
        eq = TDVP(S, crossValidation=h["cv"], **kw)
        two = TDVP(S, **kw)
        ill = TDVP(S, **dict(kw, pinvCutoff=1e-13))
    for c in case["calls"]:
        feed.cur = c["set"]
        if h["kind"] == "minsr":
            if c["nsh"] >= 0:
                eq.set_pinv_tol([1e-9, 1e-10, 1e-11][c["nsh"]])
        else:
            if c["nsh"] >= 0:
                h = dict(h, sh=c["nsh"])
                eq.set_diagonal_shift(c["nsh"] / 2)
                two.set_diagonal_shift(c["nsh"] / 2)
                ill.set_diagonal_shift(c["nsh"] / 2)
            if c["ncv"] >= 0:
                eq.set_cross_validation(bool(c["ncv"])) if c["ncv"] == 0 or c["t"] % 2 else eq.set_cross_validation()
        e = dict(c)
        kw = {} if c["st"] < 0 else {"intStep": c["st"]}
        feed.times = []
        u = eq(feed.par, c["t"] / 2, psi=feed, hamiltonian=feed, numSamples=None, **kw)
        e["tok"] = len(feed.times) > 0 and all(t == c["t"] / 2 for t in feed.times)
        if h["kind"] == "minsr":
            e["uc"] = qca(u, 10000)
        else:
            e["u"] = qa(u, 10000)
            e["S"] = qca(eq.get_S(), 10000)
            e["sdot"] = qca(eq.S_dot(jnp.arange(1, h["P"] + 1) * 1.), 10000)
            e["u2"] = qa(two(feed.par, c["t"] / 2, psi=feed, hamiltonian=feed, numSamples=None, **kw), 10000)
        if h["kind"] == "tdvp":
            g, E, p = feed.arrays()
            probe = TDVP(S, makeReal=h["mr"], rhsPrefactor=x, diagonalShift=h["sh"] / 2)
            S1, F = probe.get_sr_equation(SampledObs(E, p), SampledObs(g, p))
            e["srF"] = qca(np.asarray(F), 10000)
            # effect of a small change of the shift, relative to it
            probe.set_diagonal_shift(h["sh"] / 2 + 10. ** -c["small"])
            e["dS"] = qca((np.asarray(probe.get_sr_equation(SampledObs(E, p), SampledObs(g, p))[0]) - np.asarray(S1)) * 10. ** c["small"], 100)
            # first parameter rescaled
            if h["des"] == "orth" and h["cut"] == 0:
                feed.scale = 1e-5
                ui = np.array(ill(feed.par, c["t"] / 2, psi=feed, hamiltonian=feed, numSamples=None, **kw))
                feed.scale = 1.
                ui[0] *= 1e-5
                e["ill"] = qa(ui, 10000)
            # solution for the first half of the sample and what cross validation reports for it
            m = eq.get_metadata()
            e["cv"] = "tdvp_error_cross_validation_ratio" in m
            if c["st"] == 0 and e["cv"]:
                half = lambda x: SampledObs(x, p).subset(start=0, step=2)
                u1 = TDVP(S, **dict(kw0, diagonalShift=h["sh"] / 2)).solve(half(E), half(g))[0]
                num = lambda x, s: q(x, s) if np.isfinite(x) and abs(x) * s < 10**9 else -1
                err, res = [float(np.ravel(x)[0]) for x in eq.get_residuals()]
                e["half"] = {"u": [num(x, 10000) for x in np.asarray(u1)] if np.all(np.isfinite(u1)) else [10**9] * h["P"],
                             "err": num(float(np.ravel(m["tdvp_error_cross_validation_ratio"])[0]) * err, 10000), "res": num(float(m["tdvp_residual_cross_validation_ratio"]) * res, 100)}
        e["rep"] = reports(eq, h["kind"])
        e["rep2"] = reports(two, h["kind"])
        ev.append(e)


main(run)
