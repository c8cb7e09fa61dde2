from hlib import *
import copy
from jVMC.sampler import MCSampler
from jVMC.vqs import NQS
from jVMC.nets import sym_wrapper as sw
from jVMC.nets.sym_wrapper import SymNet
from jVMC.nets.two_nets_wrapper import TwoNets
from jVMC.util.symmetries import get_orbit_1D, get_orbit_2D_square
from jVMC.util.util import init_net

NAMES = {"t": "translation", "r": "reflection", "o": "rotation", "s": "spinflip"}
ROOT = {0: 1., 3: 1.j, 6: -1., 9: -1.j}


class Co(nn.Module):
    """A and B of the specification, turned into a complex logarithm (or its real / imaginary part)"""
    ca: tuple
    cb: tuple
    mode: str
    part: str = ""

    @nn.compact
    def __call__(self, s):
        w = self.param("w", nn.initializers.ones, (1,), jnp.float64)[0]
        x = s.ravel()
        A = (self.ca[-1] + jnp.sum(jnp.array(self.ca[:-1]) * x)) % 4
        B = (self.cb[-1] + jnp.sum(jnp.array(self.cb[:-1]) * x)) % 4
        if self.mode == "exp":
            re = 0.5 * jnp.log((1. + A)**2 + (B - 1.)**2)
            im = jnp.arctan2(B - 1., 1. + A)
        elif self.mode == "sep":
            re, im = jnp.log(1. + A), 0.5 * jnp.pi * B
        else:
            re, im = 1. * A, 1. * B
        return {"": w * (re + 1j * im), "re": w * re, "im": w * im}[self.part]


class FixGen(nn.Module):
    pat: tuple
    shape: tuple

    @nn.compact
    def __call__(self, s):
        w = self.param("w", nn.initializers.ones, (1,), jnp.float64)
        x = s.ravel()
        return w[0] * jnp.sum(jnp.arange(x.size) * x) * 0.1

    def sample(self, n, key):
        return jnp.stack([jnp.array(self.pat, dtype=jnp.int32).reshape(self.shape)] * n)


AVG = {"exp": sw.avgFun_Coefficients_Exp, "log": sw.avgFun_Coefficients_Log, "sep": sw.avgFun_Coefficients_Sep}


def run(case, ev):
    D = case["d"]
    set_devices(D)
    shape = (case["L"],) if case["dim"] == 1 else (case["L"], case["L"])
    n = int(np.prod(shape))
    orbf = get_orbit_1D if case["dim"] == 1 else get_orbit_2D_square
    kw = {NAMES[k] + "_factor": ROOT[v] for k, v in case["ex"].items() if NAMES[k] in case["order"]}
    orb = orbf(case["L"], *case["order"], **kw)
    mode = case["mode"]
    if mode == "initnet":
        return initnet(case, ev, shape, orb)
    if mode == "dsample":
        net = FixGen(tuple(case["pat"]), shape)
        if case["two"]:
            net = TwoNets((net, Co(tuple(case["ca"]), tuple(case["cb"]), "log", "im")))
        psi = NQS(net, orbit=orb, seed=3, batchSize=case["batch"])
        S = MCSampler(psi, shape, case["seed"], numSamples=300 * D)
        c, l, p = S.sample()
        ref = np.asarray(psi(c))
        x = np.asarray(c).reshape((-1, n))
        u, k = np.unique(x, axis=0, return_counts=True)
        ev.append({"op": "dsample", "n": int(x.shape[0]), "hist": [[ints(a), int(b)] for a, b in zip(u, k)], "coeff": bool(np.allclose(np.exp(ref), np.exp(np.asarray(l)), equal_nan=True))})
        return
    ca, cb = tuple(case["ca"]), tuple(case["cb"])
    net = TwoNets((Co(ca, cb, mode, "re"), Co(ca, cb, mode, "im"))) if case["two"] else Co(ca, cb, mode)
    if case["wrap"] == "orbit":
        psi = NQS(net if not case["two"] else (Co(ca, cb, mode, "re"), Co(ca, cb, mode, "im")), orbit=orb, avgFun=AVG[mode], seed=2, batchSize=case["batch"])
    else:
        psi = NQS(SymNet(orbit=orb, net=net, avgFun=AVG[mode]), seed=2, batchSize=case["batch"])

    def evaluate(cfgs):
        m = len(cfgs)
        x = np.array(cfgs, dtype=np.int32)
        pad = (-m) % D
        x = np.concatenate([x, np.repeat(x[-1:], pad, axis=0)]) if pad else x
        r = np.asarray(psi(jnp.array(x.reshape((D, -1) + shape)))).ravel()[:m]
        return r

    def present(r):
        if mode == "exp":
            return [qc(np.exp(v), 1000) for v in r]
        if mode == "log":
            return [qc(v, 1000) for v in r]
        return [[q(np.exp(2 * v.real), 1000), q(np.cos(v.imag), 1000), q(np.sin(v.imag), 1000)] for v in r]
    r = evaluate(case["cfgs"])
    f, par = psi.get_sampler_net()
    sre = [complex(f(par, jnp.array(np.array(c).reshape(shape), dtype=jnp.int32))) for c in case["cfgs"]]
    mod = (lambda v: q(v.real, 1000)) if mode == "log" else (lambda v: q(np.exp(v.real), 1000))
    # some of the recorded group elements, applied to the configurations
    o = np.asarray(orb.orbit)
    rng = np.random.default_rng(case["seed"])
    mv, gout = [], []
    for g in rng.permutation(o.shape[0])[:3]:
        pm = np.argmax(np.abs(o[g]), axis=1)
        sg = int(o[g][0, pm[0]])
        moved = [[(c[i] if sg == 1 else 1 - c[i]) for i in pm] for c in case["cfgs"]]
        mv.append({"p": [int(i) + 1 for i in pm], "sg": sg})
        gout.append(present(evaluate(moved)))
    ev.append({"op": "sym", "out": present(r), "re": [mod(v) for v in r], "sre": [mod(v) for v in sre], "mv": mv, "gout": gout})
    # two networks without symmetrisation
    psi2 = NQS((Co(ca, cb, "log", "re"), Co(ca, cb, "log", "im")), seed=2, batchSize=case["batch"])
    psi, keep = psi2, psi
    r = evaluate(case["cfgs"])
    f, par = psi2.get_sampler_net()
    ev.append({"op": "two", "out": [qc(v, 1000) for v in r],
               "sre": [q(f(par, jnp.array(np.array(c).reshape(shape), dtype=jnp.int32)), 1000) for c in case["cfgs"]]})


def initnet(case, ev, shape, orb):
    L, nd = case["L"], len(shape)
    ffn = lambda k: {"type": "FFN", "parameters": {"layers": (2 + k,), "bias": k == 1, "actFun": [["elu", "tanh"][k]]}}
    cnn = lambda ty: {"type": ty, "parameters": {"F": (2,) * nd, "channels": (2, 1), "strides": (1,) * nd, "actFun": ["poly6", "tanh"] if ty == "CNN" else ["poly6", "square"], "bias": True}}
    rnn = lambda act: {"type": "RNN" if nd == 1 else "RNN2D", "parameters": {"L": L, "hiddenSize": 3, "depth": 1, "actFun": act, "realValuedOutput": case["two"]}}
    kinds = [ffn(0), ffn(1), cnn("CNN"), rnn("tanh"), rnn("elu")]
    if not case["two"]:
        kinds.append(cnn("CpxCNN"))
    if nd == 1:
        kinds.append({"type": "RBM" if case["two"] else "CpxRBM", "parameters": {"numHidden": 2, "bias": True}})
    k = (case["seed"] + case["ca"][0]) % len(kinds)
    n1 = kinds[k]
    n2 = [ffn(1), cnn("CNN"), {"type": "RBM", "parameters": {"numHidden": 2, "bias": False}}][case["seed"] % (3 if nd == 1 else 2)]
    gen = n1["type"].startswith("RNN")
    descr = {"net1": n1, "batch_size": case["batch"]}
    if case["two"]:
        descr["net2"] = n2
    for s in case["order"]:
        descr[s] = True
    for k, v in case["ex"].items():
        if NAMES[k] in case["order"] and v:
            descr[NAMES[k] + "_factor"] = ROOT[v]
    before = copy.deepcopy(descr)
    psi = init_net(descr, shape, seed=case["seed"])
    acts = jVMC.nets.activation_functions.activationFunctions

    def build(d):
        par = dict(d["parameters"])
        if "actFun" in par:
            par["actFun"] = tuple(acts[a] for a in par["actFun"]) if isinstance(par["actFun"], list) else acts[par["actFun"]]
        return getattr(jVMC.nets, {"RNN": "RNN1DGeneral", "RNN2D": "RNN2DGeneral"}.get(d["type"], d["type"]))(**par)
    net = build(n1)
    if case["two"]:
        net = TwoNets((net, build(n2)))
    ref = NQS(SymNet(orbit=orb, net=net, avgFun=sw.avgFun_Coefficients_Sep if gen else sw.avgFun_Coefficients_Exp), seed=case["seed"], batchSize=case["batch"])
    m = len(case["cfgs"])
    D = case["d"]
    x = np.array((case["cfgs"] * D)[:m // D * D], dtype=np.int32).reshape((D, -1) + shape)
    a, b = np.asarray(psi(jnp.array(x))).ravel(), np.asarray(ref(jnp.array(x))).ravel()
    ev.append({"op": "initnet", "a": [qc(np.exp(v), 1000) for v in a], "b": [qc(np.exp(v), 1000) for v in b],
               "same": descr == before and psi.batchSize == case["batch"]})


main(run)
