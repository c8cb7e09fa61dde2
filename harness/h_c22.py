from hlib import *
import itertools, re
from flax.core import freeze, unfreeze
from flax.traverse_util import flatten_dict, unflatten_dict
from jVMC.vqs import NQS
from jVMC.util.symmetries import get_orbit_1D
import jVMC.nets.activation_functions as af
import jVMC.nets as nets

ident = lambda x: x
ACT = {"square": af.activationFunctions["square"], "relu": af.activationFunctions["relu"], "id": ident}


def fill(psi, s0, layers, dtype, biased):
    """kernel and bias of the k-th layer (in the order of the layers' numbers); a bias in a layer that should have none is set to one, so that it shows"""
    psi(s0)
    tree = flatten_dict(unfreeze(psi.params))
    num = lambda path: [int(m) for p in path[:-1] for m in re.findall(r"(\d+)$", p)]
    mods = sorted({p[:-1] for p in tree}, key=lambda p: num(p + ("",)))
    assert len(mods) == len(layers), "number of layers %d" % len(mods)
    new = {}
    for m, (w, b), on in zip(mods, layers, biased):
        for p in tree:
            if p[:-1] == m:
                v = w if p[-1] == "kernel" else b if on else np.ones(tree[p].shape)
                new[p] = jnp.array(np.asarray(v, dtype=dtype).reshape(tree[p].shape)).astype(tree[p].dtype)
    psi.set_parameters(freeze(unflatten_dict(new)) if not isinstance(psi.params, dict) else unflatten_dict(new))


def cplx(a):
    a = np.asarray(a, dtype=float)
    return a[..., 0] + 1j * a[..., 1]


def run(case, ev):
    D = case.get("d", 1)
    set_devices(D)
    if case["kind"] == "act":
        x = np.arange(-3, 4)
        lx = [0, 1, -1, 2, -3, 7, -11, 20, 300, -900]
        ev.append({"op": "act", "x": ints(x), "poly6": qa(af.activationFunctions["poly6"](jnp.array(x * 1.)), 10000), "poly5": qa(af.activationFunctions["poly5"](jnp.array(x * 1.)), 10000),
                   "square": qa(af.activationFunctions["square"](jnp.array(x * 1.)), 10000), "lx": lx, "lc": qa(jnp.real(af.log_cosh(jnp.array(lx) + 0j)), 100000)})
        return
    shape = (case["sh"][0],) if case["dim"] == 1 else tuple(case["sh"])
    kw = lambda n: n[:1] if case["dim"] == 1 else n
    kind = case["kind"]
    if kind in ("sym", "translate"):
        X = np.array(list(itertools.product((0, 1), repeat=int(np.prod(shape)))), dtype=np.int32)
        args = {"F": (case["F"],) * len(shape), "channels": (case["ch"],), "strides": (1,) * len(shape), "bias": case["bias"], "firstLayerBias": case["bias"]}
        plain = NQS({"cpx": nets.CpxCNN, "real": nets.CNN}[case.get("net", "cpx")](**args), seed=case["seed"], batchSize=50)
        s0 = jnp.array(X.reshape((1, -1) + shape))
        plain(s0)
        rng = np.random.default_rng(case["seed"])
        plain.set_parameters(jnp.array(rng.normal(size=plain.get_parameters().shape) * .3))
        if kind == "translate":
            c = jnp.array(case["cfg"], dtype=np.int32).reshape(shape)
            ev.append({"op": "translate", "v": qca(plain(jnp.array([[jnp.roll(c, k, axis=0) for k in range(shape[0])]]))[0], 10000)})
            return
        orbit = get_orbit_1D(shape[0], *[n for n, b in zip(("translation", "reflection", "spinflip"), case["sy"]) if b])
        S = NQS(nets.CpxCNNSym(orbit=orbit, **args), seed=1, batchSize=50)
        S(s0)
        S.set_parameters(plain.get_parameters())
        ev.append({"op": "sym", "plain": qca(plain(s0)[0], 100000), "sym": qca(S(s0)[0], 100000)})
        return
    if kind in ("cnn", "cpxcnn"):
        net = (nets.CNN if kind == "cnn" else nets.CpxCNN)(F=tuple(kw(case["F"])), channels=tuple(case["ch"]), strides=tuple(kw(case["s"])), actFun=tuple(ACT[a] for a in case["acts"]),
                                                           bias=case["bias"], firstLayerBias=case["fb"], periodicBoundary=case["per"])
        layers = [(cplx(y["w"]), cplx(y["b"])) for y in case["ls"]]
    elif kind == "ffn":
        net = nets.FFN(layers=tuple(case["ch"][:-1]), bias=case["bias"], actFun=tuple(ACT[a] for a in case["acts"]))
        layers = [(cplx(y["w"]), cplx(y["b"])) for y in case["ls"]]
    else:
        net = {"rbm": nets.RBM, "cpxrbm": nets.CpxRBM, "nospin": nets.CpxRBM_Nospinflip}[kind](numHidden=case["h"], bias=case["bias"])
        sc = lambda a: case["big"] * a.real + .5j * np.pi * a.imag
        layers = [(sc(cplx(case["w"])), sc(cplx(case["b"])))]
    if not kind.startswith("cpx") and kind != "nospin":
        layers = [(w.real, b.real) for w, b in layers]
    s = jnp.array(case["cfgs"], dtype=np.int32)
    pad = (-len(case["cfgs"])) % D
    s = jnp.concatenate([s, s[:pad]]).reshape((D, -1) + shape)
    psi = NQS(net, batchSize=case["batch"])
    fill(psi, s, layers, np.complex128 if kind.startswith("cpx") or kind == "nospin" else np.float64, [case.get("fb", case["bias"])] + [case["bias"]] * len(layers))
    v = np.asarray(psi(s)).ravel()[:len(case["cfgs"])]
    if kind in ("cnn", "cpxcnn"):
        ev.append({"op": "conv", "v": qca(v * case["m"]**.5, 100), "v2": qca(v * case["m2"]**.5, 100)})
    elif kind == "ffn":
        ev.append({"op": "dense", "v": qca(v, 100)})
    else:
        ev.append({"op": "rbm", "re": qa(np.real(v), 100000), "ph": [q(x, 1000) for x in np.imag(v) / (np.pi / 2)]})


main(run)
