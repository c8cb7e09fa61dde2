from hlib import *
import jVMC.nets as nets
from flax.core import freeze, FrozenDict
from jVMC.vqs import NQS
UU = 1000


def coA(j, s):
    return jnp.sum((jnp.arange(s.shape[0]) + 1 + j) * s)


def coB(j, s):
    return s[0] * ((j % 3) - 1) + (s[1] if s.shape[0] > 1 else 0)


class Leafs(nn.Module):
    leaves: tuple          # (name, shape, first canonical index)
    kind: str

    @nn.compact
    def __call__(self, s):
        return Direct(self, self.leaves, self.kind, s)


def Direct(mod, leaves, kind, s):
    res = 0.
    dt = jnp.complex128 if kind in ("holo", "nonholo") else jnp.float64

    def ini(key, shape):
        x = jax.random.normal(key, shape, dtype=jnp.float64)
        return x if dt == jnp.float64 else x + 1j * jax.random.normal(jax.random.fold_in(key, 1), shape)
    for name, shape, j0 in leaves:
        p = mod.param(name, ini, tuple(shape)).ravel()
        for i in range(p.shape[0]):
            A, B = coA(j0 + i, s), coB(j0 + i, s)
            z = p[i]
            if kind == "real":
                res = res + A * z + 1j * B * z * z
            elif kind in ("realout", "two"):
                res = res + A * z + B * z * z
            elif kind == "holo":
                res = res + A * z + 1j * B * z * z
            else:
                x, y = jnp.real(z), jnp.imag(z)
                res = res + A * x + B * y * y + 1j * B * x * y
    return res


def size(sh):
    return int(np.prod(sh)) if len(sh) else 1


def make(kind, leaves, j0, aux):
    paths = sorted(((l["sub"], l["name"]) if l["sub"] else (l["name"],)) for l in leaves)
    sh = {((l["sub"], l["name"]) if l["sub"] else (l["name"],)): tuple(l["shape"]) for l in leaves}
    idx = {}
    for p in paths:
        idx[p] = j0
        j0 += size(sh[p])
    groups, order = {}, []
    for l in leaves:
        p = (l["sub"], l["name"]) if l["sub"] else (l["name"],)
        if l["sub"] not in groups:
            groups[l["sub"]] = []
            order.append(l["sub"])
        groups[l["sub"]].append((l["name"], sh[p], idx[p]))
    return Top2(groups=tuple((g, tuple(groups[g])) for g in order), kind=kind, aux=aux), j0


class Top2(nn.Module):
    groups: tuple          # (submodule name or "", leaves)
    kind: str
    aux: bool = False

    @nn.compact
    def __call__(self, s):
        res = 0.
        for n, l in self.groups:
            res = res + (Direct(self, l, self.kind, s) if n == "" else Leafs(leaves=l, kind=self.kind, name=n)(s))
        if self.aux:
            dt = jnp.complex128 if self.kind in ("holo", "nonholo") else jnp.float64
            res = res * self.variable("consts", "one", lambda: jnp.ones((), dtype=dt)).value
        return res


def paths_of(tree, pre=()):
    res = []
    for k in sorted(tree):
        v = tree[k]
        if isinstance(v, (dict, FrozenDict)):
            res += paths_of(v, pre + (k,))
        else:
            res.append((pre + (k,), v))
    return res


def tree_vals(tree):
    re, im = [], []
    for _, v in paths_of(tree):
        v = np.asarray(v).ravel()
        re += [float(x) for x in np.real(v)]
        im += [float(x) for x in np.imag(v)]
    return re, im


def build_tree(tree, re, im, cpx):
    """A new tree of the same structure holding the values (canonical order)."""
    re, im = list(re), list(im)

    def go(t):
        out = {}
        for k in sorted(t):
            v = t[k]
            if isinstance(v, (dict, FrozenDict)):
                out[k] = go(v)
            else:
                n = size(v.shape)
                a = np.array(re[:n], dtype=float)
                if cpx:
                    a = a + 1j * np.array(im[:n], dtype=float)
                del re[:n], im[:n]
                out[k] = jnp.array(a.reshape(v.shape), dtype=v.dtype)
        return out
    return go(tree)


def lib_net(name):
    return {
        "RBM": lambda: nets.RBM(numHidden=2, bias=True), "RBMnb": lambda: nets.RBM(numHidden=3, bias=False),
        "CpxRBM": lambda: nets.CpxRBM(numHidden=2, bias=True), "CpxRBMnb": lambda: nets.CpxRBM(numHidden=1, bias=False),
        "FFN": lambda: nets.FFN(layers=(3, 2), bias=True), "CNN": lambda: nets.CNN(F=(2,), channels=(2,), strides=(1,), bias=True),
        "CpxCNN": lambda: nets.CpxCNN(F=(2,), channels=(2,), strides=(1,), bias=True),
        "RNN1D": lambda: nets.RNN1DGeneral(L=4, hiddenSize=2, depth=1, inputDim=2, realValuedOutput=True),
        "two": lambda: (nets.FFN(layers=(2,), bias=True), nets.RBM(numHidden=1, bias=True)),
        "twoRBM": lambda: (nets.RBM(numHidden=1, bias=False), nets.RBM(numHidden=2, bias=True)),
    }[name]()


def run(case, ev):
    h = case["h"]
    set_devices(h["d"])
    D, L = h["d"], h["L"]
    lib = "lib" in h
    if lib:
        net = lib_net(h["lib"])
    elif h["kind"] == "two":
        n1, j = make("two", h["leaves"], 1, h["aux"])
        n2, _ = make("two", h["leaves2"], j, False)
        net = (n1, n2)
    else:
        net, _ = make(h["kind"], h["leaves"], 1, h["aux"])

    def state(seed, batch):
        return NQS(net, seed=seed, batchSize=batch, logarithmic=h.get("log", True))

    def arr(cs):
        return jnp.array(np.array(cs, dtype=np.int32).reshape((D, -1, L)))
    psi = state(h["seed"], h["batch"])
    first = arr([h["first"]] * D)
    if h["firstop"] == "eval":
        psi(first)
    else:
        psi.gradients(first)
    re0, im0 = tree_vals(psi.params)
    N = len(re0)
    v0 = np.asarray(psi.get_parameters())
    Pn = len(v0)
    cpx = Pn == 2 * N
    lrng = np.random.default_rng(case.get("rs", 0))
    # equal seeds give equal states whatever they are first evaluated on
    o1, o2 = state(h["seed"], 5), state(h["seed"] + 1, h["batch"])
    c1 = arr([[1] * L] * (2 * D))
    if h["firstop"] == "eval":
        o1.gradients(c1)
    else:
        o1(c1)
    o2(first)
    ev.append({"op": "seed", "n": N, "p": Pn, "equal": bool(np.array_equal(np.asarray(o1.get_parameters()), v0)) and len(set(REAL.allgather(v0.tobytes()))) == 1 and o1.holomorphic == psi.holomorphic and o1.realParams == psi.realParams,
               "other": bool(not np.array_equal(np.asarray(o2.get_parameters()), v0))})
    saved = None

    def readout(e):
        re, im = tree_vals(psi.params)
        return dict(e, tre=[q(x, UU) for x in re], tim=[q(x, UU) for x in im], vec=qa(np.asarray(psi.get_parameters()), UU))
    for st in case["steps"]:
        prog(st["op"])
        o = st["op"]
        if o == "probe":
            m = []
            for k in range(Pn):
                e = np.zeros(Pn)
                e[k] = 1.
                psi.set_parameters(jnp.array(e))
                re, im = tree_vals(psi.params)
                a = [(i + 1, 0) for i, x in enumerate(re) if x == 1.] + [(i + 1, 1) for i, x in enumerate(im) if x == 1.]
                nz = sum(1 for x in re + im if x != 0.)
                m.append(list(a[0]) if len(a) == 1 and nz == 1 else [0, 0])
            psi.set_parameters(jnp.zeros(Pn))
            ev.append(dict(st, map=m))
            continue
        if o == "fine":
            num = lambda v: jnp.array([a + b * 2.**-48 for a, b in v])
            back = lambda: [[int(round(x)), q((x - round(x)) * 2.**48, 1)] for x in np.asarray(psi.get_parameters(), dtype=float).tolist()]
            now = psi.get_parameters()
            psi.set_parameters(num(st["v"]))
            r1 = back()
            psi.update_parameters(num(st["w"]))
            ev.append(dict(st, r1=r1, r2=back()))
            psi.set_parameters(now)
            continue
        if o in ("LSET", "LUPD"):      # library networks: the length is only known here
            st = {"op": {"LSET": "set", "LUPD": "upd"}[o], "v": [int(x) for x in lrng.integers(-3, 4, size=Pn)], "np": False}
            o = st["op"]
        if o == "set":
            v = np.array(st["v"], dtype=float)
            psi.set_parameters(v if st["np"] else jnp.array(v))
        elif o == "upd":
            psi.update_parameters(jnp.array(st["v"], dtype=float))
        elif o == "settree":
            t = build_tree(psi.params, st["re"], st["im"], cpx)
            psi.set_parameters(freeze(t) if st["frozen"] else t)
        elif o == "wb":
            psi.set_parameters(psi.get_parameters())
        elif o == "save":
            saved = psi.params
        elif o == "restore":
            psi.set_parameters(saved)
        e = dict(st)
        if o == "eval":
            r = np.asarray(psi(arr(st["cfgs"])))
            e["out"] = [qc(x, UU) for x in r.ravel()]
        elif o == "grad":
            r = np.asarray(psi.gradients(arr(st["cfgs"])))
            e["out"] = [[qc(x, UU) for x in row] for row in r.reshape((-1, r.shape[-1]))]
        elif o == "gdict":
            g = psi.gradients_dict(arr(st["cfgs"]))
            mp = psi.grad_dict_to_vec_map()
            gp, mpp = paths_of(g), paths_of(mp)
            if [p for p, _ in gp] != [p for p, _ in mpp] or [p for p, _ in gp] != [p for p, _ in paths_of(psi.params)]:
                raise RuntimeError("gradient dictionary, map and parameter tree have different structure")
            e["pos"] = [int(x) + 1 for _, v in mpp for x in np.asarray(v).ravel()]
            nc = len(st["cfgs"])
            e["out"] = [[] for _ in range(nc)]
            for _, v in gp:
                v = np.asarray(v)
                v = v.reshape((nc, -1))
                for i in range(nc):
                    e["out"][i] += [qc(x, UU) for x in v[i]]
        elif o == "fd":
            # numerical derivative at a random point, through the public interface only
            rng = np.random.default_rng(st["rs"])
            p0 = 0.5 * rng.normal(size=Pn)
            c = arr(st["cfgs"])
            psi.set_parameters(jnp.array(p0))
            g = np.asarray(psi.gradients(c))
            g = g.reshape((-1, g.shape[-1]))
            fd = np.zeros((g.shape[0], Pn), dtype=complex)
            hh = 1e-4
            for k in range(Pn):
                vs = []
                for sg in (2, 1, -1, -2):
                    p = p0.copy()
                    p[k] += sg * hh
                    psi.set_parameters(jnp.array(p))
                    vs.append(np.asarray(psi(c)).ravel())
                fd[:, k] = (-vs[0] + 8 * vs[1] - 8 * vs[2] + vs[3]) / (12 * hh)
            ev.append(dict(st, g=[[qc(x, 10000) for x in r] for r in g], fd=[[qc(x, 10000) for x in r] for r in fd]))
            psi.set_parameters(jnp.zeros(Pn))
            continue
        ev.append(readout(e))


main(run)
