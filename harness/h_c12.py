from hlib import *
import jVMC.sampler as smp
from jVMC.sampler import MCSampler
from jVMC.vqs import NQS
from jVMC.util.symmetries import get_orbit_1D


class Const(nn.Module):
    @nn.compact
    def __call__(self, s):
        w = self.param("w", nn.initializers.ones, (1,), jnp.float64)
        return 0. * jnp.sum(w) * jnp.sum(s)


class KeyGen(nn.Module):
    """direct samples that show the random key they were drawn with"""
    @nn.compact
    def __call__(self, s):
        w = self.param("w", nn.initializers.ones, (1,), jnp.float64)
        return 0. * jnp.sum(w) * jnp.sum(s)

    def sample(self, n, key):
        b = jax.lax.bitcast_convert_type(key.astype(jnp.uint32), jnp.int32)
        return jnp.stack([jnp.concatenate([b, jnp.array([i], dtype=jnp.int32)]) for i in range(n)])


PAT = np.array([0, 0, 1, 0, 1, 1])
ORBIT = np.asarray(get_orbit_1D(6, "translation", "reflection").orbit)


class FixGen(nn.Module):
    @nn.compact
    def __call__(self, s):
        w = self.param("w", nn.initializers.ones, (1,), jnp.float64)
        return 0. * jnp.sum(w) * jnp.sum(s)

    def sample(self, n, key):
        return jnp.stack([jnp.array(PAT, dtype=jnp.int32)] * n)


class OrbGen(FixGen):
    """direct samples that are random images themselves"""

    def sample(self, n, key):
        idx = jax.random.choice(key, len(ORBIT), shape=(n,))
        return ((jnp.einsum("bij,j->bi", jnp.array(ORBIT)[idx], 2 * jnp.array(PAT) - 1) + 1) // 2).astype(jnp.int32)


def propose_key(key, s, info):
    return jax.lax.bitcast_convert_type(key.astype(jnp.uint32), jnp.int32).astype(s.dtype)


# keys that can be split off a key: all of split(k, n) for small n, and those again split off the halves of k
FAN = range(1, 14)


@jax.jit
@jax.vmap
def splits(k):
    one = lambda q: jnp.concatenate([jax.random.split(q, n) for n in FAN])
    h = jax.random.split(k, 2)
    return jnp.concatenate([one(k), one(h[0]), one(h[1])])


def derived(full, known):
    """full: keys handed out by this call; known: key -> the earlier key it can be split off.
    Returns the pairs (key, earlier key it was split off), and notes the keys that can be split off the new ones."""
    m = lambda k: [int(k[0]) & 0x7fffffff, int(k[1]) & 0x7fffffff]
    B = 32
    for b in range(0, len(full), B):
        part = full[b:b + B]
        off = np.asarray(splits(jnp.asarray(np.array(part + [part[0]] * (B - len(part)), dtype=np.uint32)))).tolist()
        for k, ds in zip(part, off):
            for d in ds:
                known.setdefault((d[0], d[1]), k)
    return [[m(k), m(known[k])] for k in full if k in known]


IMAGES = sorted({tuple(np.roll(x, k)) for x in (PAT, PAT[::-1]) for k in range(6)})


def pairs(bits):
    h = len(bits) // 2
    return [int("".join(map(str, bits[:h])), 2), int("".join(map(str, bits[h:])), 2)]


def run(case, ev):
    h = case["h"]
    kind, D = case["kind"], h["d"]
    set_devices(D)
    shape = {"mckey": (2,), "genkey": (3,), "flip": (40,), "rnn": (40,), "orb": (6,), "orb2": (6,)}[kind]

    def psi():
        if kind == "mckey" or kind == "flip":
            return NQS(Const(), seed=1)
        if kind == "genkey":
            return NQS(KeyGen(), seed=1)
        if kind in ("orb", "orb2"):
            return NQS(FixGen() if kind == "orb" else OrbGen(), seed=1, orbit=get_orbit_1D(6, "translation", "reflection"))
        return NQS(jVMC.nets.RNN1DGeneral(L=40, hiddenSize=2, depth=1, inputDim=2, realValuedOutput=True), seed=1)
    P = psi()
    if kind == "rnn":       # nearly uniform conditionals
        P(jnp.zeros((D, 1, 40), dtype=np.int32))
        P.set_parameters(0.02 * P.get_parameters())
    S, known = {}, {}
    for st in case["steps"]:
        prog(st)
        if st["op"] == "new":
            kw = {}
            if kind == "mckey":
                kw["updateProposer"] = propose_key
            if kind == "flip":
                kw["updateProposer"] = smp.propose_spin_flip
            root = 100 + st["root"]
            S[st["o"]] = MCSampler(P, shape, root if st["int"] else jax.random.PRNGKey(root), numChains=h["chains"], sweepSteps=h["sweep"],
                                   thermalizationSweeps=h["therm"], **kw)
            ev.append(st)
        elif st["op"] == "reset":
            S[st["o"]].set_random_key(jax.random.PRNGKey(100 + st["root"]))
            ev.append(st)
        else:
            c = np.asarray(S[st["o"]].sample(numSamples=st["n"])[0])
            der, imgs = [], 12
            if kind in ("mckey", "genkey"):
                full = {(int(x[0]) & 0xffffffff, int(x[1]) & 0xffffffff) for x in c.reshape((-1, c.shape[-1]))}
                der = derived(sorted(full), known)
                c = np.concatenate([c[..., :2] & 0x7fffffff, c[..., 2:]], axis=-1)
            if kind == "mckey":
                keys = [[[int(x[0]), int(x[1])] for x in row] for row in c]
            elif kind == "genkey":      # one key per device; every row of a device shows it together with its number
                for row in c:
                    if len({(int(x[0]), int(x[1])) for x in row}) != 1:
                        raise RuntimeError("rows of one device with different keys")
                keys = [[[int(row[0][0]), int(row[0][1])]] for row in c]
            elif kind in ("orb", "orb2"):
                idx = [[IMAGES.index(tuple(ints(x))) for x in row] for row in c]
                code = lambda l: sum(v * 12**k for k, v in enumerate(l))
                keys = [[[code(row[:7]), code(row[7:14])]] for row in idx]
                imgs = len({k for row in idx for k in row})
            else:
                keys = [[pairs(ints(x)) for x in row] for row in c]
            ev.append(dict(st, keys=keys, der=der, imgs=imgs))


main(run)
