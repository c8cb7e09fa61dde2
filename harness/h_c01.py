from hlib import *
from jVMC.sampler import MCSampler
import jVMC.sampler as smp


class Lin(nn.Module):
    @nn.compact
    def __call__(self, s):
        w = self.param("w", nn.initializers.ones, (3,), jnp.float64)
        return jnp.sum(0.1 * w * s)


class Gen(nn.Module):
    @nn.compact
    def __call__(self, s):
        w = self.param("w", nn.initializers.ones, (3,), jnp.float64)
        return jnp.sum(0. * w * s) - 1.5 * jnp.log(2.)

    def sample(self, n, key):
        return jax.random.randint(key, (n, 3), 0, 2)


def run(case, ev):
    if case["kind"] == "grid":
        for n, d, ch in case["grid"]:
            per, glob = mpi.distribute_sampling(n, localDevices=d, numChainsPerDevice=ch)
            ev.append({"op": "dist", "n": n, "d": d, "ch": ch, "per": int(per), "glob": int(glob)})
        for n in case["split"]:
            per, glob = mpi.distribute_sampling(n)
            ev.append({"op": "split", "n": n, "per": int(per), "glob": int(glob), "first": int(mpi.first_sample_id())})
        return
    set_devices(case["d"])
    net = Gen() if case["kind"] == "gen" else Lin()
    psi = jVMC.vqs.NQS(net, seed=1)
    kw = dict(updateProposer=smp.propose_spin_flip) if case["kind"] == "mcmc" else {}
    s = MCSampler(psi, (3,), jax.random.PRNGKey(3), numChains=case["chains"], numSamples=case["init"], sweepSteps=1,
                  thermalizationSweeps=1, **kw)
    for st in case["steps"]:
        prog(st)
        if st["op"] == "setN":
            s.set_number_of_samples(st["n"])
            ev.append(dict(st))
            continue
        kw = {} if st["n"] == 0 else {"numSamples": st["n"]}
        if st["m"] != 1:
            kw["multipleOf"] = st["m"]
        c, l, p = s.sample(**kw)
        pn = np.asarray(p)
        ev.append(dict(st, shapes=[c.shape[0], l.shape[0], pn.shape[0]], counts=[c.shape[1], l.shape[1], pn.shape[1]],
                       reported=int(s.get_last_number_of_samples()), wsum=q(pn.sum()),
                       wmin=q(pn.min()) if pn.size else 0, wmax=q(pn.max()) if pn.size else 0))


main(run)
