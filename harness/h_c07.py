from hlib import *
import jVMC.operator as op
from h_c05 import build
LN2 = float(np.log(2.))


class Amp(nn.Module):
    n: int
    log: bool
    re: bool
    off: float

    @nn.compact
    def __call__(self, s):
        p = self.param("p", nn.initializers.zeros, (2 * self.n,), jnp.float64)
        x = s.ravel().astype(jnp.float64)
        r = LN2 * jnp.dot(p[:self.n], x) + 0.5j * jnp.pi * jnp.dot(p[self.n:], x)
        r = r + self.off
        if self.log:
            return jnp.real(r) if self.re else r
        return jnp.real(jnp.exp(r)) if self.re else jnp.exp(r)


class Flips(op.Operator):
    """user defined operator without preprocessing of arguments"""

    def __init__(self, v, w, **kw):
        self.v, self.w = (v, w) if v.imag or w.imag else (v.real, w.real)
        super().__init__(**kw)

    def compile(self):
        def f(s, *args):
            n = s.size
            x = s.ravel()
            sp = jnp.array([x.at[i].set(1 - x[i]).reshape(s.shape) for i in range(n)])
            return sp, jnp.ones(n) * (self.v + 2. * self.w * sum(args))
        return f


def run(case, ev):
    set_devices(case["d"])
    L, shape, D = case["L"], tuple(case["shape"]), case["d"]
    n = int(np.prod(shape))
    psi = jVMC.vqs.NQS(Amp(n, case["log"], case["re"], float(case["off"])), logarithmic=case["log"], batchSize=case["nbs"])
    psi(jnp.zeros((D, 1) + shape, dtype=np.int32))
    O = None
    u = 10. ** -case["unit"]
    if case["kind"] == "strings":
        O = op.BranchFreeOperator(lDim=L, ElocBatchSize=case["ebs"])
    for st in case["steps"]:
        prog(st["op"])
        if st["op"] == "add":
            if case["kind"] == "strings":
                for x in st["strs"]:
                    O.add(op.scal_opstr(u, build(x, L)))
            else:
                t = st["strs"][0]["a"][0]
                O = Flips(u * complex(*t["v"]), u * complex(*t["w"]), ElocBatchSize=case["ebs"])
            ev.append(st)
            continue
        vec = lambda p: jnp.array(list(p["th"]) + list(p["ph"]), dtype=jnp.float64)
        psi.set_parameters(vec(st["par"]))
        s = jnp.array(st["cfgs"], dtype=np.int32).reshape((D, -1) + shape)
        args = [a / 2. for a in st["args"]]
        lp = None
        if case["given"]:
            lp = psi(s) if case["log"] else jnp.log(psi(s) + 0.j)
        if st["how"] == "oloc":
            r = O.get_O_loc(s, psi, lp, *args) if args or case["given"] else O.get_O_loc(s, psi)
        else:
            amp = lambda x: psi(x) if case["log"] else jnp.log(psi(x) + 0.j)
            if st["how"] == "batched":
                r = O.get_O_loc_batched(s, psi, amp(s), max(1, case["ebs"]), *args)
            else:
                sp, _ = O.get_s_primes(s, *args)
                r = O.get_O_loc_unbatched(amp(s), amp(sp))
        f = O.get_estimator_function(psi, *args)
        est = jax.vmap(lambda c: f({"params": {"p": vec(st["epar"])}}, c))(s.reshape((-1,) + shape))
        ev.append(dict(st, out=[qc(z, 100) for z in np.asarray(r).ravel() / u], est=[qc(z, 100) for z in np.asarray(est).ravel() / u]))


main(run)
