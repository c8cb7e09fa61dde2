from hlib import *
import jVMC.operator as op
STD = {"X", "Y", "Z", "XX", "YY", "ZZ", "decayup", "decaydown", "dephasing"}


def omega(pqr, dim):
    a, b = np.arange(dim)[:, None], np.arange(dim)[None, :]
    return jnp.array((pqr[0] * a + pqr[1] * b + pqr[2] * a * b) % 5 - 2, dtype=float)


def shown(povm):
    res = []
    for kind, dct in (("unitary", povm.unitaries), ("dissipator", povm.dissipators), ("imaginary", povm.imaginaries)):
        for nm in sorted(dct):
            if nm in STD:
                continue
            m = np.asarray(dct[nm])
            same = nm in povm.operators and np.array_equal(np.asarray(povm.operators[nm]), m)
            n = m.shape[0]
            res.append({"name": nm, "kind": kind if same else "inconsistent", "dim": n, "ent": [[a, b, q(m[a, b], 100)] for a, b in ((0, 1), (1, 0), (n - 1, 2), (2, n - 1))]})
    std = sum(1 for nm in STD if nm in povm.operators)
    if std != len(STD) or set(povm.operators) != STD | {r["name"] for r in res}:
        res.append({"name": "?", "kind": "?", "dim": 0, "ent": []})
    return res


def run(case, ev):
    set_devices(case["d"])
    shape, D = tuple(case["shape"]), case["d"]
    povm = op.POVM({"dim": "1D" if len(shape) == 1 else "2D", "L": shape[0]})
    ops = [op.POVMOperator(povm), op.POVMOperator(povm)]
    u = 10. ** -case["unit"]
    descs = [{"name": x["name"], "sites": tuple(i - 1 for i in x["sites"]), "strength": u * x["w"]} for x in case["descs"]]
    for st in case["steps"]:
        prog(st["op"])
        if st["op"] == "reg":
            try:
                getattr(povm, "add_" + st["kind"])(st["name"], omega(st["pqr"], 4**st["size"]))
                ok = True
            except ValueError:
                ok = False
            ev.append(dict(st, ok=ok, shown=shown(povm)))
        elif st["op"] == "add":
            ops[st["o"] - 1].add(descs[st["k"] - 1])
            ev.append(st)
        else:
            c = jnp.array(st["cfgs"], dtype=np.int32).reshape((D, -1) + shape)
            sp, m = ops[st["o"] - 1].get_s_primes(c)
            m = np.asarray(m) / u
            sp = np.asarray(sp).reshape((D, c.shape[1], m.shape[2]) + shape)
            out = []
            for d in range(D):
                for b in range(c.shape[1]):
                    acc = {}
                    for k in range(m.shape[2]):
                        if abs(m[d, b, k]) > 1e-9:
                            t = tuple(ints(sp[d, b, k].ravel()))
                            acc[t] = acc.get(t, 0.) + m[d, b, k]
                    out.append([[list(t), q(v, 10)] for t, v in acc.items()])
            ev.append(dict(st, out=out))


if __name__ == "__main__":
    main(run)
