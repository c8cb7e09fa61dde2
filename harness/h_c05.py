from hlib import *
import jVMC.operator as op
NAMED = {"Sx": op.Sx, "Sy": op.Sy, "Sz": op.Sz, "Sp": op.Sp, "Sm": op.Sm, "n": op.number, "c+": op.creation, "c": op.annihilation}


def num(v):
    return complex(*v) if v[1] != 0 else (float(v[0]) if v[0] % 2 else int(v[0]))


SHARED = {}


def tok(t, L, plain=False):
    # equal factors are one object
    k = repr((t, L))
    if k not in SHARED:
        SHARED[k] = tok_(t, L)
    o = SHARED[k]
    return dict(o) if plain and t.get("pd") else o


def tok_(t, L):
    if t["t"] == "num":
        return num(t["v"])
    if t["t"] == "fun":
        v, w = complex(*t["v"]), complex(*t["w"])
        return lambda *a: v + 2. * w * sum(a)       # (arguments are passed as halves)
    i = t["site"] - 1
    if t["name"] == "Id":
        return op.Id(i, lDim=L)
    if t["name"] == "custom":
        return op.LocalOp(idx=i, map=jnp.array(t["map"], dtype=np.int32), matEls=jnp.array([complex(*m) for m in t["me"]]), diag=t["diag"])
    return NAMED[t["name"]](i)


def right(ts):
    r = ts[-1]
    for t in reversed(ts[:-1]):
        r = t * r
    return r if isinstance(r, tuple) else op.OpStr(r)


def build(x, L):
    st = x["style"]
    # plain dictionaries wherever they can be combined with the other factors
    ok = lambda ts, i: st in ("ctor", "tuple", "scal") or (st == "left" and i > 0) or (st in ("right", "halves") and i < len(ts) - 1)
    a, b = [[tok(t, L, ok(ts, i)) for i, t in enumerate(ts)] for ts in (x["a"], x["b"])]
    if st == "ctor":
        return op.OpStr(*a)
    if st == "left":
        r = a[0]
        for t in a[1:]:
            r = r * t
        return r if isinstance(r, tuple) else op.OpStr(r)
    if st == "right":
        return right(a)
    if st == "halves":
        return right(a) * right(b)
    if st == "scal":
        return op.scal_opstr(a[0], op.OpStr(*b))
    if st == "tuple":
        return tuple(a)


def run(case, ev):
    set_devices(case["d"])
    L, shape, D = case["L"], tuple(case["shape"]), case["d"]
    O = op.BranchFreeOperator(lDim=L)
    u = 10. ** -case["unit"]
    flip, built = 0, []
    SHARED.clear()
    for st in case["steps"]:
        prog(st["op"])
        built.append([])
        if st["op"] == "add":
            for i, x in enumerate(st["strs"]):
                flip += 1
                if "again" in st:
                    s = built[st["again"] - 1][i]
                else:
                    s = build(x, L)
                    if case["unit"]:
                        s = op.scal_opstr(u, s)
                built[-1].append(s)
                if flip % 2:
                    O.add(s)
                else:
                    O += s
            ev.append(st)
            continue
        c = jnp.array(st["cfgs"], dtype=np.int32).reshape((D, -1) + shape)
        n0 = len(PROXY.log)
        sp, m = O.get_s_primes(c, *[a / 2. for a in st["args"]])
        coll = PROXY.log[n0:]
        m = np.asarray(m) / u
        sp = np.asarray(sp).reshape((D, c.shape[1], m.shape[2]) + shape)
        out = [[[ints(sp[d, b, k].ravel()), qc(m[d, b, k], 10)] for k in range(m.shape[2]) if abs(m[d, b, k]) > 1e-3]
               for d in range(D) for b in range(c.shape[1])]
        ev.append(dict(st, out=out, coll=coll))


if __name__ == "__main__":
    main(run)
