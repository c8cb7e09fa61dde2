from hlib import *
from jVMC.util.symmetries import get_orbit_1D, get_orbit_2D_square

NAMES = {"t": "translation", "r": "reflection", "o": "rotation", "s": "spinflip"}


def root(k):
    return {0: 1., 3: 1.j, 6: -1., 9: -1.j}.get(k % 12, np.exp(2j * np.pi * k / 12))


def run(case, ev):
    for c in case["items"]:
        kw = {NAMES[k] + "_factor": root(v) for k, v in c["ex"].items() if NAMES[k] in c["order"] and (v != 0 or c["L"] % 2)}
        f = get_orbit_1D if c["dim"] == 1 else get_orbit_2D_square
        r = f(c["L"], *c["order"], **kw)
        o, fac = np.asarray(r.orbit), np.asarray(r.factor)
        el = []
        if o.shape[0] != fac.shape[0]:
            raise RuntimeError("numbers of elements and factors differ")
        for m, x in zip(o, fac):
            ok = m.ndim == 2 and m.shape[0] == m.shape[1] and bool(np.all(np.sum(np.abs(m), axis=0) == 1) and np.all(np.sum(np.abs(m), axis=1) == 1))
            p = np.argmax(np.abs(m), axis=1)
            sg = {int(m[i, p[i]]) for i in range(m.shape[0])}
            ok = ok and len(sg) == 1 and sg <= {1, -1}
            el.append({"ok": bool(ok), "p": [int(x) + 1 for x in p], "sg": sorted(sg)[0] if ok else 0, "f": qc(x)})
        ev.append({"dim": c["dim"], "L": c["L"], "sy": c["sy"], "ex": c["ex"], "el": el})


main(run)
