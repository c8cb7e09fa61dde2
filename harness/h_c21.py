from hlib import *
from jVMC.operator import povm as pv

LONG = {"uni": "unitary", "dis": "dissipative", "imag": "imaginary", "obs": "observable"}


def run(case, ev):
    th, ph = case["theta"] * .1, case["phi"] * .1
    P = pv.POVM({"dim": "1D", "L": 2}, theta=th, phi=ph)
    M, Ti = P.M, P.T_inv
    ev.append({"op": "povm", "M": qca(M), "T": qa(np.real(P.T)), "Ti": qa(np.real(Ti)), "ct": q(math.cos(th)), "st": q(math.sin(th)), "cp": q(math.cos(ph)), "sp": q(math.sin(ph))})
    for nm in ("z_up", "z_down", "x_up", "x_down", "y_up", "y_down"):
        ev.append({"op": "one", "name": nm, "p": qa(pv.get_1_particle_distributions(nm, P))})
    for nm, v in sorted(P.observables.items()):
        ev.append({"op": "stdobs", "name": nm, "v": qa(v)})
    M2 = jnp.array([jnp.kron(M[i], M[j]) for i in range(4) for j in range(4)])
    Ti2 = jnp.kron(Ti, Ti)

    def ask(reqs):
        for r in reqs:
            A = jnp.array([[complex(*x) for x in row] for row in r["A"]])
            m, t = (M, Ti) if A.shape[0] == 2 else (M2, Ti2)
            o = pv.matrix_to_povm(A, m, t, mode=LONG[r["mode"]] if r["alias"] else r["mode"])
            if r["mode"] == "obs":
                ev.append({"op": "obs", "A": r["A"], "v": qa(o)})
            else:
                ev.append({"op": "evo", "mode": r["mode"], "A": r["A"], "o": qa(o)})
    if case["order"]:
        ask(case["reqs"])
    for mode, d in (("uni", P.unitaries), ("dis", P.dissipators)):
        for nm, o in sorted(d.items()):
            ev.append({"op": "std", "mode": mode, "name": nm, "o": qa(o)})
    for nm, o in sorted(P.operators.items()):
        ev.append({"op": "std", "mode": "uni" if nm in P.unitaries else "dis", "name": nm, "o": qa(o)})
    if not case["order"]:
        ask(case["reqs"])
    for nm in ("X", "Y", "Z", "XX", "YY", "ZZ", "decayup", "decaydown", "dephasing"):
        if nm not in P.operators:
            raise KeyError(nm)


main(run)
