from hlib import *
from jVMC.util.stepper import Euler, Heun, AdaptiveHeun


def flat(v):
    v = np.asarray(v).ravel()
    return [q(x.real) for x in v] + ([q(x.imag) for x in v] if np.iscomplexobj(v) else [])


def run(case, ev):
    h = case["h"]
    lib = np if h["lib"] == "np" else jnp
    dt, tol, mx = h["dt"] / 100, h["tol"] / 1000, h["mx"] / 100
    st = {"euler": lambda: Euler(timeStep=dt), "heun": lambda: Heun(timeStep=dt)}.get(h["sch"], lambda: AdaptiveHeun(timeStep=dt, tol=tol, maxStep=mx))()
    rng = np.random.default_rng(h["seed"])
    a = rng.integers(1, 9, size=6)
    token = object()
    for s in case["steps"]:
        n = h["n"]
        if s["newdt"]:
            st.set_dt(s["newdt"] / 100)
        y0 = np.array(s["y"], dtype=float)
        y0 = (y0[:n] + 1j * y0[n:]) if h["cpx"] else y0
        off = h["off"] * ((1 + 1j) if h["cpx"] else 1)      # a large constant added to y throughout
        y0 = y0 + off
        y0 = lib.array(y0 if not h["two"] else y0[:, None])
        orig = np.array(y0)
        t = s["t"] / 4
        calls, refs, norms = [], [], []
        extra = [{}, {"numSamples": 7}, {"psi": token, "outp": 3}, {"numSamples": 0, "hamiltonian": token}][s["args"]]
        kw = dict(extra)
        if s["dtarg"]:
            kw["dt"] = s["dtarg"] / 100

        def canon(d):
            return sorted([k, "token" if v is token else repr(v)] for k, v in d.items())

        def f(y, tt, *args, **ka):
            i = ka.pop("intStep", -1)
            refs.append((y, np.array(y)))
            x = np.asarray(y) - off

            def g(z):
                return ((np.round(a[0] * z * 3 + a[1] * tt * 7) + a[2] * i + a[3] * np.arange(z.size).reshape(z.shape) + a[4] * len(calls) * (h["sch"] == "adaptive")) % 9) - 4
            k = g(x.real)
            if h["cpx"]:
                k = k + 1j * g(x.imag + 0.3)
            # the default-norm mode needs errors that vanish with the step: fall back to a constant derivative
            if h["sch"] == "adaptiveN" and len(calls) >= 40:
                k = k * 0
            kf = np.asarray(k).ravel()
            calls.append({"y": flat(x), "t": q(tt), "i": int(i), "args": canon(ka) + ([["positional", str(len(args))]] if args else []),
                          "k": [int(v) for v in kf.real] + ([int(v) for v in kf.imag] if h["cpx"] else [])})
            if len(calls) > 200:
                raise RuntimeError("the step does not end")
            return lib.array(k)
        script = list(s["trials"])

        def norm(v):
            norms.append(flat(v))
            if len(norms) <= len(script):
                p, r = script[len(norms) - 1]
                return jnp.float64(0.) if r == 0 else jnp.float64(tol if p == r else tol * r**3 / p**3)
            return jnp.float64(tol * 1e-3)
        if h["sch"] == "adaptive":
            y1, d = st.step(t, f, y0, normFunction=norm, **kw)
        else:
            y1, d = st.step(t, f, y0, **kw)
        kept = bool(np.array_equal(orig, np.asarray(y0))) and all(np.array_equal(np.asarray(r), c) for r, c in refs)
        ev.append({"op": "step", "t": q(t), "y0": flat(orig - off), "calls": calls, "diffs": norms, "errs": script[:max(len(norms), 1)] + [[10, 1]] * max(0, len(norms) - len(script)),
                   "args": canon(kw), "dtarg": s["dtarg"] * 10000, "newdt": s["newdt"] * 10000, "y1": flat(np.asarray(y1) - off), "dt": q(d), "dtn": q(st.dt), "kept": kept})


main(run)
