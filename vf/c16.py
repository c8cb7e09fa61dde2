from vf.core import *


def run(ctx):
    def job(k):
        def go():
            cs = tlc_generate(ctx, "IntegratorGen", num=ctx.q(60, 500), depth=40, seed=ctx.seed * 100 + k)
            outs = harness(ctx, "h_c16", cs, timeout=ctx.q(400, 3000))
            ms = merge(outs, cs, {"id": "steps#%d" % k, "R": 1}, ())
            for c in ms:
                c["h"] = (c.pop("input", None) or {}).get("h", {})
            return ms
        return go
    res = parallel([job(k) for k in range(ctx.q(3, 6))] + [lambda: tlc_check(ctx, "Integrator", ctx.q("Integrator", "IntegratorBig"), timeout=2000)], workers=4)
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "IntegratorTrace", cases, chunk=max(1, (len(cases) + 3) // 4), timeout=ctx.q(600, 3000))
    ctx.samples = cases[:1]
    if not ctx.failures:
        up = lambda f, k, d: (lambda e: e[f].__setitem__(k, e[f][k] + d))
        for sch in ("euler", "heun", "adaptive", "adaptiveN"):
            selftest(ctx, "IntegratorTrace", [c for c in cases if c["h"]["sch"] == sch], [
                (sch + " result", lambda e: True, up("y1", 0, 2000)),
                (sch + " step", lambda e: True, lambda e: e.__setitem__("dt", e["dt"] + 20)),
                (sch + " stage time", lambda e: True, lambda e: e["calls"][-1].__setitem__("t", e["calls"][-1]["t"] + 10)),
                (sch + " stage number", lambda e: True, lambda e: e["calls"][-1].__setitem__("i", 7)),
                (sch + " stage point", lambda e: True, lambda e: e["calls"][-1]["y"].__setitem__(0, e["calls"][-1]["y"][0] + 2000)),
                (sch + " arguments", lambda e: True, lambda e: e["calls"][0]["args"].append(["x", "1"])),
                (sch + " next", lambda e: True, lambda e: e.__setitem__("dtn", e["dtn"] + 90000))])
