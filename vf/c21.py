from vf.core import *


def run(ctx):
    W = ctx.q(2, 6)

    def job(k):
        def go():
            cs = tlc_generate(ctx, "PovmDualGen", seed=ctx.seed * 100 + k, exhaustive=True, env={"VF_N": ctx.q("12", "80")})
            outs = harness(ctx, "h_c21", cs, timeout=ctx.q(400, 3000))
            d = dead_case("job%d" % k, outs)
            if d:
                return [d]
            return [{"id": "job%d/%d" % (k, i), "i": c, "ev": outs[0][i]["ev"]} for i, c in enumerate(cs)]
        return go
    res = parallel([job(k) for k in range(W)] + [lambda: tlc_check(ctx, "PovmDual", ctx.q("PovmDual", "PovmDualBig"), timeout=3000)], workers=4)
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "PovmDualTrace", cases, chunk=max(1, (len(cases) + 7) // 8), timeout=ctx.q(600, 3000))
    ctx.samples = [cases[0].get("i")]
    ctx.assumptions.append("matrices are compared in units of 1e-6 with a tolerance of 2e-4 per summed entry")
    if not ctx.failures:
        is_ = lambda op, mode=None, n=None: (lambda e: e["op"] == op and (mode is None or e["mode"] == mode) and (n is None or len(e["o"]) == n))

        def up(*p):
            def f(e):
                for k in p[:-1]:
                    e = e[k]
                e[p[-1]] += 20000
            return f
        selftest(ctx, "PovmDualTrace", cases, [
            ("operator", is_("povm"), up("M", 1, 0, 1, 1)), ("overlap", is_("povm"), up("T", 0, 1)), ("inverse", is_("povm"), up("Ti", 2, 2)), ("angle", is_("povm"), up("ct")),
            ("distribution", is_("one"), up("p", 3)), ("observable", is_("obs"), up("v", 2)), ("standard observable", is_("stdobs"), up("v", 0)),
            ("unitary", is_("evo", "uni", 4), up("o", 1, 2)), ("dissipator", is_("evo", "dis", 4), up("o", 3, 2)), ("imaginary", is_("evo", "imag", 4), up("o", 0, 0)),
            ("two sites", is_("evo", "dis", 16), up("o", 3, 12)), ("named", is_("std"), up("o", 0, 1))], chunk=2)
