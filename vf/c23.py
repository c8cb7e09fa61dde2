from vf.core import *


def run(ctx):
    lay = ctx.q([(1, 1, 24), (1, 2, 18), (2, 1, 14), (2, 2, 8)], [(1, 1, 120), (1, 2, 90), (1, 3, 60), (2, 1, 80), (2, 2, 50), (3, 1, 50), (4, 1, 40)])

    def job(k):
        def go():
            R, D, num = lay[k]
            cs = tlc_generate(ctx, "EvolutionGen", num=num, depth=9, seed=ctx.seed * 100 + k, env={"VF_D": str(D)})
            outs = harness(ctx, "h_c23", cs, ranks=R, devices=D, timeout=ctx.q(500, 3000))
            d = dead_case("R%dD%d" % (R, D), outs)
            if d:
                return [d]
            return [{"id": "R%dD%d/%d@%d" % (R, D, i, r), "h": c["h"], "ev": o[i]["ev"]} for r, o in enumerate(outs) for i, c in enumerate(cs)]
        return go
    res = parallel([job(k) for k in range(len(lay))] + [lambda: tlc_check(ctx, "Evolution", ctx.q("Evolution", "EvolutionBig"), timeout=2500)], workers=5)
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "EvolutionTrace", cases, chunk=max(1, (len(cases) + 5) // 6), timeout=ctx.q(600, 3000))
    ctx.samples = cases[:1]
    if not ctx.failures:
        mv = lambda e: e["op"] == "move"

        def up(*p):
            def f(e):
                for k in p[:-1]:
                    e = e[k]
                e[p[-1]] += 60
            return f
        selftest(ctx, "EvolutionTrace", [c for c in cases if c["h"]["sam"] == "exact"], [
            ("motion", mv, up("u", 1, 0)), ("phase motion", mv, up("u", 0, 1)), ("energy", mv, up("mean")), ("variance", lambda e: mv(e) and e["var"] < 200, up("var")),
            ("missing configuration", mv, lambda e: e["cnt"].__setitem__(0, 0)), ("parameters", mv, lambda e: e.__setitem__("kept", False))])
