from vf.core import *


def run(ctx):
    lay = ctx.q([(1, 2, "exact", 4), (1, 1, "mc", 4), (1, 2, "gen", 4), (2, 1, "exact", 3), (2, 2, "mc", 3)],
                [(R, D, f, 12) for f in ("exact", "mc", "gen") for R, D in ((1, 1), (1, 3), (2, 2), (3, 1))])

    def job(k):
        def go():
            R, D, fam, num = lay[k]
            cs = tlc_generate(ctx, "ParamsInEffectGen", num=num, depth=30, seed=ctx.seed * 100 + k, env={"VF_D": str(D), "VF_R": str(R), "VF_S": str(ctx.seed * 10 + k), "VF_F": fam})
            outs = harness(ctx, "h_c13", cs, ranks=R, devices=D, timeout=ctx.q(400, 3000))
            res = []
            # every process is judged on its own
            d = dead_case("R%dD%d%s" % (R, D, fam), outs)
            if d:
                return [d]
            for r, o in enumerate(outs):
                for i, c in enumerate(cs):
                    res.append({"id": "R%dD%d%s/%d@%d" % (R, D, fam, i, r), "h": c["h"], "ev": o[i]["ev"]})
            return res
        return go
    res = parallel([job(k) for k in range(len(lay))] + [lambda: tlc_check(ctx, "ParamsInEffect", ctx.q("ParamsInEffect", "ParamsInEffectBig"))], workers=ctx.q(6, 4))
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "ParamsInEffectTrace", cases, chunk=max(1, (len(cases) + 3) // 4))
    ctx.samples = cases[:1]
    if not ctx.failures:
        selftest(ctx, "ParamsInEffectTrace", cases, [
            ("used", lambda e: e["op"] == "sample", lambda e: e["out"].__setitem__(-1, e["out"][-1] + 10)),
            ("left", lambda e: e["op"] == "tdvp", lambda e: e.__setitem__("pid", 1 + e["pid"] % 3)),
            ("set", lambda e: e["op"] == "upd", lambda e: e.__setitem__("pid", 0))])
