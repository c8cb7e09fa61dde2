from vf.core import *


def run(ctx):
    lay = ctx.q([(1, 7), (1, 3), (2, 3), (3, 2)], [(1, 7), (1, 4), (1, 8), (2, 3), (2, 5), (3, 2), (3, 4), (4, 3), (5, 2)])
    nses = ctx.q(7, 30)

    def job(k):
        R, D = lay[k]

        def go():
            ses = tlc_generate(ctx, "ExactEnumGen", num=nses, depth=8, seed=ctx.seed * 100 + k, env={"VF_D": str(D), "VF_BIG": ctx.q("0", "1")})
            ses = [s for s in ses if s["L"] ** _prod(s["shape"]) >= R]
            outs = harness(ctx, "h_c02", ses, ranks=R, devices=D)
            cs = merge(outs, ses, {"id": "R%dD%d" % (R, D), "R": R}, ("res", "shp"))
            for c in cs:
                if "input" in c:
                    i = c.pop("input")
                    c.update(D=i["d"], L=i["L"], shape=i["shape"])
            return cs
        return go
    bigs = [{"L": L, "shape": sh, "site": st, "d": d} for L, sh, st, d in ctx.q([(3, [10], 4, 2), (2, [16], 15, 3), (4, [2, 4], 0, 1)],
                                                                              [(3, [10], 4, 2), (2, [16], 15, 3), (4, [2, 4], 0, 1), (2, [17], 0, 1), (2, [3, 6], 7, 4), (5, [7], 3, 2), (3, [11], 10, 3)])]

    def large(R):
        def go():
            cs = [dict(b, d=min(b["d"], 3)) for b in bigs]
            ms = merge(harness(ctx, "h_c02", cs, ranks=R, devices=3, timeout=ctx.q(300, 1200)), cs, {"id": "largeR%d" % R, "R": R}, ())
            for c, b in zip(ms, cs):
                c.pop("input", None)
                c.update(D=b["d"], L=b["L"], shape=b["shape"], site=b["site"])
            return ms
        return go
    res = parallel([job(k) for k in range(len(lay))] + [large(R) for R in ctx.q([2], [1, 2, 3])] + [lambda: tlc_check(ctx, "ExactEnum", ctx.q("ExactEnum", "ExactEnumBig"))], workers=5)
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "ExactEnumTrace", cases, chunk=max(1, (len(cases) + 3) // 4))
    ctx.samples = cases[:1]
    ctx.extra = {"layouts": [{"processes": r, "devices_up_to": d} for r, d in lay]}
    if not ctx.failures:
        has = lambda e: "res" in e
        selftest(ctx, "ExactEnumTrace", cases, [
            ("weight", has, lambda e: e["res"][0][0][0].__setitem__(2, e["res"][0][0][0][2] + 50)),
            ("config", has, lambda e: e["res"][0][0][0].__setitem__(0, [1 - min(1, x) for x in e["res"][0][0][0][0]])),
            ("amplitude", has, lambda e: e["res"][0][0][0].__setitem__(4, e["res"][0][0][0][4] + 1000)),
            ("large", lambda e: e["op"] == "big", lambda e: e.update(distinct=e["distinct"] - 1)),
            ("live", has, lambda e: e["res"][0][0][0].__setitem__(1, 0))])


def _prod(s):
    r = 1
    for x in s:
        r *= x
    return r
