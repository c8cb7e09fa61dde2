from vf.core import *


def opstrings(ctx, mode, lay, n, model):
    def job(k):
        R, D = lay[k]

        def go():
            cs = tlc_generate(ctx, "OpStringsGen", num=n, depth=9, seed=ctx.seed * 100 + k, env={"VF_MODE": mode, "VF_D": str(D)})
            outs = harness(ctx, "h_c05", cs, ranks=R, devices=D, timeout=ctx.q(300, 2400))
            return merge(outs, cs, {"id": "%s/R%dD%d#%d" % (mode, R, D, k), "R": R}, ("out", "coll"))
        return go
    res = parallel([job(k) for k in range(len(lay))] + [lambda: tlc_check(ctx, "OpStrings", model, timeout=1500)], workers=5)
    cases = [dict(c, input=0) for r in res[:-1] for c in r]
    tlc_validate(ctx, "OpStringsTrace", cases, chunk=max(1, (len(cases) + 3) // 4))
    ctx.samples = cases[:1]
    ctx.extra = {"layouts": [{"processes": r, "devices_up_to": d} for r, d in lay]}
    if not ctx.failures:
        has = lambda e: e["op"] == "eval" and any(e["out"][0]) and len([o for o in e["out"][0] if o]) > 0
        def first(e):
            return next(o for o in e["out"][0] if o)[0]
        selftest(ctx, "OpStringsTrace", cases, [
            ("matrix element", has, lambda e: first(e)[1].__setitem__(0, first(e)[1][0] + 10)),
            ("sign", has, lambda e: first(e).__setitem__(1, [-x for x in first(e)[1]])),
            ("configuration", has, lambda e: first(e)[0].__setitem__(0, 1 - min(1, first(e)[0][0]))),
            ("missing", has, lambda e: next(o for o in e["out"][0] if o).pop())])


def run(ctx):
    opstrings(ctx, "spin", ctx.q([(1, 2), (1, 1), (2, 1), (3, 1)], [(1, 3), (1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (4, 1)]), ctx.q(14, 70), ctx.q("OpStrings", "OpStringsBig"))
