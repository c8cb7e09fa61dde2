from vf.core import *

TR = [{"kind": "translate", "net": n, "dim": len(sh), "sh": sh + ([1] if len(sh) == 1 else []), "F": F, "ch": 2, "bias": True, "seed": 5, "cfg": cfg, "d": 1}
      for n in ("cpx", "real") for sh, F, cfg in (([5], 3, [1, 0, 1, 1, 0]), ([3, 3], 2, [1, 0, 0, 1, 1, 0, 0, 0, 1]))]


def run(ctx):
    lay = ctx.q([(1, 20), (2, 20), (1, 20)], [(1, 200), (2, 150), (3, 150), (1, 200), (2, 150)])

    def job(k):
        def go():
            D, N = lay[k]
            cs = tlc_generate(ctx, "FeedForwardGen", seed=ctx.seed * 100 + k, exhaustive=True, env={"VF_N": str(N), "VF_OFF": "0", "VF_D": str(D)})
            return pack("D%d#%d" % (D, k), cs, D)
        return go

    def pack(name, cs, D=1):
        outs = harness(ctx, "h_c22", cs, devices=D, timeout=ctx.q(400, 3000))
        d = dead_case(name, outs)
        if d:
            return [dict(d, i={})]
        return [{"id": "%s/%d" % (name, i), "i": c, "ev": outs[0][i]["ev"]} for i, c in enumerate(cs)]
    res = parallel([job(k) for k in range(len(lay))] + [lambda: pack("translate", TR + [{"kind": "act", "d": 1}]), lambda: tlc_check(ctx, "FeedForward", ctx.q("FeedForward", "FeedForwardBig"), timeout=3000)], workers=5)
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "FeedForwardTrace", cases, chunk=max(1, (len(cases) + 5) // 6), timeout=ctx.q(600, 3000))
    ctx.samples = [cases[0].get("i")]
    if not [f for f in ctx.failures if f["case"]["id"] not in ("translate/0", "translate/1")]:
        is_ = lambda op: (lambda e: e["op"] == op)

        def up(*p):
            def f(e):
                for k in p[:-1]:
                    e = e[k]
                e[p[-1]] += 60
            return f
        selftest(ctx, "FeedForwardTrace", [c for c in cases if c["id"] not in ("translate/0", "translate/1")], [
            ("convolution", is_("conv"), up("v", 0, 0)), ("dense", is_("dense"), up("v", 1, 0)), ("boltzmann machine", is_("rbm"), up("re", 0)), ("orbit average", is_("sym"), up("sym", 1, 0)),
            ("translation", is_("translate"), up("v", 1, 0)), ("poly6", is_("act"), up("poly6", 0)), ("poly5", is_("act"), up("poly5", 1)), ("log cosh", is_("act"), up("lc", 5))])
        selftest(ctx, "FeedForwardTrace", [c for c in cases if c["i"].get("kind") == "cpxrbm" and c["i"]["sh"][0] > 1], [("phase", is_("rbm"), up("ph", 0))])
