from vf.core import *
import random


def run(ctx):
    ranks = ctx.q([1, 2, 3], [1, 2, 3, 4])
    n = ctx.q(20, 90)

    def job(R):
        def go():
            cs = tlc_generate(ctx, "SampledStatsGen", num=n, depth=30, seed=ctx.seed * 100 + R, env={"VF_R": str(R), "VF_D": "3" if R < 3 else "2"})
            cs += tlc_generate(ctx, "EstimatorGen", num=ctx.q(3, 12), depth=4, seed=ctx.seed * 100 + R, env={"VF_R": str(R), "VF_D": "3"})
            outs = harness(ctx, "h_c04", cs, ranks=R, devices=3, timeout=ctx.q(250, 1500))
            return merge(outs, cs, {"id": "R%d" % R, "R": R}, ("shape", "mean", "var", "val", "all", "grad", "tw"))
        return go
    res = parallel([job(R) for R in ranks] + [lambda: tlc_check(ctx, "SampledStats", ctx.q("SampledStats", "SampledStatsBig"))], workers=4)
    cases = [dict(c, input=0) for r in res[:-1] for c in r]
    tlc_validate(ctx, "SampledStatsTrace", cases, chunk=max(1, (len(cases) + 3) // 4))
    ctx.samples = cases[:1]
    ctx.extra = {"process_counts": ranks}
    if not ctx.failures:
        def bump(f):
            def go(e):
                for r in e[f]:
                    r[0][0] += 7
            return go
        selftest(ctx, "SampledStatsTrace", cases,
                 [(op, lambda e, op=op: e["op"] == op, bump("mean")) for op in ("select", "subset", "map", "lin", "covdata")] +
                 [(op + "-var", lambda e, op=op: e["op"] == op, bump("var")) for op in ("base", "subset")] +
                 [(op, lambda e, op=op: e["op"] == op, bump("val")) for op in ("covar", "covvar", "kernel")] +
                 [("grad", lambda e: e["op"] == "grad", bump("grad")),
                  ("estimator-var", lambda e: e["op"] == "move", bump("var")),
                  ("estimator-grad", lambda e: e["op"] == "move" and e["how"] == "grad", bump("grad")),
                  ("unchanged", lambda e: e["op"] == "all", lambda e: e["all"][0][0]["mean"][0].__setitem__(0, 9999))])
