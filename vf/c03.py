from vf.core import *


def run(ctx):
    ranks = ctx.q([1, 2, 3], [1, 2, 3, 4, 5, 6])
    n = ctx.q(10, 60)

    def job(R):
        def go():
            cs = tlc_generate(ctx, "GlobalReduceGen", num=n, depth=30, seed=ctx.seed * 100 + R, env={"VF_R": str(R), "VF_D": "3"})
            outs = harness(ctx, "h_c03", cs, ranks=R, devices=3, timeout=ctx.q(200, 1500))
            return merge(outs, cs, {"id": "R%d" % R, "R": R}, ("shape", "res", "coll", "devs"))
        return go
    res = parallel([job(R) for R in ranks] + [lambda: tlc_check(ctx, "GlobalReduce", ctx.q("GlobalReduce", "GlobalReduceBig"))], workers=4)
    cases = [dict(c, input=0) for r in res[:-1] for c in r]
    tlc_validate(ctx, "GlobalReduceTrace", cases, chunk=max(1, (len(cases) + 3) // 4))
    ctx.samples = cases[:1]
    ctx.extra = {"process_counts": ranks, "devices_per_process": "1-3, changing within a history"}
    if not ctx.failures:
        bump = lambda e: [r[0].__setitem__(0, r[0][0] + 5) for r in e["res"]]
        selftest(ctx, "GlobalReduceTrace", cases,
                 [(op, lambda e, op=op: e["op"] == op and (op != "bcast" or e["len"] > 0), bump) for op in ("sum", "mean", "var", "cov", "gather", "bcast")] +
                 [("devices", lambda e: True, lambda e: e["devs"][0].__setitem__("m", 9)), ("coll", lambda e: len(e["coll"]) > 1, lambda e: e["coll"].__setitem__(-1, ["x"]))])
