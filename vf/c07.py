from vf.core import *


def run(ctx):
    jobs = ctx.q([1, 2, 3, 2], [1, 2, 3, 1, 2, 3])

    def job(k):
        def go():
            cs = tlc_generate(ctx, "LocalEstGen", num=ctx.q(16, 90), depth=7, seed=ctx.seed * 100 + k, env={"VF_D": str(jobs[k])})
            outs = harness(ctx, "h_c07", cs, ranks=1, devices=jobs[k], timeout=ctx.q(300, 2400))
            return merge(outs, cs, {"id": "D%d#%d" % (jobs[k], k), "R": 1}, ())
        return go
    res = parallel([job(k) for k in range(len(jobs))] + [lambda: tlc_check(ctx, "LocalEst", ctx.q("LocalEst", "LocalEstBig"))], workers=5)
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "LocalEstTrace", cases, chunk=max(1, (len(cases) + 3) // 4))
    ctx.samples = cases[:1]
    if not ctx.failures:
        has = lambda e: e["op"] == "eloc"
        selftest(ctx, "LocalEstTrace", cases, [
            ("last estimator", has, lambda e: e["out"][-1].__setitem__(0, e["out"][-1][0] + 5)),
            ("missing", has, lambda e: e["out"].pop()),
            ("function", has, lambda e: e["est"][0].__setitem__(1, e["est"][0][1] + 5))])
