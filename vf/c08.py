from vf.core import *


def run(ctx):
    jobs = ctx.q([1, 2, 1], [1, 2, 3, 1, 2])

    def job(k):
        def go():
            cs = tlc_generate(ctx, "PovmTermsGen", num=ctx.q(22, 60), depth=20, seed=ctx.seed * 100 + k, env={"VF_D": str(jobs[k])})
            outs = harness(ctx, "h_c08", cs, ranks=1, devices=jobs[k], timeout=ctx.q(300, 2400))
            ms = merge(outs, cs, {"id": "D%d#%d" % (jobs[k], k), "R": 1}, ())
            for c in ms:
                c["descs"] = c.pop("input", {}).get("descs", [])
            return ms
        return go
    res = parallel([job(k) for k in range(len(jobs))] + [lambda: tlc_check(ctx, "PovmTerms", ctx.q("PovmTerms", "PovmTermsBig"))], workers=4)
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "PovmTermsTrace", cases, chunk=max(1, (len(cases) + 5) // 6))
    ctx.samples = cases[:1]
    if not ctx.failures:
        has = lambda e: e["op"] == "eval" and len(e["out"][0]) > 0
        selftest(ctx, "PovmTermsTrace", cases, [
            ("element", has, lambda e: e["out"][0][0].__setitem__(1, e["out"][0][0][1] + 10)),
            ("missing", has, lambda e: e["out"][0].pop()),
            ("accepted name", lambda e: e["op"] == "reg" and not e["ok"], lambda e: e.__setitem__("ok", True)),
            ("registry", lambda e: e["op"] == "reg", lambda e: e["shown"].pop())])
