from vf import core
from vf.core import *


FIELDS = ("per", "glob", "first", "shapes", "counts", "reported", "wsum", "wmin", "wmax")


def run(ctx):
    ranks = ctx.q([1, 2, 3, 4], [1, 2, 3, 4, 5, 7])
    nsess = ctx.q(5, 30)
    maxn = ctx.q(26, 70)

    def job(R):
        def go():
            ses = tlc_generate(ctx, "SampleBudgetGen", num=nsess, depth=8, seed=ctx.seed * 100 + R, env={"VF_R": str(R), "VF_D": "3"})
            grid = {"kind": "grid", "grid": [[n, d, c] for n in range(1, maxn) for d in (1, 2, 3, 5) for c in (1, 2, 3, 5)],
                    "split": list(range(1, 4 * maxn))}
            inp = [grid] + ses
            outs = harness(ctx, "h_c01", inp, ranks=R, devices=3)
            cs = merge(outs, inp, {"id": "R%d" % R, "R": R}, FIELDS)
            for c in cs:
                if "input" in c:
                    i = c.pop("input")
                    c["D"] = i.get("d", 0); c["chains"] = i.get("chains", 0); c["init"] = i.get("init", 0)
            return cs
        return go
    jobs = [job(R) for R in ranks] + [lambda: tlc_check(ctx, "SampleBudget", "SampleBudget" if ctx.quick else "SampleBudgetBig")]
    res = parallel(jobs, workers=5)
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "SampleBudgetTrace", cases)
    ctx.samples = [{k: v for k, v in c.items()} for c in cases if c["kind"] in ("mcmc", "gen")][:3]
    ctx.extra = {"process_counts": ranks}
    if not ctx.failures:
        selftest(ctx, "SampleBudgetTrace", cases, [
            ("reported", lambda e: e.get("op") == "sample", lambda e: e["reported"].__setitem__(0, e["reported"][0] + 1)),
            ("counts", lambda e: e.get("op") == "sample", lambda e: e["counts"][0].__setitem__(0, 0)),
            ("wsum", lambda e: e.get("op") == "sample", lambda e: e["wsum"].__setitem__(0, e["wsum"][0] - 4000)),
            ("first", lambda e: e.get("op") == "split", lambda e: e["first"].__setitem__(-1, e["first"][-1] + 1))])
