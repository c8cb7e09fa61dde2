from vf.core import *


def run(ctx):
    lay = ctx.q([(1, 50), (2, 30), (3, 16)], [(1, 300), (2, 200), (3, 150), (4, 80)])

    def job(k):
        def go():
            R, num = lay[k]
            cs = tlc_generate(ctx, "OutputLogGen", num=num, depth=60, seed=ctx.seed * 100 + k, env={"VF_R": str(R)})
            outs = harness(ctx, "h_c17", cs, ranks=R, timeout=ctx.q(400, 3000))
            ms = merge(outs, cs, {"id": "R%d" % R, "R": R}, ("w", "wt", "tims", "shown"))
            for c in ms:
                c.pop("input", None)
            return ms
        return go
    res = parallel([job(k) for k in range(len(lay))] + [lambda: tlc_check(ctx, "OutputLog", ctx.q("OutputLog", "OutputLogBig"), timeout=2000)], workers=4)
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "OutputLogTrace", cases, chunk=max(1, (len(cases) + 3) // 4), timeout=ctx.q(600, 3000))
    ctx.samples = cases[:1]
    if not ctx.failures:
        selftest(ctx, "OutputLogTrace", cases, [
            ("data", lambda e: e["op"] == "obs", lambda e: e["dump"][-1][1].append([1])),
            ("lost", lambda e: e["op"] == "meta" and len(e["dump"]) > 3, lambda e: e["dump"].pop(0)),
            ("checkpoint time", lambda e: e["op"] == "get", lambda e: e["wt"].__setitem__(-1, e["wt"][-1] + 1)),
            ("checkpoint", lambda e: e["op"] == "get", lambda e: e["w"][-1].__setitem__(0, 77777)),
            ("timing", lambda e: e["op"] == "stop", lambda e: e["tims"][-1][0].__setitem__("total", e["tims"][-1][0]["total"] + 9)),
            ("count", lambda e: e["op"] == "add", lambda e: e["tims"][-1][-1].__setitem__("count", e["tims"][-1][-1]["count"] + 1)),
            ("shown", lambda e: e["op"] == "show" and e["shown"][0], lambda e: e["shown"][0][0].__setitem__(1, 98765))])
