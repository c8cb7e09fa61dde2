from vf.core import *


def run(ctx):
    devs = ctx.q([1, 2, 1, 2], [1, 2, 3, 1, 2, 1])

    def job(k):
        def go():
            cs = tlc_generate(ctx, "SymAverageGen", seed=ctx.seed * 100 + k, exhaustive=True, env={"VF_N": ctx.q("15", "60"), "VF_D": str(devs[k]), "VF_BIG": ctx.q("0", "1")})
            outs = harness(ctx, "h_c15", cs, ranks=1, devices=devs[k], timeout=ctx.q(400, 3000))
            ms = merge(outs, cs, {"id": "D%d#%d" % (devs[k], k), "R": 1}, ())
            for c in ms:
                i = c.pop("input", None) or {}
                c.update({f: i[f] for f in ("mode", "dim", "L", "sy", "ex", "ca", "cb", "cfgs", "pat", "d", "two", "wrap", "vals") if f in i})
            return ms
        return go
    res = parallel([job(k) for k in range(len(devs))] + [lambda: tlc_check(ctx, "SymAverage", ctx.q("SymAverage", "SymAverageBig"), timeout=1500)], workers=5)
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "SymAverageTrace", cases, chunk=max(1, (len(cases) + 5) // 6), timeout=ctx.q(600, 3000))
    ctx.samples = cases[:1]
    if not ctx.failures:
        for mode in ("exp", "log", "sep"):
            selftest(ctx, "SymAverageTrace", [c for c in cases if c["mode"] == mode], [
                (mode + " average", lambda e: e["op"] == "sym", lambda e: e["out"][0].__setitem__(0, e["out"][0][0] + 200)),
                (mode + " real part", lambda e: e["op"] == "sym", lambda e: e["sre"].__setitem__(0, e["sre"][0] + 20)),
                (mode + " moved", lambda e: e["op"] == "sym", lambda e: e["gout"][0][0].__setitem__(0, e["gout"][0][0][0] + 20)),
                (mode + " two", lambda e: e["op"] == "two", lambda e: e["out"][0].__setitem__(1, e["out"][0][1] + 20))])
        selftest(ctx, "SymAverageTrace", [c for c in cases if c["mode"] == "dsample"], [
            ("direct sample", lambda e: True, lambda e: e["hist"][0][0].__setitem__(0, 5))])
