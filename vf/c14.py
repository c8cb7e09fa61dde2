from vf.core import *


def run(ctx):
    allc = tlc_generate(ctx, "LatticeGroupGen", exhaustive=True, env={"VF_M1": ctx.q("6", "9"), "VF_M2": ctx.q("3", "5")})
    import random
    r = random.Random(ctx.seed)
    if ctx.quick:       # all small ones, a selection of the larger square lattices
        big = [c for c in allc if c["dim"] == 2 and c["L"] == 3]
        allc = [c for c in allc if not (c["dim"] == 2 and c["L"] == 3)] + r.sample(big, min(len(big), 150))
    for c in allc:
        r.shuffle(c["order"])
    W = 6
    chunks = [allc[i::W] for i in range(W)]

    def job(k):
        def go():
            inp = [{"items": chunks[k]}]
            outs = harness(ctx, "h_c14", inp, timeout=ctx.q(300, 2000))
            return merge(outs, inp, {"id": "chunk%d" % k, "R": 1}, ())
        return go
    res = parallel([job(k) for k in range(W)] + [lambda: tlc_check(ctx, "LatticeGroup", ctx.q("LatticeGroup", "LatticeGroupBig"), timeout=1500)], workers=4)
    cases = [c for r_ in res[:-1] for c in r_]
    for c in cases:
        c.pop("input", None)
    # smaller validation units
    cases = [{"id": "%s/%d" % (c["id"], i), "ev": c["ev"][i:i + 15]} for c in cases for i in range(0, len(c["ev"]), 15)]
    tlc_validate(ctx, "LatticeGroupTrace", cases, chunk=max(1, (len(cases) + 7) // 8), timeout=ctx.q(600, 3000))
    ctx.samples = [cases[0]["ev"][:2]]
    ctx.extra = {"lattices_and_choices": len(allc)}
    if not ctx.failures:
        big = lambda e: len(e["el"]) > 3
        selftest(ctx, "LatticeGroupTrace", cases, [
            ("missing element", big, lambda e: e["el"].pop()),
            ("repeated element", big, lambda e: e["el"].__setitem__(0, e["el"][1])),
            ("factor", lambda e: big(e) and not any(e["ex"].values()), lambda e: e["el"][1]["f"].__setitem__(0, -1000000)),
            ("sign", big, lambda e: e["el"][0].__setitem__("sg", -e["el"][0]["sg"]) if "spinflip" not in e["sy"] else e["el"][0].__setitem__("ok", False))])
