from vf.core import *

FIX = {"depth": 1, "hid": 4, "rout": False, "sym": [False] * 3, "scale": 1, "noise": 0, "seed": 3, "n": 10, "mult": 1, "dv": 1, "par": False, "batch": 100, "wrap": "net", "cell": "RNN", "cpx": True, "kap": 1, "v": 2}


def run(ctx):
    lay = ctx.q([(1, 1, 8, 0), (1, 2, 8, 8), (2, 1, 4, 16), (1, 1, 8, 20)], [(1, 1, 60, 0), (1, 2, 40, 60), (1, 3, 30, 100), (2, 1, 30, 130), (2, 2, 20, 160), (3, 1, 20, 180)])

    def job(k):
        def go():
            R, D, N, off = lay[k]
            cs = tlc_generate(ctx, "AutoRegGen", seed=ctx.seed * 100 + k, exhaustive=True, env={"VF_N": str(N), "VF_OFF": str(off), "VF_R": str(R), "VF_D": str(D), "VF_BIG": ctx.q("0", "1")})
            outs = harness(ctx, "h_c19", cs, ranks=R, devices=D, timeout=ctx.q(400, 3000))
            ms = merge(outs, cs, {"id": "R%dD%d#%d" % (R, D, k), "R": R}, ("cnt", "smp", "range", "total"))
            for c in ms:
                i = c.pop("input", None) or {}
                c.update({f: i[f] for f in ("dim", "L", "v", "rout", "wrap", "cell", "depth", "kap", "scale", "noise", "seed") if f in i})
            return ms
        return go

    def cpx():
        # complex parameters: two fixed networks (see known-findings.txt)
        cs = [dict(FIX, dim=1, L=3), dict(FIX, dim=2, L=2)]
        outs = harness(ctx, "h_c19", cs)
        ms = merge(outs, cs, {"id": "cpx", "R": 1}, ())
        for c in ms:
            i = c.pop("input", None) or {}
            c.update({f: i[f] for f in ("dim", "L", "v", "rout", "wrap") if f in i})
        return ms
    res = parallel([job(k) for k in range(len(lay))] + [cpx, lambda: tlc_check(ctx, "AutoReg", timeout=900), lambda: tlc_check(ctx, "AutoReg", "AutoRegBig", timeout=900)], workers=6)
    cases = [c for r in res[:-2] for c in r]
    tlc_validate(ctx, "AutoRegTrace", cases, chunk=max(1, (len(cases) + 5) // 6), timeout=ctx.q(600, 3000))
    ctx.samples = [{k: v for k, v in cases[0].items() if k != "ev"}]
    ctx.assumptions.append("sampled frequencies are compared with seven standard deviations")
    if not [f for f in ctx.failures if not str(f["case"]["id"]).startswith("cpx")]:
        smp = lambda e: e["op"] == "sample" and len(e["P"]) > 3 and e["P"][0] > 10**6

        def move(e):
            k = max(range(len(e["cnt"][0])), key=lambda i: e["cnt"][0][i])
            j = min(range(len(e["cnt"][0])), key=lambda i: e["cnt"][0][i])
            m = e["cnt"][0][k] * 2 // 3
            e["cnt"][0][k] -= m
            e["cnt"][0][j] += m
        selftest(ctx, "AutoRegTrace", [c for c in cases if not str(c["id"]).startswith("cpx")], [
            ("probability", smp, lambda e: e["P"].__setitem__(0, e["P"][0] + 20000)), ("counts", lambda e: smp(e) and len(e["cnt"]) == 1 and max(e["cnt"][0]) >= 400, move),
            ("amplitude", smp, lambda e: e["smp"][0][0].__setitem__(1, e["smp"][0][0][1] + 30)),
            ("phase", smp, lambda e: e["smp"][0][0].__setitem__(2, e["smp"][0][0][2] + 30)),
            ("range", smp, lambda e: e["range"].__setitem__(0, False)), ("number", smp, lambda e: e.__setitem__("n", e["n"] + 1))])
