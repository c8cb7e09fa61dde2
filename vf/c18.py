from vf.core import *


def run(ctx):
    lay = ctx.q([(1, 1, 24), (1, 2, 16), (2, 1, 12), (2, 2, 8)], [(1, 1, 200), (1, 2, 150), (1, 3, 80), (2, 1, 100), (2, 2, 80), (3, 1, 60), (4, 1, 60)])

    def job(k):
        def go():
            R, D, num = lay[k]
            cs = tlc_generate(ctx, "VarEqGen", num=num, depth=30, seed=ctx.seed * 100 + k, env={"VF_R": str(R), "VF_D": str(D)})
            outs = harness(ctx, "h_c18", cs, ranks=R, devices=D, timeout=ctx.q(400, 3000))
            d = dead_case("R%dD%d" % (R, D), outs)
            if d:
                return [d]
            return [{"id": "R%dD%d/%d@%d" % (R, D, i, r), "rd": R * D, "h": c["h"], "sets": c["sets"], "ev": o[i]["ev"]} for r, o in enumerate(outs) for i, c in enumerate(cs)]
        return go
    res = parallel([job(k) for k in range(len(lay))] + [lambda: tlc_check(ctx, "VarEq", ctx.q("VarEqAlg", "VarEqAlgBig"), timeout=2000), lambda: tlc_check(ctx, "VarEq", "VarEqHist")], workers=6)
    cases = [c for r in res[:-2] for c in r]
    tlc_validate(ctx, "VarEqTrace", cases, chunk=max(1, (len(cases) + 5) // 6), timeout=ctx.q(600, 3000))
    ctx.samples = cases[:1]
    if not ctx.failures:
        up = lambda *p: (lambda e: _bump(e, p))
        td = [c for c in cases if c["h"]["kind"] == "tdvp"]
        st0 = lambda e: e["st"] == 0
        selftest(ctx, "VarEqTrace", [c for c in td if c["h"]["des"] == "orth"], [
            ("update", lambda e: True, up("u", 0)), ("spectrum", st0, up("rep", "spec", 0)), ("snr", lambda e: st0(e) and 0 < e["rep"]["snr"][-1] < 5000, up("rep", "snr", -1)),
            ("cutoff", st0, up("rep", "cut")), ("mean", st0, up("rep", "mean")), ("variance", st0, up("rep", "var")), ("stage", lambda e: e["st"] > 0, up("rep", "mean")),
            ("twin", lambda e: True, up("u2", 0)), ("small shift", lambda e: True, up("dS", 0, 0, 0)), ("rescaled", lambda e: "ill" in e, up("ill", 0)), ("matrix", lambda e: True, up("S", 0, 0, 0)), ("product", lambda e: True, up("sdot", 0, 0))])
        selftest(ctx, "VarEqTrace", [c for c in td if c["h"]["des"] == "gen" and c["h"]["mr"] == "real" and c["h"]["exact"]], [
            ("update", lambda e: True, up("u", 0)), ("sr equation", lambda e: True, up("srF", 0, 0))])
        xv = lambda e: st0(e) and e["cv"] and e["rep"]["err"] >= 100 and e["rep"]["var"] > 1000 and max(abs(x) for x in e["half"]["u"]) <= 29000
        selftest(ctx, "VarEqTrace", [c for c in td if c["rd"] == 1], [
            ("cross validated error", lambda e: xv(e) and e["half"]["err"] >= 0, lambda e: e["half"].__setitem__("err", e["half"]["err"] * 2 + 9000)),
            ("cross validation setting", lambda e: True, lambda e: e.__setitem__("cv", not e["cv"]))])
        selftest(ctx, "VarEqTrace", [c for c in cases if c["h"]["kind"] == "minsr" and c["h"]["P"] == 1], [("minsr", lambda e: True, up("uc", 0, 0))])


def _bump(e, p):
    for k in p[:-1]:
        e = e[k]
    e[p[-1]] += 3000
