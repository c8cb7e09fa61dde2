from vf.core import *


def run(ctx):
    lay = ctx.q([(1, 1, 20), (1, 2, 20), (2, 1, 10), (2, 2, 10)], [(1, 1, 150), (1, 2, 150), (1, 3, 100), (2, 1, 80), (2, 2, 60), (3, 1, 50), (4, 1, 40)])

    def job(k):
        def go():
            R, D, N = lay[k]
            cs = tlc_generate(ctx, "ReportGen", seed=ctx.seed * 100 + k, exhaustive=True, env={"VF_N": str(N), "VF_OFF": "0", "VF_R": str(R), "VF_D": str(D)})
            outs = harness(ctx, "h_c20", cs, ranks=R, devices=D, timeout=ctx.q(400, 3000))
            d = dead_case("R%dD%d" % (R, D), outs)
            if d:
                return [dict(d, kind="none", i={})]
            res = []
            for i, c in enumerate(cs):
                # every process gets the same report; the configurations drawn are collected from all of them
                allc = [[e.get("cfgs", []) for e in o[i]["ev"]] for o in outs]
                for r, o in enumerate(outs):
                    evs = [dict(e, cfgs=[a[j] if j < len(a) else [] for a in allc]) if e.get("op") == "measure" else e for j, e in enumerate(o[i]["ev"])]
                    res.append({"id": "R%dD%d/%d@%d" % (R, D, i, r), "kind": c["kind"], "i": c, "ev": evs})
            return res
        return go
    res = parallel([job(k) for k in range(len(lay))] + [lambda: tlc_check(ctx, "Report", ctx.q("Report", "ReportBig"), timeout=900)], workers=5)
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "ReportTrace", cases, chunk=max(1, (len(cases) + 5) // 6), timeout=ctx.q(600, 3000))
    ctx.samples = [cases[0]["i"]]
    if not ctx.failures:
        up = lambda *p: (lambda e: _bump(e, p))
        ms = lambda e: e["op"] == "measure"
        big = lambda e: ms(e) and e["rep"][0]["err"][0] > 20
        pvm = lambda e: e["op"] == "povm"
        se = [c for c in cases if c["kind"] == "search" and len(c["ev"]) > 1 and c["i"]["out"] and c["i"]["obs"]]
        selftest(ctx, "ReportTrace", cases, [
            ("mean", ms, up("rep", 0, "mean", 0)), ("variance", ms, up("rep", 0, "var", 0)), ("error", big, lambda e: e["rep"][0]["err"].__setitem__(0, e["rep"][0]["err"][0] * 5 // 4)),
            ("calls", ms, lambda e: e["calls"].append(0)), ("povm mean", pvm, up("rep", 0, "mean", 0)), ("correlator", pvm, up("cor", 0, -1, "mean", 0)), ("correlator variance", pvm, up("cor", 0, -1, "var", 0)),
            ("povm names", pvm, lambda e: e["names"].pop()), ("real update", lambda e: e["op"] == "rend", up("par", 0)), ("real input", lambda e: e["op"] == "rend", up("shift"))])
        selftest(ctx, "ReportTrace", se, [
            ("step", lambda e: e["op"] == "step", up("y", 0)), ("shift", lambda e: e["op"] == "step", up("shift")), ("end", lambda e: e["op"] == "end", up("par", 1)),
            ("times", lambda e: e["op"] == "end", up("times", -1)), ("record", lambda e: e["op"] == "end", up("obs", 0, 1, "mean", 0)), ("last", lambda e: e["op"] == "end", up("obs", 0, -1, "mean", 0))])
        missing = [dict(c, ev=c["ev"][1:]) for c in se[:1]]
        if missing and not tlc_validate(ctx, "ReportTrace", missing, record=False):
            raise Machinery("self-test: a missing step is accepted")


def _bump(e, p):
    for k in p[:-1]:
        e = e[k]
    e[p[-1]] += 100
