from vf.core import *


def run(ctx):
    lay = ctx.q([(1, 1, 10), (1, 3, 10), (2, 2, 8), (3, 1, 6)], [(1, 1, 30), (1, 3, 30), (2, 2, 30), (3, 1, 25), (4, 2, 20)])

    def job(k):
        def go():
            R, D, num = lay[k]
            cs = tlc_generate(ctx, "KeyStreamsGen", num=num, depth=30, seed=ctx.seed * 100 + k, env={"VF_D": str(D), "VF_R": str(R)})
            outs = harness(ctx, "h_c12", cs, ranks=R, devices=D, timeout=ctx.q(300, 2500))
            ms = merge(outs, cs, {"id": "R%dD%d" % (R, D), "R": R}, ("keys", "der", "imgs"))
            for c in ms:
                c["h"] = c.pop("input", {}).get("h", {})
            return ms
        return go
    res = parallel([job(k) for k in range(len(lay))] + [lambda: tlc_check(ctx, "KeyStreams", ctx.q("KeyStreams", "KeyStreamsBig"), timeout=1500)], workers=5)
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "KeyStreamsTrace", cases, chunk=max(1, (len(cases) + 3) // 4))
    ctx.samples = cases[:1]
    ctx.assumptions.append("chance coincidences of 27 to 62 bit identifiers of draws are neglected")
    if not ctx.failures:
        sm = lambda e: e["op"] == "sample"
        selftest(ctx, "KeyStreamsTrace", cases, [
            ("repeated in call", lambda e: sm(e) and len(e["keys"][0][0]) > 1, lambda e: e["keys"][0][0].__setitem__(0, e["keys"][0][0][1])),
            ("images", sm, lambda e: e["imgs"].__setitem__(0, 3)),
            ("split off", sm, lambda e: e["der"][0].append([[1, 2], [3, 4]]))])
        import copy
        c = next(c for c in cases if sum(map(sm, c["ev"])) > 2)
        ev = [e for e in c["ev"]]
        i, j = [k for k, e in enumerate(ev) if sm(e)][:2]
        c2 = copy.deepcopy(c)
        c2["ev"] = c2["ev"][:i + 1] + [dict(copy.deepcopy(ev[i]))]
        if not tlc_validate(ctx, "KeyStreamsTrace", [c2], record=False):
            raise Machinery("self-test: a repeated call is accepted")
