from vf.core import *

LIBS = ["RBM", "CpxRBM", "FFN", "CNN", "CpxCNN", "RNN1D", "two", "RBMnb", "CpxRBMnb", "twoRBM"]


def lib_cases(ctx, mode, count):
    """The package's own networks: the codec histories are random walks of the specification, replayed with their number of parameters."""
    import random
    r = random.Random(ctx.seed)
    out = []
    for i in range(count):
        d = r.choice([1, 1, 2])
        L = 4
        h = {"lib": LIBS[i % len(LIBS)], "kind": "lib", "d": d, "L": L, "batch": r.choice([1, 2, 7]), "seed": r.randrange(1000),
             "first": [r.randrange(2) for _ in range(L)] if r.random() < .7 else [0] * L, "firstop": r.choice(["eval", "grad"])}
        steps = [{"op": "probe"}]
        if mode == "codec":
            steps += [{"op": o} for o in ("wb", "save", "LSET", "wb", "LUPD", "restore", "LSET", "LUPD")]
        else:
            steps += [{"op": "fd", "rs": r.randrange(10**6), "cfgs": [[r.randrange(2) for _ in range(L)] for _ in range(2 * d)]} for _ in range(2)]
        out.append({"h": h, "n": 0, "p": 0, "n1": 0, "steps": steps, "rs": r.randrange(10**6)})
    return out


def execute(ctx, mode, devs, num, nlib):
    def job(k):
        def go():
            cs = tlc_generate(ctx, "ParamCodecGen", num=num, depth=20, seed=ctx.seed * 100 + k, env={"VF_D": str(devs[k]), "VF_MODE": mode})
            if k == 0:
                cs = cs + lib_cases(ctx, mode, nlib)
            R = 2 if k == 1 else 1
            outs = harness(ctx, "h_c09", cs, ranks=R, devices=max(devs[k], 2), timeout=ctx.q(400, 3000))
            ms = []
            for r in range(R):      # every process has to behave like the specification
                ms += merge(outs[r:r + 1], cs, {"id": "D%d#%d%s" % (devs[k], k, "" if R == 1 else "r%d" % r), "R": 1}, ())
            for c in ms:
                i = c.pop("input", None)
                if i:
                    c["kind"] = i["h"]["kind"]
                    hd = c["ev"][0] if c["ev"] else {}
                    lib = "lib" in i["h"]
                    c["n"], c["p"], c["n1"] = (hd.get("n", 0), hd.get("p", 0), 0) if lib else (i["n"], i["p"], i["n1"])
                    c["head"] = i["h"]
                    c["log"] = i["h"].get("log", True)
            return ms
        return go
    res = parallel([job(k) for k in range(len(devs))] + [lambda: tlc_check(ctx, "ParamCodec", ctx.q("ParamCodec", "ParamCodecBig"))], workers=4)
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "ParamCodecTrace", cases, chunk=max(1, (len(cases) + 5) // 6))
    ctx.samples = [c for c in cases if c.get("kind") != "lib"][:1]
    return cases


def run(ctx):
    cases = execute(ctx, "codec", ctx.q([1, 2, 1], [1, 2, 3, 1, 2, 1]), ctx.q(12, 60), ctx.q(6, 20))
    if not ctx.failures:
        own = [c for c in cases if c["kind"] != "lib"]
        selftest(ctx, "ParamCodecTrace", own, [
            ("vector entry", lambda e: e["op"] == "upd", lambda e: e["vec"].__setitem__(0, e["vec"][0] + 1000)),
            ("tree entry", lambda e: e["op"] == "settree", lambda e: e["tre"].__setitem__(-1, e["tre"][-1] + 1000)),
            ("value", lambda e: e["op"] == "eval", lambda e: e["out"][0].__setitem__(1, e["out"][0][1] + 1000)),
            ("map", lambda e: e["op"] == "probe" and len(e["map"]) > 1, lambda e: e["map"].__setitem__(0, e["map"][1])),
            ("precision", lambda e: e["op"] == "fine", lambda e: e["r2"][0].__setitem__(1, e["r2"][0][1] + 1)),
            ("seed", lambda e: e["op"] == "seed", lambda e: e.__setitem__("equal", False))])
