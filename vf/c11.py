import itertools, random
from vf.core import *

FIELDS = ("st", "w", "wsum", "acc", "co")


def start(r, prop, n):
    if prop == "zeroMag":
        s = [0] * (n // 2) + [1] * (n // 2)
        r.shuffle(s)
        return s
    return [r.randrange(4 if prop == "POVM" else 2) for _ in range(n)]


def kernels(ctx):
    """Every configuration of small lattices (quick: a selection) for every supplied proposer."""
    r = random.Random(ctx.seed)
    items = []
    for prop, shapes in (("spin_flip", [(1,), (3,), (2, 2)]), ("POVM", [(1,), (2,), (2, 2)]), ("spin_flip_Z2", [(2,), (4,), (2, 2)]), ("zeroMag", [(2,), (4,), (2, 2)])):
        for sh in shapes:
            n = 1
            for x in sh:
                n *= x
            allc = [list(c) for c in itertools.product(range(4 if prop == "POVM" else 2), repeat=n) if prop != "zeroMag" or 2 * sum(c) == n]
            for c in (allc if not ctx.quick and len(allc) < 70 else r.sample(allc, min(len(allc), 4))):
                items.append({"prop": prop, "shape": list(sh), "s": c, "n": 2000, "seed": r.randrange(10**6)})
    return {"kind": "kernel", "items": items}


def libwalks(ctx):
    r = random.Random(ctx.seed + 7)
    items = []
    for prop in ("spin_flip", "POVM", "spin_flip_Z2", "zeroMag"):
        for sh in ctx.q([(4,), (2, 3)], [(4,), (2, 3), (6,), (2, 2), (3, 4)]):
            n = sh[0] * (sh[1] if len(sh) > 1 else 1)
            items.append({"prop": prop, "shape": list(sh), "s": start(r, prop, n), "d": r.choice([1, 2]), "seed": r.randrange(10**6), "calls": [7, 12, 7]})
    return {"kind": "libwalk", "items": items}


def run(ctx):
    lay = ctx.q([(1, 2, 9), (2, 2, 6), (3, 1, 4), (1, 0, 0)], [(1, 3, 40), (2, 2, 30), (3, 2, 20), (4, 1, 15), (1, 0, 0)])

    def job(R, D, num):
        def go():
            if D == 0:
                inp = [kernels(ctx), libwalks(ctx)]
                return [dict(c, kind="kernel", h={}, input={}) for c in merge(harness(ctx, "h_c11", inp, devices=2, timeout=ctx.q(300, 2000)), inp, {"id": "proposers", "R": 1}, ())]
            cs = tlc_generate(ctx, "MarkovChainGen", num=num, depth=60, seed=ctx.seed * 100 + R, env={"VF_D": str(D), "VF_R": str(R), "VF_N": str(ctx.q(800, 2000))})
            inp = cs
            outs = harness(ctx, "h_c11", inp, ranks=R, devices=D, timeout=ctx.q(300, 2000))
            ms = merge(outs, inp, {"id": "R%d" % R, "R": R}, FIELDS)
            for c in ms:
                i = c.pop("input", {})
                c["h"] = i.get("h", {})
                if c["kind"] == "none":
                    c["kind"] = "kernel"
            return ms
        return go
    res = parallel([job(*l) for l in lay] + [lambda: [tlc_check(ctx, "MarkovChain", n) for n in ctx.q(["MarkovChain", "MarkovChainPovm"], ["MarkovChain", "MarkovChainPovm", "MarkovChainBig"])]], workers=5)
    cases = [c for r in res[:-1] for c in r]
    tlc_validate(ctx, "MarkovChainTrace", cases, chunk=max(1, (len(cases) + 5) // 6))
    ctx.samples = [c for c in cases if c["kind"] == "chain" and c["h"]["mode"] == "flat"][:1]
    ctx.assumptions.append("acceptance and proposal frequencies are judged with a margin of seven standard deviations")
    if not ctx.failures:
        smp_ = lambda e: e.get("op") == "sample"
        selftest(ctx, "MarkovChainTrace", [c for c in cases if c["kind"] == "kernel"] + [c for c in cases if c["h"].get("mode") == "flat"] + cases, [
            ("proposal count", lambda e: e["op"] == "kernel" and len(e["out"]) > 2, lambda e: e["out"][0].__setitem__(1, e["out"][0][1] * 2)),
            ("illegal proposal", lambda e: e["op"] == "kernel", lambda e: e["out"][0].__setitem__(0, e["s"]) if e["prop"] != "zeroMag" else None),
            ("acceptance", smp_, lambda e: e["acc"].__setitem__(0, e["acc"][0] - 1)),
            ("weight", smp_, lambda e: e["w"][0][0].__setitem__(0, e["w"][0][0][0] // 2)),
            ("coefficient", smp_, lambda e: e["co"][0][0][0].__setitem__(0, e["co"][0][0][0][0] + 1)),
            ("state", lambda e: smp_(e) and len(set(e["st"][0][0])) == 1, lambda e: e["st"][0][0].__setitem__(0, 2 if e["st"][0][0][0] != 2 else 1)),
            ("legal walk", lambda e: e["op"] == "libwalk", lambda e: e["path"].__setitem__(3, [5] * len(e["path"][0])))])
