from vf.core import *
from vf.c09 import execute


def run(ctx):
    cases = execute(ctx, "grad", ctx.q([1, 2, 1], [1, 2, 3, 1, 2, 1]), ctx.q(12, 60), ctx.q(8, 20))
    if not ctx.failures:
        selftest(ctx, "ParamCodecTrace", cases, [
            ("gradient entry", lambda e: e["op"] == "grad", lambda e: e["out"][0][0].__setitem__(1, e["out"][0][0][1] + 10)),
            ("dictionary entry", lambda e: e["op"] == "gdict", lambda e: e["out"][0][0].__setitem__(0, e["out"][0][0][0] + 10)),
            ("dictionary map", lambda e: e["op"] == "gdict" and len(e["pos"]) > 1, lambda e: e["pos"].__setitem__(0, e["pos"][1])),
            ("derivative", lambda e: e["op"] == "fd", lambda e: e["g"][0][0].__setitem__(0, e["g"][0][0][0] + 10))])
