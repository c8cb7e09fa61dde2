from vf.c05 import opstrings


def run(ctx):
    opstrings(ctx, "fermi", ctx.q([(1, 1), (1, 2), (1, 3)], [(1, 1), (1, 2), (1, 3), (2, 2)]), ctx.q(25, 150), ctx.q("Fermi", "FermiBig"))
