"""N-dimensional slicing."""

import itertools

import numpy as np

import rubin_sim.maf.slicers as slicers
from harness.c01 import members, rising, same_members
from harness.lib import *  # noqa: F401,F403

P = "C02"
ND = "rubin_sim/maf/slicers/nd_slicer.py:NDSlicer."
assumptions(P, "numpy argsort, sort, searchsorted and arange are replaced by models of their documented behaviour",
            "values at or beyond the last edge of a dimension are left out")


@harness(P, [ND + "setup_slicer", ND + "_slice_sim_data"],
         "n visits in d dimensions, edges k per dimension any increasing reals given in either order",
         quick=[{"n": 1, "k": (3, 3)}, {"n": 2, "k": (2, 3)}, {"n": 1, "k": (2, 2, 3)}, {"n": 2, "k": (3,)}, {"n": 2, "k": (3, 2)}],
         thorough=[{"n": 1, "k": (3, 3)}, {"n": 2, "k": (3, 3)}, {"n": 3, "k": (2, 3)}, {"n": 1, "k": (3, 3, 3)}, {"n": 3, "k": (3,)},
                   {"n": 1, "k": (4, 3)}, {"n": 2, "k": (2, 2, 3)}, {"n": 2, "k": (2, 2)}], budget=250)
def nd(ctx, n, k):
    d = len(k)
    cols = ["c%d" % j for j in range(d)]
    vs = [ctx.reals("x%d_" % j, n, -2, 2) for j in range(d)]
    es = [rising(ctx, "e%d_" % j, k[j], -1, 1) for j in range(d)]
    for j in range(d):
        for x in vs[j]:
            ctx.assume(x < es[j][-1])
    rev = ctx.bool("reversed")
    sl = slicers.NDSlicer(cols, bins_list=[ctx.arr(e[::-1] if rev else e) for e in es], verbose=False)
    sl.setup_slicer(ctx.rec(dict(zip(cols, vs))))
    cells = list(itertools.product(*[range(m - 1) for m in k]))
    ctx.check(len(sl) == len(cells), "one slice per cell of the grid")
    out = list(sl)
    ctx.check(len(out) == len(cells), "iteration visits every cell")
    for s, cell in zip(out, cells):
        sp = s["slice_point"]
        ctx.closes(list(sp["bin_left"]), [es[j][c] for j, c in enumerate(cell)], "lower corner of the cell")
        got = members(ctx, n, s) if len(s["idxs"]) else set()
        same_members(ctx, got, n, lambda i: sand(*[sand(vs[j][i] >= es[j][c], vs[j][i] < es[j][c + 1])
                                                   for j, c in enumerate(cell)]),
                     "a visit is in a cell exactly when it lies inside in every dimension")


@harness(P, [ND + "setup_slicer"], "2 visits in 1 or 2 dimensions, bin counts 1 to 3 given as a number or per dimension",
         quick=[{"d": 1, "per": False}, {"d": 2, "per": True}, {"d": 2, "per": False}])
def nd_counts(ctx, d, per):
    n = 2
    cols = ["c%d" % j for j in range(d)]
    vs = [ctx.reals("x%d_" % j, n, -2, 2) for j in range(d)]
    for v in vs:
        # the extremes differ, so that the bins have a width
        ctx.assume(sor(v[0] < v[1] - 0.25, v[1] < v[0] - 0.25))
    cnt = [ctx.cint("b%d" % j, 1, 3) for j in range(d if per else 1)]
    sl = slicers.NDSlicer(cols, bins_list=cnt if per else cnt[0], verbose=False)
    sl.setup_slicer(ctx.rec(dict(zip(cols, vs))))
    full = cnt if per else cnt * d
    ctx.check(len(sl) == int(np.prod(full)), "the number of cells is the product of the bin counts")
    tot = []
    for s in sl:
        if len(s["idxs"]):
            tot += sorted(members(ctx, n, s))
    ctx.check(sorted(tot) == list(range(n)), "bins derived from the data put each visit in one cell")


@harness(P, [ND + "__eq__"], "two 1- or 2-dimensional grids with arbitrary edges", quick=[{"d": 1}, {"d": 2}])
def nd_equal(ctx, d):
    cols = ["c%d" % j for j in range(d)]
    ks = [(3,) * d, (2,) * d]
    ka, kb = ctx.choice("ka", ks), ctx.choice("kb", ks)
    ea = [rising(ctx, "a%d_" % j, ka[j], -1, 1) for j in range(d)]
    eb = [rising(ctx, "b%d_" % j, kb[j], -1, 1) for j in range(d)]
    data = ctx.rec({c: [0.0, 0.25] for c in cols})
    mk = []
    for e in (ea, eb):
        s = slicers.NDSlicer(cols, bins_list=[ctx.arr(x) for x in e], verbose=False)
        s.setup_slicer(data)
        mk.append(s)
    eq = mk[0] == mk[1]
    # the grid points compared are the lower corners
    same = ka == kb
    if same:
        same = sand(*[x == y for p, q in zip(ea, eb) for x, y in zip(p[:-1], q[:-1])])
    ctx.check(same if eq else snot(same), "grids are equal exactly when all of their lower corners are")
