"""One-dimensional slicing: each visit lands in exactly the bin that contains it."""

import warnings

import numpy as np

import rubin_sim.maf.slicers as slicers
from harness.lib import *  # noqa: F401,F403

P = "C01"
OD = "rubin_sim/maf/slicers/one_d_slicer.py:OneDSlicer."
MV = "rubin_sim/maf/slicers/movie_slicer.py:MovieSlicer."
UN = "rubin_sim/maf/slicers/uni_slicer.py:UniSlicer."
BS = "rubin_sim/maf/slicers/base_slicer.py:BaseSlicer."
assumptions(P, "numpy argsort, sort, searchsorted and arange are replaced by models of their documented behaviour")


def members(ctx, n, s):
    """Visit numbers in a slice, each at most once."""
    idx = s["idxs"]
    data = np.arange(n)[np.asarray(idx)] if len(np.shape(idx)) else [int(idx)]
    out = [int(i) for i in data]
    ctx.check(len(set(out)) == len(out), "a slice lists a visit once")
    return set(out)


def same_members(ctx, got, n, pred, label):
    for i in range(n):
        c = pred(i)
        ctx.check(c if i in got else snot(c), label, "visit %d %s the slice" % (i, "in" if i in got else "not in"))


def rising(ctx, name, k, lo, hi):
    e = [ctx.real(name + "0", lo, hi)]
    for j in range(1, k):
        e.append(ctx.real(name + str(j), lo, hi))
        ctx.assume(e[-1] >= e[-2] + 0.125)
    return e


@harness(P, [OD + "setup_slicer", OD + "_slice_sim_data", BS + "__iter__", BS + "__next__", BS + "__getitem__", BS + "__len__"],
         "n visits with any value in [-4,4] (ties, values on edges and outside the bins included), k edges any increasing reals",
         quick=[{"n": n, "k": k} for n, k in ((0, 2), (1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3))],
         thorough=[{"n": n, "k": k} for n, k in ((0, 2), (1, 2), (1, 3), (1, 5), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (3, 4), (4, 2), (4, 3))],
         budget=200)
def oned_edges(ctx, n, k):
    v = ctx.reals("x", n, -4, 4)
    e = rising(ctx, "e", k, -3, 3)
    sl = slicers.OneDSlicer("c", slice_col_units="u", bins=ctx.arr(e), verbose=False)
    sl.setup_slicer(ctx.rec({"c": v, "d": [0.0] * n}))
    ctx.check(len(sl) == k - 1 and sl.shape == k - 1, "one slice per bin")
    seen = 0
    for j, s in enumerate(sl):
        seen += 1
        sp = s["slice_point"]
        ctx.check(sp["sid"] == j, "slice id")
        ctx.eq(sp["bin_left"], e[j], "bin_left")
        ctx.eq(sp["bin_right"], e[j + 1], "bin_right")
        last = j == k - 2
        got = members(ctx, n, s)
        same_members(ctx, got, n, lambda i: sand(v[i] >= e[j], (v[i] <= e[j + 1]) if last else (v[i] < e[j + 1])),
                     "a visit is in a bin exactly when its value is")
        ctx.check(members(ctx, n, sl[j]) == got, "indexing and iteration agree")
    ctx.check(seen == k - 1, "iteration visits every slice")


@harness(P, [OD + "setup_slicer"], "n visits, some of them NaN; 3 edges",
         quick=[{"n": n} for n in (1, 2, 3)])
def oned_nan(ctx, n):
    v = []
    for i in range(n):
        v.append(np.float64("nan") if ctx.bool("nan%d" % i) else ctx.real("x%d" % i, -2, 2))
    e = [-1.0, 0.0, 1.0]
    sl = slicers.OneDSlicer("c", slice_col_units="u", bins=np.array(e), verbose=False)
    sl.setup_slicer(ctx.rec({"c": v}))
    for j, s in enumerate(sl):
        same_members(ctx, members(ctx, n, s), n, lambda i: False if isnan(v[i]) else sand(
            v[i] >= e[j], (v[i] <= e[j + 1]) if j == 1 else (v[i] < e[j + 1])), "NaN visits are in no bin")


@harness(P, [OD + "__init__", OD + "setup_slicer"],
         "1 to 3 visits with any value; bin limits and size given, or limits taken from the data; up to 6 bins",
         quick=[{"n": n, "mode": m} for n in (1, 2) for m in ("all", "min", "max", "size") if n > 1 or m != "size"],
         thorough=[{"n": n, "mode": m} for n in (1, 2, 3) for m in ("all", "min", "max", "size") if n > 1 or m != "size"], budget=300)
def oned_sized(ctx, n, mode):
    v = ctx.reals("x", n, 0, 3)
    size = ctx.choice("size", [0.5, 1.0])
    lo = ctx.choice("lo", [-0.5, 0.0]) if mode in ("all", "min") else None
    hi = ctx.choice("hi", [1.0, 2.0, 3.0]) if mode in ("all", "max") else None
    sl = slicers.OneDSlicer("c", slice_col_units="u", bin_min=lo, bin_max=hi, bin_size=size, verbose=False)
    wlo = lo if lo is not None else omin(v)
    whi = hi if hi is not None else omax(v)
    ctx.assume(wlo < whi)
    # whether the last partial bin exists is rounding-dependent exactly at the midpoint
    q = (whi - wlo) / size
    for m in range(8):
        ctx.assume(sor(q > m + 0.51, q < m + 0.49))
    ctx.assume(q > 0.6)
    sl.setup_slicer(ctx.rec({"c": v}))
    k = len(sl)
    b = [wlo + size * j for j in range(k + 1)]
    ctx.closes(list(sl.slice_points["bins"]), b, "edges start at the minimum and step by the size")
    ctx.check(sand(b[-1] <= whi + size * 0.5, b[-1] > whi - size * 0.5), "edges end at the maximum, to half a bin")
    for j, s in enumerate(sl):
        last = j == k - 1
        # membership away from the edges (edges themselves are rounded sums)
        got = members(ctx, n, s)
        for i in range(n):
            near = sor(*[sand(v[i] > x - 1e-6, v[i] < x + 1e-6) for x in b])
            inside = sand(v[i] >= b[j], (v[i] <= b[j + 1]) if last else (v[i] < b[j + 1]))
            ctx.check(sor(near, inside if i in got else snot(inside)), "membership in derived bins")


@harness(P, [OD + "setup_slicer"], "1 to 3 visits sharing one value; no bins given, or a bin size only",
         quick=[{"n": n} for n in (1, 2, 3)])
def oned_single_valued(ctx, n):
    x = ctx.real("x", -4, 4)
    size = ctx.choice("s", [0.25, 0.5, 1.0])
    sl = slicers.OneDSlicer("c", slice_col_units="u", bin_size=size, verbose=False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sl.setup_slicer(ctx.rec({"c": [x] * n}))
    tot = set()
    for s in sl:
        tot |= members(ctx, n, s)
    ctx.check(tot == set(range(n)), "single-valued data keeps every visit")
    ctx.closes(list(sl.slice_points["bins"]), [x, x + size, x + 2 * size], "single-valued data with a bin size gets two bins")


@harness(P, [OD + "__init__", OD + "__eq__"],
         "slicers with 2 or 3 arbitrary edges each, or limits and sizes; before and after set-up",
         quick=[{"k": 2, "m": 2}, {"k": 3, "m": 3}, {"k": 2, "m": 3}])
def oned_equal(ctx, k, m):
    a = rising(ctx, "a", k, -1, 1)
    b = rising(ctx, "b", m, -1, 1)
    names = ctx.choice("names", [("c", "c"), ("c", "d")])
    setup = ctx.bool("setup")
    sa = slicers.OneDSlicer(names[0], slice_col_units="u", bins=ctx.arr(a), verbose=False)
    sb = slicers.OneDSlicer(names[1], slice_col_units="u", bins=ctx.arr(b), verbose=False)
    if setup:
        d = ctx.rec({"c": [0.0, 0.5], "d": [0.0, 0.5]})
        sa.setup_slicer(d)
        sb.setup_slicer(d)
    same = sand(*[x == y for x, y in zip(a, b)]) if k == m and names[0] == names[1] else False
    eq = sa == sb
    if eq:
        ctx.check(same, "equal slicers have equal edges and column")
    else:
        ctx.check(snot(same), "slicers with equal edges and column are equal")
    ctx.check(bool(sa != sb) == (not bool(eq)), "!= is the negation of ==")


@harness(P, [OD + "__init__", OD + "__eq__"], "slicers given minimum, maximum and size, any reals, compared before set-up",
         quick=[{}])
def oned_equal_sized(ctx):
    a = [ctx.real("a%d" % i, 0, 4) for i in range(3)]
    b = [ctx.real("b%d" % i, 0, 4) for i in range(3)]
    mk = lambda t: slicers.OneDSlicer("c", slice_col_units="u", bin_min=t[0], bin_max=t[1], bin_size=t[2], verbose=False)
    eq = mk(a) == mk(b)
    same = sand(*[x == y for x, y in zip(a, b)])
    ctx.check(same if eq else snot(same), "equality before set-up compares limits and size")


@harness(P, [OD + "__init__"], "all combinations of edges with limits or size", quick=[{}])
def oned_bins_win(ctx):
    kw = ctx.choice("kw", [{}, {"bin_min": 0.0}, {"bin_max": 5.0}, {"bin_size": 0.25}, {"bin_min": 0.0, "bin_max": 5.0, "bin_size": 0.5}])
    e = rising(ctx, "e", 3, -3, 3)
    v = ctx.reals("x", 1, -4, 4)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sl = slicers.OneDSlicer("c", slice_col_units="u", bins=ctx.arr(e), verbose=False, **kw)
    sl.setup_slicer(ctx.rec({"c": v}))
    ctx.check(len(sl) == 2, "explicit edges take priority over limits and size")
    ctx.closes(list(sl.slice_points["bins"]), e, "explicit edges are used")


@harness(P, [MV + "setup_slicer", MV + "_slice_sim_data"],
         "n visits with any value in [-4,4], k edges in any order, cumulative or not; values at or beyond the last edge left out",
         quick=[{"n": n, "k": k} for n, k in ((1, 2), (1, 3), (2, 2), (2, 3), (3, 2))],
         thorough=[{"n": n, "k": k} for n, k in ((1, 2), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4))], budget=200)
def movie(ctx, n, k):
    v = ctx.reals("x", n, -4, 4)
    e = rising(ctx, "e", k, -3, 3)
    for x in v:
        ctx.assume(x < e[-1])
    cum = ctx.bool("cum")
    order = ctx.bool("reversed")
    given = ctx.arr(e[::-1] if order else e)
    sl = slicers.MovieSlicer("c", slice_col_units="u", bins=given, bin_min=-3.0, bin_max=3.0,
                             cumulative=cum, verbose=False, force_no_ffmpeg=True)
    sl.setup_slicer(ctx.rec({"c": v}))
    ctx.check(len(sl) == k - 1, "one frame per bin")
    for j, s in enumerate(sl):
        got = members(ctx, n, s)
        sp = s["slice_point"]
        ctx.check(sp["sid"] == j, "frame id")
        ctx.eq(sp["bin_left"], e[0] if cum else e[j], "bin_left")
        ctx.eq(sp["bin_right"], e[j + 1], "bin_right")
        same_members(ctx, got, n, (lambda i: v[i] < e[j + 1]) if cum else (lambda i: sand(v[i] >= e[j], v[i] < e[j + 1])),
                     "a visit is in a frame exactly when its value is")


@harness(P, [UN + "setup_slicer", UN + "_slice_sim_data"], "0 to 4 visits", quick=[{"n": n} for n in range(5)])
def uni(ctx, n):
    v = ctx.reals("x", n, -4, 4)
    sl = slicers.UniSlicer(verbose=False)
    sl.setup_slicer(ctx.rec({"c": v}))
    out = list(sl)
    ctx.check(len(out) == 1 and len(sl) == 1, "one slice")
    ctx.check(members(ctx, n, out[0]) == set(range(n)), "the slice holds every visit")


class Tagger:
    """A map that adds a value to each slice point, as the maps do."""

    def __init__(self, tag):
        self.tag = tag

    def run(self, slice_points):
        slice_points["tag"] = self.tag
        return slice_points


@harness(P, [UN + "setup_slicer", UN + "_slice_sim_data", OD + "setup_slicer", MV + "setup_slicer", BS + "_run_maps"],
         "a map given to the set-up of each one-dimensional slicer; any visit and tag value; one slice",
         quick=[{"kind": k} for k in ("uni", "oned", "movie")])
def maps_run(ctx, kind):
    v = ctx.real("x", 0, 1)
    tag = ctx.real("tag", -5, 5)
    sl = {"uni": lambda: slicers.UniSlicer(verbose=False),
          "oned": lambda: slicers.OneDSlicer("c", slice_col_units="u", bins=np.array([0.0, 1.0]), verbose=False),
          "movie": lambda: slicers.MovieSlicer("c", slice_col_units="u", bins=np.array([0.0, 2.0]), bin_min=0.0, bin_max=2.0,
                                               verbose=False, force_no_ffmpeg=True)}[kind]()
    sl.setup_slicer(ctx.rec({"c": [v]}), maps=[Tagger(ctx.arr([tag]))])
    got = sl.slice_points.get("tag")
    ctx.check(got is not None, "maps given at set-up are run")
    ctx.eq(got[0], tag, "the map's value is kept with the slice points")


@harness(P, [UN + "setup_slicer", UN + "_slice_sim_data"],
         "slice-point values given as a number, an array of one, or an array of two", quick=[{}])
def uni_points(ctx):
    a, b, c, d = ctx.reals("p", 4, -5, 5)
    sl = slicers.UniSlicer(verbose=False)
    sl.slice_points["scalar"] = a
    sl.slice_points["one"] = ctx.arr([b])
    sl.slice_points["two"] = ctx.arr([c, d])
    sl.setup_slicer(ctx.rec({"c": [0.0, 1.0]}))
    sp = sl[0]["slice_point"]
    ctx.check(sp["sid"] == 0, "slice id")
    ctx.eq(sp["scalar"], a, "a single value is passed on")
    ctx.check(np.ndim(sp["one"]) == 0, "one value per slice is passed on as that value")
    ctx.eq(sp["one"], b, "one value per slice is passed on as that value")
    ctx.check(len(sp["two"]) == 2, "other values are passed on whole")
    ctx.closes(list(sp["two"]), [c, d], "other values are passed on whole")


@harness(P, [MV + "setup_slicer"], "1 or 2 visits with any value in [0,3]; number of bins 1 to 3, or a bin size",
         quick=[{"n": n, "mode": m} for n in (1, 2) for m in ("count", "size", "single")], budget=200)
def movie_options(ctx, n, mode):
    v = ctx.reals("x", n, 0, 3)
    kw = {}
    lo, hi = omin(v), omax(v)
    if mode == "single":
        v = [v[0]] * n
        size = ctx.choice("size", [0.25, 0.5])
        kw["bin_size"] = size
        want = [v[0], v[0] + size, v[0] + 2 * size]
    elif mode == "count":
        if n == 1:
            hi = lo + 1
        ctx.assume(hi > lo + 0.01)
        k = ctx.choice("k", [1, 2, 3])
        kw["bins"] = k
        want = [lo + (hi - lo) * (j / k) for j in range(k + 1)]
    else:
        size = ctx.choice("size", [0.5, 1.0])
        kw = {"bin_size": size, "bin_min": 0.0, "bin_max": 3.0}
        want = [size * j for j in range(int(3 / size) + 1)]
    sl = slicers.MovieSlicer("c", slice_col_units="u", verbose=False, force_no_ffmpeg=True, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sl.setup_slicer(ctx.rec({"c": v}))
    got = list(sl.slice_points["bins"])
    ctx.check(len(got) == len(want), "number of frames")
    ctx.closes(got, want, "frame edges follow the number of bins or the bin size")
