"""Slicing into time intervals, blocks and single visits."""

import warnings

import numpy as np

import rubin_sim.maf.slicers as slicers
from harness.c01 import Tagger, members, same_members
from harness.lib import *  # noqa: F401,F403

P = "C03"
TI = "rubin_sim/maf/slicers/time_interval_slicers.py:"
assumptions(P, "times are kept 1e-6 days away from the interval edges, which are rounded sums",
            "pandas DataFrame, sort_values, shift, cumsum and groupby run for real on columns of symbolic values")


@harness(P, [TI + "TimeIntervalSlicer.setup_slicer", TI + "TimeIntervalSlicer._slice_sim_data"],
         "1 to 3 visits anywhere in a span of two days, in any order; intervals of 6 h, 12 h or a day",
         quick=[{"n": 1, "h": 6}, {"n": 2, "h": 12}, {"n": 2, "h": 24}, {"n": 3, "h": 24}],
         thorough=[{"n": 1, "h": 6}, {"n": 2, "h": 6}, {"n": 2, "h": 12}, {"n": 2, "h": 24}, {"n": 3, "h": 24}, {"n": 3, "h": 12}],
         budget=200)
def intervals(ctx, n, h):
    t = ctx.reals("t", n, 60000, 60002)
    step = h / 24.0
    for x in t:
        for m in range(int(2 / step) + 1):
            ed = 60000 + m * step
            ctx.assume(sor(x > ed + 1e-6, x < ed - 1e-6))
    sl = slicers.TimeIntervalSlicer(interval_seconds=h * 3600)
    sl.setup_slicer(ctx.rec({"observationStartMJD": t}))
    tot = []
    for j, s in enumerate(sl):
        sp = s["slice_point"]
        ctx.check(sp["sid"] == j, "slice id")
        ctx.close(sp["duration"], h * 3600, "duration of the interval")
        left = sp["mjd"]
        got = members(ctx, n, s) if len(s["idxs"]) else set()
        tot += sorted(got)
        same_members(ctx, got, n, lambda i: sand(t[i] >= left, t[i] < left + step),
                     "a visit is in an interval exactly when it starts inside")
        if j:
            ctx.close(left, prev + step, "intervals follow one another", tol=1e-9)
        prev = left
    ctx.check(sorted(tot) == list(range(n)), "every visit is in one interval")


@harness(P, [TI + "VisitIntervalSlicer.setup_slicer", TI + "VisitIntervalSlicer._slice_sim_data"],
         "1 to 4 visits at any distinct times in any order, any durations and extra column",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4, 5)], budget=200)
def visits(ctx, n):
    t = ctx.reals("t", n, 60000, 60002)
    d = ctx.reals("d", n, 1, 60)
    z = ctx.reals("z", n, -1, 1)
    sl = slicers.VisitIntervalSlicer(extra_column_names=("z",))
    sl.setup_slicer(ctx.rec({"observationStartMJD": t, "visitTime": d, "z": z}))
    ctx.check(len(sl) == n, "one slice per visit")
    seen, last = [], None
    for s in sl:
        got = members(ctx, n, s)
        ctx.check(len(got) == 1, "one visit in each slice")
        i = next(iter(got))
        seen.append(i)
        sp = s["slice_point"]
        ctx.eq(sp["mjd"], t[i], "time of the slice")
        ctx.eq(sp["duration"], d[i], "duration of the slice")
        ctx.eq(sp["z"], z[i], "extra column of the slice")
        if last is not None:
            ctx.check(t[last] <= t[i], "slices are in time order")
        last = i
    ctx.check(sorted(seen) == list(range(n)), "every visit has a slice")


@harness(P, [TI + "BlockIntervalSlicer.setup_slicer", TI + "BlockIntervalSlicer._slice_sim_data"],
         "1 to 4 visits at any distinct times in any order, any durations, two notes; gaps at the tolerance left out",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=300)
def blocks(ctx, n):
    t = ctx.reals("t", n, 60000, 60001)
    d = ctx.reals("d", n, 1, 60)
    note = [ctx.choice("note%d" % i, ["a", "b"]) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(sor(t[i] > t[j] + 1e-6, t[i] < t[j] - 1e-6))
    sl = slicers.BlockIntervalSlicer()
    sl.setup_slicer(ctx.rec({"observationStartMJD": t, "visitTime": d, "scheduler_note": note}, {"scheduler_note": "U"}))
    order = osort_idx(t)
    end = [t[i] + d[i] / 86400.0 for i in range(n)]
    want = [[order[0]]]
    for a, b in zip(order[:-1], order[1:]):
        gap = t[b] - end[a]
        tol = 0.1 / 24
        ctx.assume(sor(gap > tol + 1e-7, gap < tol - 1e-7))
        if note[a] == note[b] and bool(gap < tol):
            want[-1].append(b)
        else:
            want.append([b])
    ctx.check(len(sl) == len(want), "a block ends where the note changes or the gap is too long")
    for s, w in zip(sl, want):
        ctx.check(members(ctx, n, s) == set(w), "visits of a block")
        sp = s["slice_point"]
        ctx.close(sp["mjd"], t[w[0]], "a block starts with its first visit", tol=1e-12)
        ctx.close(sp["duration"], (omax([end[i] for i in w]) - t[w[0]]) * 86400.0, "a block lasts to the end of its last exposure", tol=1e-4)


@harness(P, [TI + "TimeIntervalSlicer.setup_slicer", TI + "VisitIntervalSlicer.setup_slicer", TI + "BlockIntervalSlicer.setup_slicer"],
         "a map given to the set-up of each time slicer; one visit at any time; any tag value",
         quick=[{"kind": k} for k in ("interval", "visit", "block")])
def maps_run(ctx, kind):
    t = ctx.real("t", 60000.01, 60000.99)
    tag = ctx.real("tag", -5, 5)
    sl = {"interval": lambda: slicers.TimeIntervalSlicer(interval_seconds=86400), "visit": slicers.VisitIntervalSlicer,
          "block": slicers.BlockIntervalSlicer}[kind]()
    sl.setup_slicer(ctx.rec({"observationStartMJD": [t], "visitTime": [30.0], "scheduler_note": ["a"]}, {"scheduler_note": "U"}),
                    maps=[Tagger(ctx.arr([tag]))])
    got = sl.slice_points.get("tag")
    ctx.check(got is not None, "maps given at set-up are run")
    ctx.eq(got[0], tag, "the map's value is kept with the slice points")
