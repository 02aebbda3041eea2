"""Metrics that return a vector over time bins."""

import numpy as np

import rubin_sim.maf.metrics as metrics
from harness.c01 import rising
from harness.lib import *  # noqa: F401,F403

P = "C07"
VM = "rubin_sim/maf/metrics/vector_metrics.py:"
assumptions(P, "scipy.stats.binned_statistic and numpy histogram, searchsorted, accumulate are replaced by models of their documented behaviour",
            "powers of ten and logarithms are abstract functions with the exponential laws the code relies on")


def setup(ctx, n, k, edge=False):
    x = ctx.reals("x", n, 0, 8)
    e = rising(ctx, "e", k, 0, 8)
    v = ctx.reals("v", n, -4, 4)
    return x, e, v


def inbin(x, e, j):
    last = j == len(e) - 2
    return sand(x >= e[j], (x <= e[j + 1]) if last else (x < e[j + 1]))


@harness(P, [VM + "HistogramMetric.run", VM + "HistogramM5Metric.run"],
         "1 to 3 visits at any position, 2 to 4 arbitrary edges, values any real; count, sum, mean, and co-added depth",
         quick=[{"n": n, "k": k, "stat": s} for n, k in ((1, 2), (1, 3), (2, 3), (3, 2)) for s in ("count", "sum", "mean", "m5")],
         thorough=[{"n": n, "k": k, "stat": s} for n, k in ((1, 2), (1, 4), (2, 3), (3, 2), (3, 3)) for s in ("count", "sum", "mean", "m5")],
         budget=200)
def histogram(ctx, n, k, stat):
    x, e, v = setup(ctx, n, k)
    bins = ctx.arr(e)
    data = ctx.rec({"night": x, "v": v})
    if stat == "m5":
        m = metrics.HistogramM5Metric(bins=bins, m5_col="v")
    else:
        m = metrics.HistogramMetric(bins=bins, col="v", statistic=stat)
    got = list(m.run(data))
    ctx.check(len(got) == k - 1, "one value per bin")
    for j in range(k - 1):
        mem = [v[i] for i in range(n) if bool(inbin(x[i], e, j))]
        if stat == "count":
            ctx.check(got[j] == len(mem), "count per bin")
        elif stat == "sum":
            ctx.close(got[j], osum(mem), "sum per bin")
        elif stat == "mean":
            if mem:
                ctx.close(got[j], omean(mem), "mean per bin")
            else:
                ctx.check(isnan(got[j]), "an empty bin has no mean")
        elif not mem:
            ctx.check(got[j] == m.badval, "an empty bin has the bad value")
        else:
            ctx.close(got[j], 1.25 * log10(osum([ten(0.8 * y) for y in mem])), "co-added depth per bin", tol=1e-6)


@harness(P, [VM + "AccumulateMetric.run", VM + "AccumulateCountMetric.run", VM + "AccumulateM5Metric.run"],
         "1 to 3 visits at any distinct positions and order, 2 to 4 arbitrary edges, values any real; sum, maximum, count and co-added depth",
         quick=[{"n": n, "k": k, "stat": s} for n, k in ((1, 2), (1, 3), (2, 3), (3, 2)) for s in ("add", "max", "count", "m5")],
         thorough=[{"n": n, "k": k, "stat": s} for n, k in ((1, 2), (1, 4), (2, 3), (3, 2), (3, 3)) for s in ("add", "max", "count", "m5")],
         budget=200)
def accumulate(ctx, n, k, stat):
    x, e, v = setup(ctx, n, k)
    bins = ctx.arr(e)
    data = ctx.rec({"night": x, "v": v})
    npm = metrics.vector_metrics.np
    if stat == "m5":
        m = metrics.AccumulateM5Metric(bins=bins, m5_col="v")
    elif stat == "count":
        m = metrics.AccumulateCountMetric(bins=bins)
    else:
        m = metrics.AccumulateMetric(col="v", bins=bins, function=npm.add if stat == "add" else npm.maximum)
    got = list(m.run(data))
    ctx.check(len(got) == k - 1, "one value per bin")
    for j in range(k - 1):
        mem = [v[i] for i in range(n) if bool(x[i] <= e[j + 1])]
        if not mem:
            ctx.check(got[j] == m.badval, "bad value before the first visit")
        elif stat == "add":
            ctx.close(got[j], osum(mem), "running sum up to the bin's end")
        elif stat == "max":
            ctx.close(got[j], omax(mem), "running maximum up to the bin's end")
        elif stat == "count":
            ctx.check(got[j] == len(mem), "running count up to the bin's end")
        else:
            ctx.close(got[j], 1.25 * log10(osum([ten(0.8 * y) for y in mem])), "running co-added depth", tol=1e-6)


@harness(P, [VM + "AccumulateUniformityMetric.run", "rubin_sim/maf/metrics/coverage_metric.py:YearCoverageMetric.run"],
         "1 to 3 visits at any position within the bins, 3 or 4 edges",
         quick=[{"n": 1, "k": 3}, {"n": 2, "k": 3}, {"n": 2, "k": 4}], thorough=[{"n": n, "k": k} for n in (1, 2, 3) for k in (3, 4)],
         budget=200)
def uniformity(ctx, n, k):
    x = ctx.reals("x", n, 0, k - 1.125)
    e = [float(j) for j in range(k)]
    data = ctx.rec({"night": x, "observationStartMJD": x})
    which = ctx.choice("m", ["acc", "year"])
    cnt = [ocount(x, lambda y: inbin(y, e, j)) for j in range(k - 1)]
    if which == "year":
        got = metrics.YearCoverageMetric(bins=np.array(e)).run(data, None)
        ctx.check(got == osum([ite(c > 0, 1, 0) for c in cnt]), "number of bins with a visit")
        return
    got = list(metrics.AccumulateUniformityMetric(bins=np.array(e)).run(data))
    if n == 1:
        ctx.closes(got, [1.0] * (k - 1), "a single visit is not uniform")
        return
    run, best = 0, 0.0
    for j in range(k - 1):
        run = run + cnt[j]
        best = symmax(best, abs(run - j * n / (k - 2.0)))
        ctx.close(got[j], best / n, "largest departure so far from uniform visits")


@harness(P, ["rubin_sim/maf/metrics/kuiper_metrics.py:KuiperMetric.run"],
         "1 to 3 angles, any real in [0,360), rotated by any angle in (0,360)",
         quick=[{"n": n} for n in (1, 2, 3)], budget=120)
def kuiper(ctx, n):
    a = ctx.reals("a", n, 0, 359)
    r = ctx.real("r", 1, 359)
    for x in a:
        ctx.assume(sor(x + r < 360 - 1e-6, x + r > 360 + 1e-6))
    m = metrics.KuiperMetric("a")
    got = m.run(ctx.rec({"a": a}))
    ctx.close(m.run(ctx.rec({"a": [x + r for x in a]})), got, "the statistic does not depend on the origin of the angles")
    s = osorted(a)
    dif = [(i + 1.0) / n - x / 360.0 for i, x in enumerate(s)]
    ctx.close(got, omax(dif) - omin(dif), "spread between the observed and uniform distributions")


@harness(P, ["rubin_sim/maf/metrics/cumulative_metric.py:CumulativeMetric.run"],
         "1 to 3 visits on distinct nights in any order, interpolated at any point",
         quick=[{"n": n} for n in (2, 3)], budget=120)
def cumulative(ctx, n):
    t = ctx.reals("t", n, 0, 10)
    for i in range(n):
        for j in range(i):
            ctx.assume(sor(t[i] > t[j] + 0.25, t[i] < t[j] - 0.25))
    q = ctx.real("q", -1, 11)
    got = metrics.CumulativeMetric(interp_points=ctx.arr([q])).run(ctx.rec({"observationStartMJD": t, "night": t}))
    y = got["y"][0]
    s = osorted(t)
    if bool(q <= s[0]):
        ctx.close(y, 1.0, "at the first visit")
    elif bool(q >= s[-1]):
        ctx.close(y, float(n), "all visits counted at the end")
    else:
        for i in range(n - 1):
            if bool(sand(q >= s[i], q <= s[i + 1])):
                ctx.close((y - (i + 1)) * (s[i + 1] - s[i]), q - s[i], "interpolated count")
                break


@harness(P, ["rubin_sim/maf/metrics/cumulative_metric.py:CumulativeMetric.run"], "1 to 3 visits in time order on any nights 0 to 4",
         quick=[{"n": n} for n in (1, 2, 3)])
def cumulative_nights(ctx, n):
    nt = [ctx.cint("n%d" % i, 0, 4) for i in range(n)]
    for a, b in zip(nt[:-1], nt[1:]):
        ctx.assume(a < b)
    got = metrics.CumulativeMetric().run(ctx.rec({"observationStartMJD": [60000.0 + x for x in nt], "night": nt}, {"night": "I", "observationStartMJD": "F"}))
    ctx.check([float(x) for x in got["x"]] == [float(x) for x in range(nt[0], nt[-1] + 1)], "one point for each night")
    for x, y in zip(got["x"], got["y"]):
        if int(x) in nt:
            ctx.close(float(y), nt.index(int(x)) + 1, "visits up to the night")
