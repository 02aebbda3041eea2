"""Per-slice summary statistics equal their definition."""

import math

import numpy as np

import rubin_sim.maf.metrics as metrics
from harness.lib import *  # noqa: F401,F403

P = "C04"
SM = "rubin_sim/maf/metrics/simple_metrics.py:"
SIMPLE = {
    "MaxMetric": omax,
    "MinMetric": omin,
    "AbsMaxMetric": lambda v: omax([abs(x) for x in v]),
    "MeanMetric": omean,
    "AbsMeanMetric": lambda v: omean([abs(x) for x in v]),
    "MedianMetric": omedian,
    "AbsMedianMetric": lambda v: omedian([abs(x) for x in v]),
    "FullRangeMetric": lambda v: omax(v) - omin(v),
    "RmsMetric": ostd,
    "SumMetric": osum,
    "CountMetric": len,
    "CountUniqueMetric": lambda v: len(ounique(v)),
    "UniqueRatioMetric": lambda v: len(ounique(v)) / len(v),
    "RobustRmsMetric": lambda v: (opercentile(v, 75) - opercentile(v, 25)) / 1.349,
    "MaxPercentMetric": lambda v: ocount(v, lambda x: x == omax(v)) * 100.0 / len(v),
    # documented: percent of the data with the absolute value of the maximum
    "AbsMaxPercentMetric": lambda v: ocount(v, lambda x: abs(x) == abs(omax(v))) * 100.0 / len(v),
}
BIG = ("MedianMetric", "AbsMedianMetric", "CountUniqueMetric", "UniqueRatioMetric", "RobustRmsMetric")


@harness(P, [SM + "%s.run" % m for m in SIMPLE],
         "1 to 4 (quick) or 5 (thorough) visits, values any real in [-8, 8] including ties",
         quick=[{"m": m, "n": n} for m in SIMPLE for n in (1, 2, 3, 4)] + [{"m": m, "n": 6} for m in SIMPLE if m not in BIG],
         thorough=[{"m": m, "n": n} for m in SIMPLE for n in (1, 2, 3, 4, 5, 6, 8) if n < 6 or m not in BIG])
def simple(ctx, m, n):
    v = ctx.reals("x", n, -8, 8)
    data = ctx.rec({"v": v, "w": [1.0] * n})
    got = getattr(metrics, m)("v").run(data)
    ctx.close(got, SIMPLE[m](v), m)


@harness(P, [SM + "RelRmsMetric.run"], "1 to 3 visits, values any real in [1/4, 8]",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4)])
def relrms(ctx, n):
    v = ctx.reals("x", n, 0.25, 8)
    got = metrics.RelRmsMetric("v").run(ctx.rec({"v": v}))
    # r = std/median  <=>  r*median = std
    ctx.close(got * omedian(v), ostd(v), "RelRms")


@harness(P, [SM + "RealMeanMetric.run"], "1 to 4 visits, each value any real in [-8,8], NaN or infinite, at least one finite",
         quick=[{"n": n} for n in (1, 2, 3, 4)])
def realmean(ctx, n):
    v, good = [], []
    for i in range(n):
        k = ctx.choice("k%d" % i, ["f", "nan", "inf"])
        if k == "f":
            x = ctx.real("x%d" % i, -8, 8)
            good.append(x)
        else:
            x = np.float64(k)
        v.append(x)
    if not good:
        ctx.skip()
    ctx.close(metrics.RealMeanMetric("v").run(ctx.rec({"v": v})), omean(good), "RealMean")


@harness(P, [SM + c for c in ("FracAboveMetric.run", "FracBelowMetric.run", "CountBeyondThreshold.run",
                              "CountSubsetMetric.run", "CountRatioMetric.run", "BinaryMetric.run")],
         "1 to 4 visits, values and cutoffs any reals in [-8,8], scale in [1/4,4]",
         quick=[{"n": n} for n in (1, 3)] + [{"n": 4}], thorough=[{"n": n} for n in (1, 2, 3, 4, 5)])
def thresholds(ctx, n):
    v = ctx.reals("x", n, -8, 8)
    c = ctx.real("c", -8, 8)
    sc = ctx.real("s", 0.25, 4)
    data = ctx.rec({"v": v})
    which = ctx.choice("m", ["above", "below", "lo", "hi", "none", "subset", "ratio", "binary"])
    if which == "above":
        got = metrics.FracAboveMetric("v", cutoff=c, scale=sc, metric_name="x").run(data)
        ctx.close(got, sc * ocount(v, lambda x: x >= c) / n, "FracAbove")
    elif which == "below":
        got = metrics.FracBelowMetric("v", cutoff=c, scale=sc, metric_name="x").run(data)
        ctx.close(got, sc * ocount(v, lambda x: x <= c) / n, "FracBelow")
    elif which == "lo":
        got = metrics.CountBeyondThreshold("v", lower_threshold=c).run(data)
        ctx.close(got, ocount(v, lambda x: x > c), "CountBeyond lower")
    elif which == "hi":
        got = metrics.CountBeyondThreshold("v", upper_threshold=c).run(data)
        ctx.close(got, ocount(v, lambda x: x < c), "CountBeyond upper")
    elif which == "none":
        ctx.close(metrics.CountBeyondThreshold("v").run(data), n, "CountBeyond none")
    elif which == "subset":
        ctx.close(metrics.CountSubsetMetric("v", subset=c).run(data), ocount(v, lambda x: x == c), "CountSubset")
    elif which == "ratio":
        ctx.close(metrics.CountRatioMetric("v", norm_val=sc, metric_name="x").run(data) * sc, n, "CountRatio")
    else:
        ctx.close(metrics.BinaryMetric("v").run(data), 1, "Binary")
        b = metrics.BinaryMetric("v", badval=-7)
        ctx.check(b.run(data[:0]) == -7, "no data gives the bad value")


@harness(P, [SM + "CountBeyondThreshold.run"], "1 to 4 visits, both thresholds any reals in [-8,8]",
         quick=[{"n": n} for n in (1, 2, 4)])
def beyond_both(ctx, n):
    v = ctx.reals("x", n, -8, 8)
    lo, hi = ctx.real("lo", -8, 8), ctx.real("hi", -8, 8)
    got = metrics.CountBeyondThreshold("v", lower_threshold=lo, upper_threshold=hi).run(ctx.rec({"v": v}))
    ctx.close(got, ocount(v, lambda x: sand(x > lo, x < hi)), "between thresholds")


@harness(P, [SM + "PercentileMetric.run"], "1 to 4 visits, values in [-8,8]; percentiles 0, 10, 25, 50, 90, 97.5, 100",
         quick=[{"n": n, "q": q} for n in (1, 2, 4) for q in (0, 10, 25, 50, 90, 97.5, 100)],
         thorough=[{"n": n, "q": q} for n in (1, 2, 3, 4, 5) for q in (0, 5, 10, 25, 33, 50, 75, 90, 97.5, 100)])
def percentile(ctx, n, q):
    v = ctx.reals("x", n, -8, 8)
    ctx.close(metrics.PercentileMetric("v", percentile=q).run(ctx.rec({"v": v})), opercentile(v, q), "Percentile")


@harness(P, [SM + "NoutliersNsigmaMetric.run"], "2 or 3 visits in [-4,4]; n_sigma in {-2,-1,-1/2,0,1/2,1,2}",
         quick=[{"n": n, "s": s} for n in (2, 3) for s in (-1.0, -0.5, 0.0, 0.5, 1.0, 1.25)])
def outliers(ctx, n, s):
    v = ctx.reals("x", n, -4, 4)
    got = metrics.NoutliersNsigmaMetric("v", n_sigma=s).run(ctx.rec({"v": v}))
    m, sd = omean(v), ostd(v)
    # leave out values at the boundary itself (rounding decides there)
    for x in v:
        ctx.assume(sor(x - (m + s * sd) > 0.001, (m + s * sd) - x > 0.001))
    exp = ocount(v, lambda x: (x > m + s * sd) if s >= 0 else (x < m + s * sd))
    ctx.close(got, exp, "Noutliers")


@harness(P, [SM + "CountExplimMetric.run"], "1 to 3 visits with exposure times any real in [0,128] s; min and expected exposures on a grid",
         quick=[{"n": n, "mn": a, "ex": b} for n in (1, 2, 3) for a, b in ((20.0, 30.0), (16.0, 32.0), (1.0, 8.0)) if n < 3 or b > 20])
def explim(ctx, n, mn, ex):
    v = ctx.reals("x", n, 0, 128)
    got = metrics.CountExplimMetric(min_exp=mn, expected_exp=ex, exp_col="v").run(ctx.rec({"v": v}))
    tot = 0
    for x in v:
        q = x / ex
        # away from rounding ties
        ctx.assume(sor(q - np.floor(q) > 0.501, q - np.floor(q) < 0.499))
        r = np.floor(q) + ite(q - np.floor(q) > 0.5, 1, 0)
        tot = tot + ite(x < mn, 0, r)
    ctx.close(got, tot, "CountExplim")


@harness(P, [SM + "FullRangeAngleMetric.run", SM + "RmsAngleMetric.run", SM + "_rotate_angles"],
         "1 to 3 (quick) or 4 (thorough) angles any real in [0, 360) degrees",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4)])
def angles(ctx, n):
    v = ctx.reals("x", n, 0, 359, grid=16)
    data = ctx.rec({"v": v})
    s = osorted(v)
    gaps = [s[i + 1] - s[i] for i in range(n - 1)] + [360 - s[-1] + s[0]]
    # the smallest arc holding every angle: 360 minus the largest gap
    big = omax(gaps)
    for i in range(n):
        for j in range(i):
            ctx.assume(sor(gaps[i] - gaps[j] > 0.01, gaps[j] - gaps[i] > 0.01))
    got = metrics.FullRangeAngleMetric("v").run(data)
    ctx.close(got, 360 - big, "FullRangeAngle", tol=1e-6)
    if n > 2:
        return
    k = 0
    while not bool(gaps[k] == big):
        k += 1
    rot = s[(k + 1) % n]
    un = [ite(x >= rot, x - rot, x - rot + 360) for x in v]
    got = metrics.RmsAngleMetric("v").run(data)
    ctx.close(got * got, ovar(un), "RmsAngle", tol=1e-5)


@harness(P, [SM + "Coaddm5Metric.run", SM + "Coaddm5Metric.coadd"],
         "1 to 3 visits, depths any real in [15, 28], band selected or not",
         quick=[{"n": n} for n in (1, 2, 3)])
def coadd(ctx, n):
    v = ctx.reals("x", n, 15, 28)
    b = [ctx.choice("b%d" % i, ["r", "g"]) for i in range(n)]
    sel = ctx.choice("sel", [None, "r"])
    use = [x for x, bb in zip(v, b) if sel is None or bb == sel]
    if not use:
        ctx.skip()
    data = ctx.rec({"m": v, "band": b}, {"band": "U"})
    got = metrics.Coaddm5Metric(m5_col="m", filter_name=sel, filter_col="band").run(data)
    # inverse-variance weights 10**(0.8 m) add
    tot = osum([10 ** (0.8 * x) for x in use])
    ctx.close(got, 1.25 * np.log10(tot), "coadded depth")
    for x in use:
        ctx.check(got >= x - 1e-9, "coadd at least as deep as each visit")


@harness(P, [SM + "Coaddm5Metric.run"], "no visits; badval any real")
def coadd_empty(ctx):
    bad = ctx.real("bad", -1000, 1000)
    m = metrics.Coaddm5Metric(m5_col="m", badval=bad)
    ctx.close(m.run(ctx.rec({"m": []})), bad, "empty slice is bad value")


@harness(P, [SM + "MeanAngleMetric.run", SM + "AngularSpreadMetric.run"], "1 to 3 angles, any real in [-400, 800] degrees (or any period), away from the "
         "limit below which the angles count as uniform", quick=[{"n": n} for n in (1, 2, 3)], budget=120)
def mean_angle(ctx, n):
    v = ctx.reals("x", n, -400, 800, grid=16)
    data = ctx.rec({"v": v})
    if ctx.bool("spread"):
        per = ctx.choice("period", [360.0, 2 * math.pi])
        cx = omean([ouf("cos", x * 2.0 * math.pi / per) for x in v])
        cy = omean([ouf("sin", x * 2.0 * math.pi / per) for x in v])
        got = metrics.AngularSpreadMetric("v", period=per).run(data)
        ctx.close((1 - got) * (1 - got), cx * cx + cy * cy, "spread is one minus the length of the mean unit vector", tol=1e-6)
        return
    cx, cy = omean([ouf("cos", np.radians(x)) for x in v]), omean([ouf("sin", np.radians(x)) for x in v])
    r2 = cx * cx + cy * cy
    ctx.assume(sor(r2 > 0.01001, r2 < 0.00999))
    got = metrics.MeanAngleMetric("v").run(data)
    if bool(r2 < 0.01):
        ctx.close(got, 180.0, "nearly uniform angles have mean 180")
        return
    a = np.degrees(atan2(cy, cx))
    ctx.assume(sor(a > 0.001, a < -0.001))
    ctx.close(got, ite(a < 0, a + 360, a), "mean angle is the direction of the mean unit vector", tol=1e-6)


@harness(P, [SM + "ApplyMappingMetric.run", SM + "PassMetric.run"], "1 to 3 values from a mapping with any real images; no mapping",
         quick=[{"n": n} for n in (1, 2, 3)])
def mapping(ctx, n):
    x = ctx.reals("x", n, -8, 8)
    data = ctx.rec({"v": x})
    got = metrics.ApplyMappingMetric("v").run(data)
    ctx.closes(list(got), x, "no mapping passes the column")
    got = metrics.PassMetric("v").run(data)
    ctx.closes(list(got["v"]), x, "pass")
