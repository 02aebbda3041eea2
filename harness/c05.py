"""Summary statistics over a sky map."""

import healpy as hp
import numpy as np

import rubin_sim.maf.metrics as metrics
from harness.lib import *  # noqa: F401,F403

P = "C05"
SU = "rubin_sim/maf/metrics/summary_metrics.py:"
AR = "rubin_sim/maf/metrics/area_summary_metrics.py:"
PIX = hp.nside2pixarea(1, degrees=True)
NAN = np.float64("nan")
assumptions(P, "maps of 12 pixels (the coarsest resolution); healpy's pixel area is used as is")


def sky(ctx, name, n, lo, hi):
    """12-pixel map: n arbitrary values, the other pixels NaN, at two different layouts."""
    v = ctx.reals(name, n, lo, hi)
    pos = [1, 4, 5, 8, 11][:n] if ctx.bool("layout") else list(range(n))
    full = [NAN] * 12
    for p, x in zip(pos, v):
        full[p] = x
    return v, full


@harness(P, [AR + "AreaSummaryMetric.run"],
         "12 pixels of which 1 to 4 finite with any value, the rest NaN; area of 1 to 5 pixels; both sort orders; default or mean reduction",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=200)
def area_summary(ctx, n):
    v, full = sky(ctx, "x", n, -8, 8)
    need = ctx.cint("need", 1, n + 1)
    area = ctx.choice("a", [need * PIX, (need - 1) * PIX + 1.0])
    dec = ctx.bool("dec")
    red = ctx.bool("mean")
    data = ctx.rec({"metricdata": full})
    got = metrics.AreaSummaryMetric(area=area, decreasing=dec, reduce_func=(metrics.area_summary_metrics.np.mean if red else None)).run(data)
    s = osorted(v)
    if dec:
        s = s[::-1]
    best = s[:need]
    ctx.close(got, omean(best) if red else best[-1], "value over the best area")


@harness(P, [AR + "AreaThresholdMetric.run"],
         "12 pixels of which 1 to 5 finite with any value, the rest NaN; any thresholds, either or both absent",
         quick=[{"n": n} for n in (1, 3)], thorough=[{"n": n} for n in (1, 3, 5)], budget=200)
def area_threshold(ctx, n):
    v, full = sky(ctx, "x", n, -8, 8)
    lo, hi = ctx.real("lo", -8, 8), ctx.real("hi", -8, 8)
    mode = ctx.choice("mode", ["none", "lo", "hi", "both"])
    kw = {}
    if mode in ("lo", "both"):
        kw["lower_threshold"] = lo
    if mode in ("hi", "both"):
        kw["upper_threshold"] = hi
    got = metrics.AreaThresholdMetric(**kw).run(ctx.rec({"metricdata": full}))
    if mode == "none":
        ctx.close(got, 12 * PIX, "no threshold counts the whole sky")
        return
    cnt = ocount(v, lambda x: sand(x > lo if "lower_threshold" in kw else True, x < hi if "upper_threshold" in kw else True))
    ctx.close(got, cnt * PIX, "area beyond the threshold")


@harness(P, [SU + "FONv.run"], "1 to 4 pixels with any value, area of 1 to 4 pixels, normalised or not",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4, 5)], budget=200)
def fonv(ctx, n):
    v = ctx.reals("x", n, 0, 1000)
    need = ctx.cint("need", 1, n + 1)
    norm = ctx.bool("norm")
    nv = ctx.choice("nv", [825, 100])
    m = metrics.FONv(asky=(need if norm else need - 0.5) * PIX, nside=1, n_visit=nv, norm=norm)
    got = m.run(ctx.rec({"metricdata": v}))
    d = dict(zip([str(x) for x in got["name"]], list(got["value"])))
    if need > n:
        ctx.check(d["MedianNvis"] == m.badval and d["MinNvis"] == m.badval, "not enough sky gives the bad value")
        return
    best = osorted(v)[::-1][:need]
    den = float(nv) if norm else 1.0
    ctx.close(d["MedianNvis"] * den, omedian(best), "median over the most visited area")
    ctx.close(d["MinNvis"] * den, best[-1], "minimum over the most visited area")


@harness(P, [SU + "FOArea.run"], "1 to 4 pixels with any value, any visit threshold, normalised or not",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=200)
def foarea(ctx, n):
    v = ctx.reals("x", n, 0, 1000)
    nv = ctx.real("nv", 1, 900)
    norm = ctx.bool("norm")
    asky = 18000.0
    m = metrics.FOArea(asky=asky, nside=1, n_visit=nv, norm=norm)
    got = m.run(ctx.rec({"metricdata": v}))
    cnt = ocount(v, lambda x: x >= nv)
    if bool(cnt == 0):
        ctx.check(got == m.badval, "no pixel above the threshold gives the bad value")
    else:
        ctx.close(got, cnt * (PIX / asky if norm else PIX), "area with at least that many visits")


@harness(P, [SU + "FootprintFractionMetric.run"],
         "12 pixels, 4 of them with any value, three footprints, any visit requirement",
         quick=[{"n": 4}])
def footprint(ctx, n):
    fp = np.zeros(12)
    fp[list(ctx.choice("fp", [[0, 1], [1, 3, 5, 7], list(range(12))]))] = ctx.choice("w", [1.0, 0.25])
    v = ctx.reals("x", n, 0, 10)
    full = v + [0.0] * (12 - n)
    nmin = ctx.real("nmin", 0.5, 5)
    got = metrics.FootprintFractionMetric(footprint=fp, n_min=nmin).run(ctx.rec({"metricdata": full}))
    want = [p for p in range(12) if fp[p] > 0]
    ctx.close(got * len(want), ocount([full[p] for p in want], lambda x: x >= nmin), "covered fraction of the footprint")


@harness(P, [SU + "IdentityMetric.run", SU + "NormalizeMetric.run", SU + "ZeropointMetric.run"],
         "1 to 3 values, any normalisation and zeropoint", quick=[{"n": n} for n in (1, 2, 3)])
def simple_maps(ctx, n):
    v = ctx.reals("x", n, -8, 8)
    z = ctx.real("z", 0.25, 8)
    which = ctx.choice("m", ["id", "norm", "zp"])
    data = ctx.rec({"metricdata": v})
    if which == "id":
        got, want = metrics.IdentityMetric("metricdata").run(data), v
    elif which == "norm":
        got = metrics.NormalizeMetric(norm_val=z).run(data)
        got = got * z
        want = v
    else:
        got, want = metrics.ZeropointMetric(zp=z).run(data), [x + z for x in v]
    if n == 1:
        ctx.check(len(np.shape(got)) == 0, "a single value stays a scalar")
        ctx.close(got, want[0], which)
    else:
        ctx.closes(list(got), want, which)
