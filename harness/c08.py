"""Astrometric precision."""

import math

import numpy as np

import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.utils as mafu
from harness.lib import *  # noqa: F401,F403

P = "C08"
CM = "rubin_sim/maf/metrics/calibration_metrics.py:"
AU = "rubin_sim/maf/utils/astrometry_utils.py:"
assumptions(P, "powers of ten are an abstract function with the exponential laws", "where a metric is nonlinear in several columns, "
            "some of them take one of a few values chosen by the solver instead of any real")


# u-g, g-r, r-i, i-z, z-y of the Kurucz and white dwarf models the documentation names
COLOURS = {
    "O": (-0.4835688497, -0.5201721327, -0.3991733698, -0.3106800468, -0.2072290744),
    "B": (-0.3457202828, -0.4834762052, -0.3812792176, -0.2906072887, -0.1927230035),
    "A": (0.8823182684, -0.237288029, -0.2280783991, -0.1587960264, -0.03043824335),
    "F": (0.9140316091, 0.1254277486, -0.03419150003, -0.0802010739, -0.03802756413),
    "G": (1.198219095, 0.3915608688, 0.09129426676, 0.002604263747, -0.004659443668),
    "K": (1.716635024, 0.6081567546, 0.1796910856, 0.06492278686, 0.0425155827),
    "M": (2.747842719, 1.287599638, 0.5375622482, 0.4313486709, 0.219308065),
    "HeWD_25200_80": (-0.218959, -0.388374, -0.326946, -0.253573, -0.239460),
    "WD_11000_85": (0.286146, -0.109115, -0.178500, -0.185833, -0.186913),
    "WD_3000_85": (3.170620, 1.400062, 0.167195, 0.127024, -0.378069),
}


@harness(P, [AU + "m52snr", AU + "astrom_precision"],
         "any magnitudes and depths in [10,30], any seeing, signal to noise and floor; gamma none, 0.04 or 0.038")
def snr(ctx):
    m, m5 = ctx.real("m", 10, 30), ctx.real("m5", 10, 30)
    g = ctx.choice("g", [None, 0.04, 0.038])
    got = mafu.m52snr(m, m5, gamma=g) if g is not None or ctx.bool("explicit") else mafu.m52snr(m, m5, None)
    if g is None or g == 0.04:
        ctx.close(log10(got), math.log10(5.0) + 0.4 * (m5 - m), "a source at the depth has a ratio of 5, scaling as flux")
    else:
        x = ten(0.4 * (m - m5))
        ctx.close(got * got * ((0.04 - g) * x + g * x * x), 1.0, "signal to noise from gamma")
    f, s, fl = ctx.real("f", 0.25, 4), ctx.real("s", 1, 100), ctx.real("fl", 0, 1)
    e = mafu.astrom_precision(f, s, fl)
    ctx.check(e >= 0, "precision is not negative")
    ctx.close(e * e * s * s, f * f + fl * fl * s * s, "seeing over signal to noise plus the floor, in quadrature", tol=1e-6)


@harness(P, [AU + "sigma_slope"], "1 to 3 points with any positions, two of them at least 1/4 apart, or all equal; any of three uncertainties each",
         quick=[{"n": n} for n in (1, 2, 3)])
def slope(ctx, n):
    x = ctx.reals("x", n, -4, 4)
    s = [ctx.choice("s%d" % i, [0.5, 1.0, 2.0]) for i in range(n)]
    w = [1.0 / (a * a) for a in s]
    if n == 1:
        got = mafu.sigma_slope(ctx.arr(x), np.array(s))
        ctx.check(isnan(got), "a slope needs two positions")
        return
    ctx.assume(x[0] >= x[1] + 0.25)
    got = mafu.sigma_slope(ctx.arr(x), np.array(s))
    ctx.check(not isnan(got), "a spread of positions gives a slope uncertainty")
    sx = osum([a * b for a, b in zip(w, x)])
    den = osum(w) * osum([a * b * b for a, b in zip(w, x)]) - sx * sx
    ctx.close(got * got * den, osum(w), "weighted least-squares slope uncertainty", tol=1e-6)


def visits(ctx, n, symbolic, vary=True):
    """Columns of n visits and the expected position errors squared."""
    if not vary:
        sed = ctx.choice("sed", ["flat", "M"])
        cols = {"band": ctx.choice("bands", [["g", "r"], ["r", "r"], ["i", "g"]]), "fiveSigmaDepth": [22.0, 24.0], "seeingFwhmGeom": [0.5, 1.0]}
        u, g, i = COLOURS["M"][:3] if sed == "M" else (0, 0, 0)
        mag = {"r": 20.0, "i": 20.0 - i, "g": 20.0 + g, "u": 20.0 + g + u}
        err2 = [mafu.astrom_precision(f, mafu.m52snr(mag[b], m), 0.01) ** 2
                for b, f, m in zip(cols["band"], cols["seeingFwhmGeom"], cols["fiveSigmaDepth"])]
        return cols, err2, {"rmag": 20.0, "atm_err": 0.01, "sed_template": sed}
    band = [ctx.choice("b%d" % i, ["g", "r"]) for i in range(n)]
    m5 = [ctx.choice("m%d" % i, [22.0, 24.0]) for i in range(n)]
    if symbolic == "seeing":
        see = ctx.reals("f", n, 0.25, 2)
    else:
        see = [ctx.choice("f%d" % i, [0.5, 1.0]) for i in range(n)] if n < 3 else [0.5, 1.0, 0.75][:n]
    rmag, atm = 20.0, ctx.choice("atm", [0.01, 0.0])
    err2 = []
    for i in range(n):
        s = 5.0 * 10.0 ** (0.4 * (m5[i] - rmag))
        err2.append((see[i] / s) * (see[i] / s) + atm * atm)
    cols = {"band": band, "fiveSigmaDepth": m5, "seeingFwhmGeom": see}
    return cols, err2, {"rmag": rmag, "atm_err": atm}


@harness(P, [CM + "ParallaxMetric.run"], "1 to 3 visits in two bands at two depths; parallax factors any reals (or seeing any real)",
         quick=[{"n": n, "s": s, "norm": z} for n in (1, 2) for s in ("amp", "seeing") for z in (False, True) if not (z and s == "seeing")],
         thorough=[{"n": n, "s": s, "norm": z} for n in (1, 2, 3) for s in ("amp", "seeing") for z in (False, True) if not (z and s == "seeing")],
         budget=120)
def parallax(ctx, n, s, norm):
    cols, err2, kw = visits(ctx, n, s)
    if s == "amp":
        a, d = ctx.reals("a", n, 0.25, 1), ctx.reals("d", n, 0.25, 1)
    else:
        a, d = [ctx.choice("a%d" % i, [0.5, -1.0]) for i in range(n)], [0.25, 1.0, -0.5][:n]
    cols.update(ra_pi_amp=a, dec_pi_amp=d)
    got = metrics.ParallaxMetric(normalize=norm, **kw).run(ctx.rec(cols, {"band": "U"}))
    inf = osum([(x * x + y * y) / e for x, y, e in zip(a, d, err2)])
    ctx.check(got > 0, "the uncertainty is positive")
    if norm:
        best = osum([1.0 / e for e in err2])
        # ratio of the uncertainties: best possible over achieved
        ctx.close(got * got * best, inf, "normalised to parallax factors of one", tol=1e-5)
    else:
        ctx.close(got * got * inf, 1e6, "parallax uncertainty in mas combines both axes", tol=1e-6)


@harness(P, [CM + "ProperMotionMetric.run"],
         "2 to 4 visits in two bands at two depths, any times at least a day apart; normalised or not",
         quick=[{"n": n, "norm": z} for n in (2, 3) for z in (False, True)], thorough=[{"n": n, "norm": z} for n in (2, 3, 4) for z in (False, True)],
         budget=120)
def proper_motion(ctx, n, norm):
    cols, err2, kw = visits(ctx, n, "none")
    t = ctx.reals("t", n, 0, 1000)
    for i in range(n):
        for j in range(i):
            ctx.assume(sor(t[i] > t[j] + 1, t[i] < t[j] - 1))
    cols["observationStartMJD"] = t
    base = ctx.choice("base", [10.0, 2.0])
    m = metrics.ProperMotionMetric(normalize=norm, baseline=base, **kw)
    got = m.run(ctx.rec(cols, {"band": "U"}))
    # bands with a single visit are left out
    use = [i for i in range(n) if cols["band"].count(cols["band"][i]) > 1]
    if len(use) < 2:
        ctx.check(got == m.badval, "too few visits give the bad value")
        return
    w = [1.0 / err2[i] for i in use]

    def den(x):
        sx = osum([a * b for a, b in zip(w, x)])
        return osum(w) * osum([a * b * b for a, b in zip(w, x)]) - sx * sx

    scale = 1.0 / (osum(w) * osum(w))
    d = den([t[i] for i in use])
    if norm:
        x2 = [0.0] * (len(use) // 2) + [base * 365.25] * (len(use) - len(use) // 2)
        ctx.close(got * got * (den(x2) * scale), d * scale, "ratio to the best possible schedule", tol=1e-5)
    else:
        ctx.close(got * got * (d * scale), (365.25 * 1e3) ** 2 / osum(w), "slope uncertainty in mas per year", tol=1e-5)


@harness(P, [CM + "ParallaxCoverageMetric.run", CM + "ParallaxCoverageMetric._theta_check"],
         "2 visits with any parallax factors, or 2 visits at any two of twelve directions with any required range of angles (edges left out)",
         quick=[{"mode": "radius"}, {"mode": "theta"}], budget=120)
def coverage(ctx, mode):
    n = 2
    cols, err2, kw = visits(ctx, n, "none", vary=False)
    w = [1.0 / e for e in err2]
    if mode == "radius":
        a, d = ctx.reals("a", n, -1, 1), ctx.reals("d", n, -1, 1)
        rng = 0.0
    else:
        th = [ctx.cint("th%d" % i, 0, 11) for i in range(n)]
        a = [math.cos(math.radians(x * 30 + 5)) for x in th]
        d = [math.sin(math.radians(x * 30 + 5)) for x in th]
        rng = ctx.real("range", 0.125, 3)
    cols.update(ra_pi_amp=a, dec_pi_amp=d, observationStartMJD=[1.0, 2.0])
    lim = 5
    got = metrics.ParallaxCoverageMetric(theta_range=rng, snr_limit=lim, **kw).run(ctx.rec(cols, {"band": "U"}))
    sw = osum(w)
    ca, cd = osum([x * y for x, y in zip(w, a)]) / sw, osum([x * y for x, y in zip(w, d)]) / sw
    r = osum([w[i] / sw * osqrt((a[i] - ca) * (a[i] - ca) + (d[i] - cd) * (d[i] - cd)) for i in range(n)])
    if mode == "radius":
        ctx.close(got, r, "weighted mean distance from the weighted mean parallax factor", tol=1e-6)
        return
    sep = abs(th[0] - th[1]) * 30.0
    sep = math.radians(min(sep, 360 - sep))
    ctx.assume(sor(rng > sep + 1e-6, rng < sep - 1e-6))
    if bool(rng < sep):
        ctx.close(got, r, "coverage counts when the directions span the range", tol=1e-6)
    else:
        ctx.close(got, 0.0, "coverage is zero when the directions do not span the range")


@harness(P, [CM + "ParallaxMetric.__init__", CM + "ProperMotionMetric.__init__", CM + "ParallaxCoverageMetric.__init__", CM + "ParallaxDcrDegenMetric.__init__",
             "rubin_sim/maf/metrics/dcr_metric.py:DcrPrecisionMetric.__init__", "rubin_sim/maf/utils/stellar_mags.py:stellar_mags"],
         "every stellar template, any r magnitude")
def templates(ctx):
    r = ctx.real("r", 14, 26)
    k = ctx.choice("t", ["O", "B", "A", "F", "G", "K", "M", "HeWD_25200_80", "WD_11000_85", "WD_3000_85"])
    mags = mafu.stellar_mags(k, rmag=r)
    ctx.close(mags["r"], r, "the template is scaled to the r magnitude")
    for (a, b), c in zip(zip("ugriz", "grizy"), COLOURS[k]):
        ctx.close(mags[a] - mags[b], c, "colours of the template, whatever the magnitude")
    cls = ctx.choice("cls", ["ParallaxMetric", "ProperMotionMetric", "ParallaxCoverageMetric", "ParallaxDcrDegenMetric", "DcrPrecisionMetric"])
    if ctx.bool("flat"):
        k, mags = "flat", dict.fromkeys("ugrizy", r)
    if cls == "ParallaxCoverageMetric":
        r = 20.0 if ctx.bool("r20") else 23.0  # the caption formats the magnitude
        mags = mafu.stellar_mags(k, rmag=r) if k != "flat" else dict.fromkeys("ugrizy", r)
    m = getattr(metrics, cls)(rmag=r, sed_template=k)
    for b in "ugrizy":
        ctx.close(m.mags[b], mags[b], "metrics use the template's magnitudes")


@harness(P, [CM + "RadiusObsMetric.reduce_mean", CM + "RadiusObsMetric.reduce_rms", CM + "RadiusObsMetric.reduce_full_range"],
         "1 to 3 distances, any real", quick=[{"n": n} for n in (1, 2, 3)])
def radius(ctx, n):
    d = ctx.reals("d", n, 0, 3)
    m = metrics.RadiusObsMetric()
    x = ctx.arr(d)
    ctx.close(m.reduce_mean(x), omean(d), "mean radius")
    ctx.close(m.reduce_rms(x), ostd(d), "rms radius")
    ctx.close(m.reduce_full_range(x), omax(d) - omin(d), "range of radii")


@harness(P, ["rubin_sim/maf/metrics/dcr_metric.py:DcrPrecisionMetric.run"], "1 or 2 visits, seeing any real, four zenith distances and angles",
         quick=[{"n": 1}, {"n": 2}], budget=120)
def dcr(ctx, n):
    cols, err2, kw = visits(ctx, n, "seeing")
    zd = [ctx.choice("z%d" % i, [20.0, 50.0]) for i in range(n)]
    pa = [ctx.choice("p%d" % i, [30.0, -60.0]) for i in range(n)]
    cols.update(zenithDistance=zd, paraAngle=pa)
    got = metrics.DcrPrecisionMetric(**kw).run(ctx.rec(cols, {"band": "U"}))
    inf = osum([math.tan(math.radians(z)) ** 2 / e for z, e in zip(zd, err2)])
    ctx.close(got * got * inf, 1.0, "slope precision from the tangent of the zenith distance", tol=1e-6)
