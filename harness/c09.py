"""Co-added depths and the statistics built on them."""

import healpy as hp
import numpy as np

import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.metrics.exgal_m5 as exgal_mod
import rubin_sim.maf.metrics.scaling_metrics as scal_mod
import rubin_sim.maf.utils as mafu
from harness.lib import *  # noqa: F401,F403
from symx import run as _run

_run.EXTRA_MODULES += ["rubin_scheduler.utils.binned_stats", "rubin_scheduler.utils.season_utils"]
P = "C09"
ME = "rubin_sim/maf/metrics/"
AX1 = {"u": 4.75, "g": 3.625, "r": 2.75, "i": 2.125, "z": 1.5, "y": 1.25}
assumptions(P, "dust coefficients per band are fixed stand-in numbers (the data files are not installed); powers of ten are an abstract "
            "function with the exponential laws; rubin_scheduler's season and binning helpers are executed as they are")


class Dust:
    ax1 = AX1


exgal_mod.DustValues = Dust
scal_mod.DustValues = Dust


def co(m):
    return 1.25 * log10(osum([ten(0.8 * x) for x in m]))


@harness(P, ["rubin_sim/maf/utils/maf_utils.py:coadd_m5"], "1 to 4 depths, any real in [15,28], lists or arrays", quick=[{"n": n} for n in (1, 2, 3, 4)])
def coadd_util(ctx, n):
    m = ctx.reals("m", n, 15, 28)
    got = mafu.coadd_m5(ctx.arr(m) if ctx.bool("arr") else m)
    ctx.close(got, co(m), "co-added depth")
    for x in m:
        ctx.check(got >= x - 1e-9, "at least as deep as each visit")


@harness(P, [ME + "exgal_m5.py:ExgalM5.run"], "0 to 3 visits in one band at any depth, any extinction",
         quick=[{"n": n} for n in (0, 1, 2, 3)])
def exgal(ctx, n):
    m = ctx.reals("m", n, 15, 28)
    b = ctx.choice("b", ["u", "r", "y"])
    ebv = ctx.real("ebv", 0, 2)
    met = metrics.ExgalM5(filter_col="bb")
    got = met.run(ctx.rec({"fiveSigmaDepth": m, "bb": [b] * n}, {"bb": "U"}), {"ebv": ebv})
    if n == 0:
        ctx.check(got == met.badval, "no visits give the bad value")
        return
    ctx.close(got, co(m) - AX1[b] * ebv, "depth corrected for the band's extinction")


@harness(P, [ME + "weak_lensing_systematics_metric.py:ExgalM5WithCuts.run"],
         "1 to 3 visits in up to three bands at any depth, any extinction and cuts (values exactly at the depth cut left out)",
         quick=[{"n": n} for n in (1, 2, 3)], budget=120)
def exgal_cuts(ctx, n):
    m = ctx.reals("m", n, 15, 28)
    b = [ctx.choice("b%d" % i, ["g", "i", "z"] if n < 3 else ["g", "i"]) for i in range(n)]
    ebv, lim, cut = ctx.real("ebv", 0, 2), ctx.real("lim", 0, 2), ctx.real("cut", 14, 30)
    nf = ctx.choice("nf", [1, 2])
    met = metrics.ExgalM5WithCuts(lsst_filter="i", extinction_cut=lim, depth_cut=cut, n_filters=nf, filter_col="bb")
    got = met.run(ctx.rec({"fiveSigmaDepth": m, "bb": b}, {"bb": "U"}), {"ebv": ebv})
    use = [x for x, y in zip(m, b) if y == "i"]
    ok = len(set(b)) >= nf and bool(use) and bool(ebv <= lim)
    if ok:
        d = co(use) - AX1["i"] * ebv
        ctx.assume(sor(d > cut + 1e-6, d < cut - 1e-6))
        if bool(d > cut):
            ctx.close(got, d, "depth in the chosen band")
            return
    ctx.check(got == met.badval, "dusty, shallow or badly covered sky gives the bad value")


@harness(P, [ME + "weak_lensing_systematics_metric.py:WeakLensingNvisits.run", ME + "weak_lensing_systematics_metric.py:RIZDetectionCoaddExposureTime.run"],
         "1 to 3 visits in up to three bands at any depth and exposure time, any extinction and cuts", quick=[{"n": n} for n in (1, 2, 3)], budget=120)
def wl(ctx, n):
    t = ctx.reals("t", n, 0, 60)
    b = [ctx.choice("b%d" % i, ["g", "i", "z"] if n < 3 else ["g", "i"]) for i in range(n)]
    ebv, lim, mint = ctx.real("ebv", 0, 2), ctx.real("lim", 0, 2), ctx.real("mint", 0, 60)
    if ctx.bool("riz"):
        met = metrics.RIZDetectionCoaddExposureTime(ebvlim=lim, min_expTime=mint)
        got = met.run(ctx.rec({"visitExposureTime": t, "band": b}, {"band": "U"}), {"ebv": ebv})
        if bool(ebv > lim):
            ctx.check(got == met.badval, "dusty sky gives the bad value")
        else:
            ctx.close(got, osum([ite(sand(x > mint, y in "riz"), x, 0.0) for x, y in zip(t, b)]), "exposure time of long enough riz visits")
        return
    m = ctx.reals("m", n, 15, 28)
    cut = ctx.real("cut", 14, 30)
    met = metrics.WeakLensingNvisits(lsst_filter="i", depth_cut=cut, ebvlim=lim, min_exp_time=mint)
    got = met.run(ctx.rec({"fiveSigmaDepth": m, "visitExposureTime": t, "band": b}, {"band": "U"}), {"ebv": ebv})
    use = [x for x, y in zip(m, b) if y == "i"]
    if use and bool(ebv <= lim):
        d = co(use) - AX1["i"] * ebv
        ctx.assume(sor(d > cut + 1e-6, d < cut - 1e-6))
        if bool(d > cut):
            ctx.close(got, ocount(t, lambda x: x > mint), "visits in every band that are long enough")
            return
    ctx.check(got == met.badval, "dusty or shallow sky gives the bad value")


@harness(P, [ME + "optimal_m5_metric.py:OptimalM5Metric.run"], "1 to 3 visits with any depth and meridian depth; number behind, percentage or magnitudes",
         quick=[{"n": n} for n in (1, 2, 3)], budget=120)
def optimal(ctx, n):
    m, o = ctx.reals("m", n, 15, 28), ctx.reals("o", n, 15, 28)
    mode = ctx.choice("mode", ["n", "norm", "mag"])
    met = metrics.OptimalM5Metric(mag_diff=mode == "mag", normalize=mode == "norm")
    got = met.run(ctx.rec({"fiveSigmaDepth": m, "m5Optimal": o, "band": ["r"] * n}, {"band": "U"}))
    if mode == "mag":
        ctx.close(got, co(o) - co(m), "magnitudes behind the meridian survey")
        return
    behind = osum([ten(0.8 * x) for x in o]) - osum([ten(0.8 * x) for x in m])
    k = (n / 100.0) if mode == "norm" else 1.0
    ctx.close(got * k * ten(0.8 * omedian(m)), behind, "visits of median depth needed to catch up", tol=1e-6)


@harness(P, ["rubin_sim/maf/utils/maf_utils.py:collapse_night"],
         "1 to 3 visits in two bands on any of three nights, any times and depths, in any order; default or other column names",
         quick=[{"n": n} for n in (1, 2, 3)], budget=150)
def collapse(ctx, n):
    nt = [ctx.cint("n%d" % i, 0, 2) for i in range(n)]
    b = [ctx.choice("b%d" % i, ["g", "r"]) for i in range(n)]
    t = [nt[i] + x for i, x in enumerate(ctx.reals("t", n, 0, 0.5))]
    m = ctx.reals("m", n, 15, 28)
    other = ctx.bool("other")
    names = dict(night_col="nn", filter_col="ff", m5_col="mm", mjd_col="tt") if other else \
        dict(night_col="night", filter_col="filter", m5_col="fiveSigmaDepth", mjd_col="observationStartMJD")
    rec = ctx.rec({names["night_col"]: np.array(nt), names["filter_col"]: b, names["m5_col"]: m, names["mjd_col"]: t},
                  {names["night_col"]: "i", names["filter_col"]: "U"})
    got = mafu.collapse_night(rec, **names) if other else mafu.collapse_night(rec)
    keys = sorted(set(zip(nt, b)))
    ctx.check(len(got) == len(keys), "one row for each band and night")
    tt = list(got[names["mjd_col"]])
    for i in range(len(tt) - 1):
        ctx.check(tt[i] <= tt[i + 1], "rows are in time order")
    for i in range(len(tt)):
        k = (int(got[names["night_col"]][i]), str(got[names["filter_col"]][i]))
        sel = [j for j in range(n) if (nt[j], b[j]) == k]
        ctx.check(bool(sel), "every row is a night and band with visits")
        ctx.close(tt[i], omedian([t[j] for j in sel]), "median time of the night in that band")
        ctx.close(got[names["m5_col"]][i], co([m[j] for j in sel]), "co-added depth of the night in that band")
    ctx.check(len(set((int(x), str(y)) for x, y in zip(got[names["night_col"]], got[names["filter_col"]]))) == len(keys), "each night and band once")


@harness(P, [ME + "snr_weight.py:SnrWeightedMetric.run"], "1 to 3 visits with any depths and values", quick=[{"n": n} for n in (1, 2, 3)])
def snrw(ctx, n):
    m, x = ctx.reals("m", n, 15, 28), ctx.reals("x", n, -8, 8)
    got = metrics.SnrWeightedMetric("x").run(ctx.rec({"fiveSigmaDepth": m, "x": x}))
    w = [ten(0.4 * a) for a in m]
    ctx.close(got * osum(w), osum([a * c for a, c in zip(w, x)]), "average weighted by signal to noise", tol=1e-6)


@harness(P, [ME + "scaling_metrics.py:NgalScaleMetric.run"],
         "1 to 3 visits in two bands with any depth and one of three seeing values, any extinction and cuts", quick=[{"n": n} for n in (1, 2, 3)], budget=120)
def ngal(ctx, n):
    m = ctx.reals("m", n, 15, 28)
    b = [ctx.choice("b%d" % i, ["g", "i"]) for i in range(n)]
    see = [ctx.choice("s%d" % i, [0.5, 1.0]) for i in range(n)]
    ebv, amax, cut = ctx.real("ebv", 0, 2), ctx.real("amax", 0, 2), ctx.real("cut", 14, 30)
    got = metrics.NgalScaleMetric(a_max=amax, m5min=cut).run(
        ctx.rec({"fiveSigmaDepth": m, "band": b, "seeingFwhmEff": see}, {"band": "U"}), {"ebv": ebv, "nside": 1})
    use = [i for i in range(n) if b[i] == "i"]
    a = AX1["i"] * ebv
    ctx.assume(sor(a > amax + 1e-6, a < amax - 1e-6))
    if use and bool(a < amax):
        d = co([m[i] for i in use])
        ctx.assume(sor(d > cut + 1e-6, d < cut - 1e-6))
        if bool(d > cut):
            th = float(np.median([see[i] for i in use]))
            ctx.close(got, 57 * (0.75 / th) ** 1.5 * hp.nside2pixarea(1, degrees=True) * 3600.0, "galaxies scale with the seeing of the band's visits")
            return
    ctx.close(got, 0, "dusty or shallow sky has no usable galaxies")


@harness(P, [ME + "surfb_metric.py:SurfaceBrightLimitMetric.run", ME + "surfb_metric.py:surface_brightness_limit_approx"],
         "1 visit with any sky brightness, airmass and zeropoint, or 2 visits with any airmass, two exposure times, 1 or 2 snaps; one band, or two bands", quick=[{"n": n} for n in (1, 2)], budget=120)
def surfb(ctx, n):
    air = ctx.reals("x", n, 1, 2)
    sky = ctx.reals("sky", n, 17, 23) if n == 1 else [ctx.choice("sky%d" % i, [18.0, 26.0]) for i in range(n)]
    te = [ctx.choice("t%d" % i, [15.0, 30.0]) for i in range(n)]
    ne = [ctx.choice("e%d" % i, [1, 2]) for i in range(n)]
    zp = {"r": ctx.real("zp", 26, 29) if n == 1 else 28.0, "g": 28.0}
    k = {"r": 0.125, "g": 0.25}
    two = n == 2 and ctx.bool("twobands")
    ns, area, pix, rn = ctx.choice("limit", [(3.0, 100.0, 0.2, 8.8), (1000.0, 100.0, 0.25, 0.5)])
    met = metrics.SurfaceBrightLimitMetric(zpt=zp, k_atm=k, nsigma=ns, tot_area=area, pixscale=pix, readnoise=rn)
    d = ctx.rec({"band": ["r"] * (n - 1) + ["g" if two else "r"], "airmass": air, "visitExposureTime": te, "skyBrightness": sky, "numExposures": np.array(ne)},
                {"band": "U", "numExposures": "i"})
    if two:
        got, err = ctx.call(met.run, d, {})
        ctx.check(isinstance(err, ValueError), "different bands are not co-added")
        return
    lims = []
    for i in range(n):
        c = zp["r"] - 0.125 * air[i]
        s = -2.5 * np.log10(ns / np.sqrt(te[i] * area)) + 0.5 * (sky[i] + zp["r"]) - 0.125 * air[i]
        q = -2.5 * np.log10(ns * ns / (te[i] * area)) + c
        r = -2.5 * np.log10(ns * rn * np.sqrt(ne[i]) * np.sqrt(area / pix**2) / (te[i] * area)) + c
        best = s
        for x in (q, r):
            if bool(x < best):
                best = x
        lims.append(best)
    got = met.run(d, {})
    if n == 1:
        ctx.close(got, lims[0], "the most restrictive of the sky, source and readnoise limits", tol=1e-6)
    else:
        ctx.close(ten(0.8 * (got - lims[0])), 1 + ten(0.8 * (lims[1] - lims[0])), "limits co-added like depths", tol=1e-6)


@harness(P, [ME + "sky_sat_metric.py:SkySaturationMetric.run", ME + "schedview_metrics.py:AgeMetric.run"], "1 to 3 visits, saturation any real or undefined; any visit times",
         quick=[{"n": n} for n in (1, 2, 3)])
def small(ctx, n):
    bad = [ctx.bool("s%d" % i) for i in range(n)]
    x = [np.float64("nan") if s else ctx.real("x%d" % i, 10, 20) for i, s in enumerate(bad)]
    got = metrics.SkySaturationMetric().run(ctx.rec({"saturation_mag": x}), {})
    ctx.close(got, sum(bad), "number of visits the sky saturates")
    t = ctx.reals("t", n, 0, 100)
    now, lim = ctx.real("now", 100, 200), ctx.real("lim", 1, 200)
    age = metrics.AgeMetric(mjd=now, long_limit=lim).run(ctx.rec({"observationStartMJD": t}))
    a = now - omax(t)
    if bool(a > lim):
        ctx.check(isnan(age), "too old is masked")
    else:
        ctx.close(age, a, "time since the last visit")


@harness(P, [ME + "incremental_template_metric.py:TemplateTime.run"],
         "1 to 3 visits in any time order (or 4 in order), any seeing, two depths, two nights; a template of 2 images",
         quick=[{"n": n} for n in (1, 2, 3, 4)], budget=200)
def template(ctx, n):
    see = ctx.reals("s", n, 0.25, 2)
    if n == 4:
        nt, t = [0, 0, 1, 1], [60000.0, 60000.25, 60001.0, 60001.25]
    else:
        t = ctx.reals("t", n, 0, 0.5)
        nt = [ctx.cint("n%d" % i, 0, 1) for i in range(n)]
        t = [60000.0 + a + b for a, b in zip(nt, t)]
        for i in range(n):
            for j in range(i):
                ctx.assume(sor(t[i] > t[j] + 1 / 64, t[i] < t[j] - 1 / 64))
    m5 = [24.0] * 4 if n == 4 else ctx.choice("m5", [[24.0] * n, [24.75, 24.0, 24.5][:n], [24.0, 24.75, 24.75][:n]])
    met = metrics.TemplateTime(n_images_in_template=2, seeing_threshold=0.75, m5_threshold=24.5, mjd_start=59900.0)
    lat = met.site_latitude_rad
    d = ctx.rec({"observationStartMJD": t, "night": np.array(nt), "seeingFwhmEff": see, "fiveSigmaDepth": m5, "band": ["r"] * n},
                {"night": "i", "band": "U"})
    got = met.run(d, {"ra": 1.0, "dec": lat})
    if n < 2:
        ctx.check(got == met.badval, "too few visits for a template")
        return
    order = osort_idx(t)
    best = 0.75 * (500 / met.eff_wavelens["r"]) ** 0.3
    bench_s = symmax(best, omedian(see))
    bench_m = min(24.5 + 2.5 * float(np.log10(0.75 / best)), float(np.median(m5)))
    for x in see:
        ctx.assume(sor(x > best + 1e-6, x < best - 1e-6))
    ok = [i for i in order if m5[i] >= bench_m - 1e-12 and bool(see[i] <= bench_s)]
    if len(ok) < 2:
        ctx.check(got == met.badval, "no template without enough good visits")
        return
    last = ok[1]
    ctx.check(int(got["night_template_created"]) == nt[last], "the template is made on the night of the last image needed")
    ctx.check(int(got["n_images_until_template"]) == order.index(last) + 1, "images until the template")
    later = [i for i in order if nt[i] > nt[last]]
    ctx.check(int(got["n_images_with_template"]) == len(later), "images on later nights have a template")
    w = [10 ** (0.8 * m5[i]) for i in ok[:2]]
    ctx.close(got["template_m5"], 1.25 * np.log10(sum(w)), "depth of the template")
    ts = got["template_seeing"]
    ctx.close(ts * ts * sum(w) / w[0], osum([see[i] * see[i] * a / w[0] for i, a in zip(ok[:2], w)]), "seeing of the template", tol=1e-6)
    tm = 1.25 * np.log10(sum(w))
    dm = [m5[i] - 1.25 * np.log10(1 + 10 ** (0.8 * (m5[i] - tm))) for i in later]
    ctx.closes(list(got["diffim_lc"]["diff_m5"]), dm, "depth of the difference images")
    lc = got["diffim_lc"]
    ctx.closes(list(lc["mjd"]), [t[i] for i in later], "difference image times")
    ctx.closes([float(x) for x in lc["night"]], [nt[i] for i in later], "difference image nights")
    ctx.closes(list(lc["science_m5"]), [m5[i] for i in later], "science depths")
    ctx.closes(list(lc["science_seeing"]), [see[i] for i in later], "science seeing")
    ctx.closes(list(lc["template_m5"]), [got["template_m5"]] * len(later), "template depth of each difference image")
    ctx.closes(list(lc["template_seeing"]), [ts] * len(later), "template seeing of each difference image")
    ctx.closes(list(lc["n_alerts"]), [1e4 * 10 ** (0.6 * (x - 24.7)) for x in dm], "alerts of each difference image")
    ctx.close(got["total_alerts"], sum(1e4 * 10 ** (0.6 * (x - 24.7)) for x in dm), "alerts")
    ctx.close(met.reduce_template_m5(got), got["template_m5"], "reduce")
    ctx.close(met.reduce_total_alerts(got), got["total_alerts"], "reduce alerts")
    if later:
        ctx.close(got["fraction_better_template_seeing"] * len(later), ocount([see[i] for i in later], lambda x: x > ts), "fraction with a sharper template")
