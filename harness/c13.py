"""Galactic-plane statistics, multiband depth models and crowding."""

import healpy as hp
import numpy as np

import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.metrics.exgal_m5 as exgal_mod
import rubin_sim.maf.metrics.galplane_time_sampling_metrics as gts
import rubin_sim.maf.metrics.uniformity_metrics as uni_mod
from rubin_sim.maf.maps.galactic_plane_priority_maps import gp_priority_map_components_to_keys as key
from harness.lib import *  # noqa: F401,F403
from symx import run as _run

_run.EXTRA_MODULES += ["rubin_scheduler.utils.season_utils"]
P = "C13"
ME = "rubin_sim/maf/metrics/"
AX1 = {"u": 4.75, "g": 3.625, "r": 2.75, "i": 2.125, "z": 1.5, "y": 1.25}
T = "observationStartMJD"
assumptions(P, "dust coefficients per band are fixed stand-in numbers (the data files are not installed); rubin_scheduler's calc_season is executed as it is")


class Dust:
    ax1 = AX1


exgal_mod.DustValues = Dust


def co(m):
    return 1.25 * log10(osum([ten(0.8 * x) for x in m]))


def decay(g, tau):
    return 1.0 if bool(g <= tau) else ouf("exp", -(g - tau) / tau)


@harness(P, [ME + "galplane_time_sampling_metrics.py:calc_interval_decay", ME + "galplane_time_sampling_metrics.py:GalPlaneVisitIntervalsTimescaleMetric.run"],
         "1 to 3 visits at any times in any order and any depths, any priority, two timescales", quick=[{"n": n} for n in (1, 2, 3)],
         thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=200)
def intervals(ctx, n):
    t, m5 = ctx.reals("t", n, 0, 8), ctx.reals("m", n, 20, 24)
    pr = ctx.real("pr", 0, 1)
    which = ctx.choice("map", ["galactic_plane", "combined_map", "other_map"])
    tau = [1.0, 4.0]
    m = metrics.GalPlaneVisitIntervalsTimescaleMetric(which, tau_obs=np.array(tau), mag_limit=22.0)
    ctx.check(m.maps == ["GalacticPlanePriorityMap"], "asks for the priority map")
    got = m.run(ctx.rec({T: t, "fiveSigmaDepth": m5}), {key("sum", which): pr})
    th = {"galactic_plane": 0.4, "combined_map": 0.001}.get(which, 0.0)
    if bool(pr <= th):
        ctx.check(not isinstance(got, dict) and got == m.badval, "unimportant sky gives the bad value")
        return
    use = osorted([t[i] for i in range(n) if bool(m5[i] >= 22.0)])
    if len(use) < 2:
        ctx.check(not isinstance(got, dict) and got == m.badval, "too few deep visits")
        return
    g = [b - a for a, b in zip(use, use[1:])]
    for x in tau:
        want = osum([decay(y, x) for y in g]) / len(g)
        ctx.close(got[x], want, "mean decay of the intervals between deep visits")
        ctx.eq(getattr(m, ("reduce_Tau_%.1f" % x).replace(".", "_"))(got), got[x], "reduce")


@harness(P, [ME + "galplane_time_sampling_metrics.py:GalPlaneSeasonGapsTimescaleMetric.run"],
         "1 to 3 visits in up to three seasons at any times in any order and any depths", quick=[{"n": n} for n in (1, 2, 3)], budget=200)
def season_gaps(ctx, n):
    ra = 1.0
    from rubin_scheduler.utils import SURVEY_START_MJD
    b = 60940.0 + (np.degrees(ra) - 178.98403541421598) / 360 * 365.25
    b0 = float(b - np.floor((b - SURVEY_START_MJD) / 365.25) * 365.25)
    yr = [ctx.cint("y%d" % i, 0, 2) for i in range(n)]
    t = [b0 + y * 365.25 + x for y, x in zip(yr, ctx.reals("d", n, 1, 364))]
    m5 = ctx.reals("m", n, 20, 24)
    tau = [100.0, 200.0]
    m = metrics.GalPlaneSeasonGapsTimescaleMetric("galactic_plane", tau_var=np.array(tau), mag_limit=22.0, expected_season_gap=145.0)
    ctx.check(m.maps == ["GalacticPlanePriorityMap"], "asks for the priority map")
    got = m.run(ctx.rec({T: t, "fiveSigmaDepth": m5}), {key("sum", "galactic_plane"): 0.5, "ra": ra})
    use = [i for i in range(n) if bool(m5[i] >= 22.0)]
    ys = sorted(set(yr[i] for i in use))
    if len(ys) < 2:
        ctx.check(not isinstance(got, dict) and got == m.badval, "no gap between seasons")
        return
    g = [omin([t[i] for i in use if yr[i] == b]) - omax([t[i] for i in use if yr[i] == a]) for a, b in zip(ys, ys[1:])]
    for x in tau:
        want = osum([1.0 if bool(y <= 145.0) else decay(y, x) for y in g]) / len(g)
        ctx.close(got[x], want, "mean decay of the gaps between seasons")


@harness(P, [ME + "galactic_plane_metrics.py:GalPlaneFootprintMetric.run", ME + "galactic_plane_metrics.py:GalPlaneTimePerFilterMetric.run",
             ME + "galactic_plane_metrics.py:galplane_nvisits_thresholds"],
         "1 to 3 visits in two bands at any depths and exposure times, any priorities", quick=[{"n": n} for n in (1, 2, 3)], budget=200)
def footprint(ctx, n):
    b = [ctx.choice("b%d" % i, ["g", "i", "u"] if n < 3 else ["g", "i"]) for i in range(n)]
    m5 = ctx.reals("m", n, 20, 24)
    pr, pg, pi = ctx.real("pr", 0, 2), ctx.real("pg", 0, 1), ctx.real("pi", 0, 1)
    sp = {key("sum", "galactic_plane"): pr, key("g", "galactic_plane"): pg, key("i", "galactic_plane"): pi}
    cuts = {"g": 22.0, "i": 21.0}
    use = {f: [i for i in range(n) if b[i] == f and bool(m5[i] >= cuts[f])] for f in "gi"}
    if ctx.bool("time"):
        e = ctx.reals("e", n, 1, 60)
        m = metrics.GalPlaneTimePerFilterMetric("galactic_plane", mag_cuts=cuts, filterlist=["g", "i"])
        got = m.run(ctx.rec({"band": b, "fiveSigmaDepth": m5, "visitExposureTime": e}, {"band": "U"}), sp)
        if bool(pr <= 0.4):
            ctx.check(not isinstance(got, dict) and got == m.badval, "unimportant sky gives the bad value")
            return
        tot = osum([e[i] for f in "gi" for i in use[f]])
        for f, w in (("g", pg), ("i", pi)):
            if not (use["g"] or use["i"]):
                ctx.close(got[f], 0, "no deep visits")
            elif bool(w > 0):
                ctx.close(got[f] * tot * w, osum([e[i] for i in use[f]]) * pr, "fraction of the time in the band over its share of the priority")
            else:
                ctx.check(got[f] == m.badval, "no priority in the band")
            ctx.eq(getattr(m, "reduce_" + f)(got), got[f], "reduce")
        return
    tau = [8000.0, 2000.0]
    m = metrics.GalPlaneFootprintMetric("galactic_plane", tau_obs=np.array(tau), mag_cuts=cuts, filterlist=["g", "i"])
    got = m.run(ctx.rec({"band": b, "fiveSigmaDepth": m5}, {"band": "U"}), sp)
    if bool(pr <= 0.4):
        ctx.check(not isinstance(got, dict) and got == m.badval, "unimportant sky gives the bad value")
        return
    k = len(use["g"]) + len(use["i"])
    ctx.close(m.reduce_n_obs(got), k, "deep visits")
    ctx.close(m.reduce_n_obs_priority(got), len(use["g"]) * pg + len(use["i"]) * pi, "deep visits weighted by the band's priority")
    for x in tau:
        need = 3652.5 * (6.5 / 12) * 2 / x
        ctx.close(getattr(m, ("reduce_Tau_%.1f" % x).replace(".", "_"))(got), pr if k >= need else 0, "priority where there are enough visits for the timescale")


@harness(P, [ME + "uniformity_metrics.py:SingleLinearMultibandModelMetric.run", ME + "uniformity_metrics.py:NestedLinearMultibandModelMetric.run",
             ME + "uniformity_metrics.py:MultibandExgalM5.run"],
         "2 or 3 visits in two or three bands at any depths, any extinction, coefficients, mean depths and depth cuts", quick=[{"n": n} for n in (2, 3)], budget=200)
def linear(ctx, n):
    b = ctx.choice("b", [["g", "r"], ["r", "g"]] if n == 2 else [["g", "r", "g"], ["r", "g", "i"]])
    m5 = ctx.reals("m", n, 20, 26)
    ebv, lim = ctx.real("ebv", 0, 1), ctx.real("lim", 0, 1)
    nf = ctx.choice("nf", [2, 3])
    cg, cr, cst = ctx.real("cg", -2, 2), ctx.real("cr", -2, 2), ctx.real("cst", -2, 2)
    mean = ctx.choice("mean", [None, {"g": 24.0, "r": 23.0}])
    which = ctx.choice("which", ["single", "nested", "multi"])
    d = ctx.rec({"fiveSigmaDepth": m5, "band": b}, {"band": "U"})
    sp = {"ebv": ebv}
    dep = {f: (co([m5[i] for i in range(n) if b[i] == f]) if b.count(f) > 1 else m5[b.index(f)]) - AX1[f] * ebv for f in set(b)}
    dusty = bool(ebv > lim) or len(set(b)) < nf
    if which == "multi":
        m = uni_mod.MultibandExgalM5(extinction_cut=lim, n_filters=nf, badval=-99.0)
        got = list(m.run(d, sp))
        ctx.check(len(got) == 6, "one depth for each band")
        for f, x in zip("ugrizy", got):
            ctx.close(x, -99.0 if dusty or f not in dep else dep[f], "depth in the band")
        return
    md = mean or {"g": 0, "r": 0}
    lin = cst + cg * (dep["g"] - md["g"]) + cr * (dep["r"] - md["r"])
    if which == "single":
        cuts = ctx.choice("cuts", [0, 1])
        kw = dict(min_depth_cut={"g": 22.0}, max_depth_cut={"r": 25.0}) if cuts else {}
        m = metrics.SingleLinearMultibandModelMetric({"g": cg, "r": cr, "cst": cst}, extinction_cut=lim, n_filters=nf, mean_depth=mean, badval=-99.0, **kw)
        got = m.run(d, sp)
        bad = dusty
        if not bad and cuts:
            ctx.assume(sand(abs(dep["g"] - 22.0) > 1e-6, abs(dep["r"] - 25.0) > 1e-6))
            bad = bool(sor(dep["g"] < 22.0, dep["r"] > 25.0))
        if bad:
            ctx.check(got == -99.0, "dusty, badly covered, shallow or deep sky gives the bad value")
        else:
            ctx.close(list(got.ravel())[0], lin, "linear combination of the depths")
        return
    # two models; bands without visits must not enter, so all six have visits here
    bb = ["u", "i", "z", "y"] + [f for f in b if f != "i"]
    mm = [24.0] * 4 + [m5[i] for i in range(n) if b[i] != "i"]
    d = ctx.rec({"fiveSigmaDepth": mm, "band": bb}, {"band": "U"})
    m = metrics.NestedLinearMultibandModelMetric([{"g": cg, "cst": cst}, {"r": cr, "i": 0.5}], extinction_cut=lim, n_filters=6, mean_depth=mean, badval=-99.0)
    got = list(m.run(d, sp))
    if bool(ebv > lim):
        ctx.closes(got, [-99.0, -99.0], "dusty sky gives the bad value")
        return
    g = co([x for x, f in zip(mm, bb) if f == "g"]) if bb.count("g") > 1 else mm[bb.index("g")]
    r = mm[bb.index("r")]
    ctx.closes(got, [cst + cg * (g - AX1["g"] * ebv - md["g"]), cr * (r - AX1["r"] * ebv - md["r"]) + 0.5 * (24.0 - AX1["i"] * ebv)], "each linear combination of the depths")


@harness(P, [ME + "crowding_metric.py:" + f for f in ("_comp_crowd_error", "CrowdingM5Metric.run", "NstarsMetric.run", "CrowdingMagUncertMetric.run")] +
         [ME + "star_density.py:StarDensityMetric.run"],
         "a luminosity function of four magnitude bins, any increasing star counts (or any limiting magnitude), any seeing of 1 or 2 visits", quick=[{"n": 1}, {"n": 2}], budget=200)
def crowding(ctx, n):
    mag = [16.0, 18.0, 20.0, 22.0, 24.0]
    which = ctx.choice("which", ["m5", "nstars", "uncert", "density"])
    see = ctx.reals("s", n, 0.25, 2)
    if which in ("density", "nstars"):
        lf = [10.0, 400.0, 9000.0, 100000.0]
    elif which == "uncert":
        lf = ctx.choice("lf", [[10.0, 400.0, 9000.0, 100000.0], [0.0, 0.0, 1000.0, 2000.0]])
    else:
        df = ctx.reals("df", 4, 1, 4096)
        lf = [df[0], df[0] + df[1], df[0] + df[1] + df[2], df[0] + df[1] + df[2] + df[3]]
    sp = {"starMapBins_r": np.array(mag), "starLumFunc_r": ctx.arr(lf) if which == "m5" else np.array(lf), "nside": 1}
    mv = mag[1:]

    def interp(x):
        for i in range(3):
            if bool(x <= mv[i + 1]):
                return lf[i] + (lf[i + 1] - lf[i]) * (x - mv[i]) / (mv[i + 1] - mv[i])
    if which == "density":
        lim = ctx.real("lim", 16, 26)
        got = metrics.StarDensityMetric(mag_limit=lim).run(None, sp)
        if bool(sor(lim < 18, lim > 24)):
            ctx.check(got == -666, "outside the map")
        else:
            ctx.close(got * 3600.0**2, interp(lim), "stars brighter than the limit")
        return
    best = omin(see)
    cf = np.sqrt(np.pi / 3600.0**2) / 2.0
    lum = [10 ** (-0.4 * x) for x in mv[1:]]
    dd = [lf[i + 1] - lf[i] for i in range(3)]
    e2 = [osum([lum[j] ** 2 / lum[i] ** 2 * dd[j] for j in range(i, 3)]) for i in range(3)]
    if which == "uncert":
        x = ctx.real("x", 20, 24)
        got = metrics.CrowdingMagUncertMetric(rmag=x, metric_name="a").run(ctx.rec({"seeingFwhmGeom": see}), sp)
        r = [osqrt(y) for y in e2]
        i = 0 if bool(x <= 22.0) else 1
        ctx.close(got, cf * best * (r[i] + (r[i + 1] - r[i]) * (x - mv[1 + i]) / 2.0), "crowding error at the magnitude", tol=1e-6)
        return
    if which == "m5":
        lim = ctx.choice("lim", [0.1, 0.01])
        for y in e2:
            z = y * best * best * cf * cf
            ctx.assume(sor(z > lim * lim * 1.001, z < lim * lim * 0.999))
        got = metrics.CrowdingM5Metric(crowding_error=lim).run(ctx.rec({"seeingFwhmGeom": see}), sp)
        for i in range(3):
            if bool(e2[i] * best * best * cf * cf >= lim * lim):
                ctx.close(got, mv[max(i - 1, 0)], "last magnitude before the crowding error is too large")
                return
        ctx.close(got, 24.0, "no crowding")
        return
    ign = ctx.bool("ign")
    m5 = ctx.reals("m", n, 22, 23)
    m = metrics.NstarsMetric(crowding_error=0.1, ignore_crowding=ign)
    for y in e2:
        z = y * best * best * cf * cf
        ctx.assume(sor(z > 0.01 * 1.001, z < 0.01 * 0.999))
    got = m.run(ctx.rec({"seeingFwhmGeom": see, "fiveSigmaDepth": m5}), sp)
    crowd = 24.0
    for i in range(3):
        if bool(e2[i] * best * best * cf * cf >= 0.01):
            crowd = mv[max(i - 1, 0)]
            break
    lim = -2.5 * np.log10(1.0 / (0.1 * 1.09 * 5)) + (co(m5) if n > 1 else m5[0])
    ctx.assume(sand(lim > 18.001, lim < 23.999))
    if not ign and bool(crowd < lim):
        lim = crowd
    ctx.close(got, interp(lim) * hp.nside2pixarea(1, degrees=True), "stars brighter than the crowding and depth limits", tol=1e-6)


@harness(P, [ME + "chip_vendor_metric.py:ChipVendorMetric.run", ME + "brown_dwarf_metric.py:VolumeSumMetric.run", ME + "use_metrics.py:UseMetric.run"],
         "chips of either vendor; 1 to 3 any distances; notes of every kind", quick=[{"n": n} for n in (1, 2, 3)])
def others(ctx, n):
    x = ctx.reals("x", n, 0, 100)
    ctx.close(metrics.VolumeSumMetric(col="metricdata", nside=2).run(ctx.rec({"metricdata": x})), osum([a * a * a for a in x]) / 3.0 * hp.nside2pixarea(2), "volume out to each distance")
    row = [ctx.cint("c%d" % i, 0, 3) for i in range(n)]
    got = metrics.ChipVendorMetric().run(None, {"chipNames": ["R%d%d" % (1, r) for r in row]})
    v = set(1 if r % 2 == 0 else 2 for r in row)
    ctx.check(int(np.ravel(got)[0]) == (3 if len(v) > 1 else list(v)[0]), "vendor of the chips")
    if n == 1:
        note = ctx.choice("note", ["singles_x", "pairs_15", "triplet", "template_a", "too_b", "twilight_neo", "ddf_cosmos", "ddf_ecdfs, 3", "ddf_edfs_a", "ddf_elaiss1", "ddf_xmm_lss", "blob", "a pairs", ""])
        prog = ctx.choice("prog", ["A", "B"])
        progs = ctx.choice("progs", [(), ("A",)])
        got = metrics.UseMetric(science_programs=progs).run({"observation_reason": note, "science_program": prog})
        want = "other"
        for k in ("singles", "pairs", "triplet", "template", "too", "twilight", "ddf_cosmos", "ddf_ecdfs", "ddf_edfs", "ddf_elaiss1", "ddf_xmm_lss"):
            if note.startswith(k):
                want = k
        if progs and prog not in progs:
            want = "not science"
        ctx.check(got == want, "use of the visit")


@harness(P, [ME + "galactic_plane_metrics.py:galplane_nvisits_thresholds"], "any two timescales and survey length")
def thresholds(ctx):
    from rubin_sim.maf.metrics.galactic_plane_metrics import galplane_nvisits_thresholds
    tau = ctx.reals("tau", 2, 1, 1000)
    y = ctx.real("y", 0.1, 12)
    got = galplane_nvisits_thresholds(ctx.arr(tau), y)
    for g, x in zip(got, tau):
        ctx.close(g * x * 12.0, 365.25 * y * 6.5 * 2, "pairs of visits on the nights of 6.5 months a year, one per timescale", tol=1e-6)
