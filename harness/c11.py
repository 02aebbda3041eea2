"""Seasons, pairs of visits and groups of nights."""

import numpy as np

import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.metrics.season_metrics as season_mod
from harness.lib import *  # noqa: F401,F403
from symx import run as _run

_run.EXTRA_MODULES += ["rubin_scheduler.utils.season_utils"]
P = "C11"
SE = "rubin_sim/maf/metrics/season_metrics.py:"
VG = "rubin_sim/maf/metrics/visit_groups_metric.py:"
AX1 = {"u": 4.75, "g": 3.625, "r": 2.75, "i": 2.125, "z": 1.5, "y": 1.25}
assumptions(P, "dust coefficients per band are fixed stand-in numbers (the data files are not installed); rubin_scheduler's calc_season is executed as it is; "
            "visits within 1e-6 of a season boundary are left out")


class Dust:
    ax1 = AX1


season_mod.DustValues = Dust
START = 60980.0


def began(ra):
    """The Sun passes the right ascension; the first time after the survey starts."""
    b = 60940.0 + (np.degrees(ra) - 178.98403541421598) / 360 * 365.25
    from rubin_scheduler.utils import SURVEY_START_MJD
    return float(b - np.floor((b - SURVEY_START_MJD) / 365.25) * 365.25)


@harness(P, [SE + "find_season_edges"], "1 to 4 sorted seasons, any real", quick=[{"n": n} for n in (1, 2, 3, 4)])
def edges(ctx, n):
    s = ctx.reals("s", n, -2, 4)
    for a, b in zip(s, s[1:]):
        ctx.assume(a <= b)
    f, l = season_mod.find_season_edges(ctx.arr(s))
    k = [int(np.floor(x)) for x in s]
    u = sorted(set(k))
    ctx.eq(list(f), [k.index(x) for x in u], "first of each season")
    ctx.eq(list(l), [n - 1 - k[::-1].index(x) for x in u], "last of each season")


@harness(P, [SE + "SeasonLengthMetric.run", SE + "CampaignLengthMetric.run", SE + "MeanCampaignFrequencyMetric.run", SE + "TdcMetric.run"],
         "1 to 3 visits in any order at any times of two years at two places, any exposure times and limits (or depths in two bands and any extinction)",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=300)
def seasons(ctx, n):
    which = ctx.choice("which", ["len", "camp", "freq", "tdc"])
    ra = ctx.choice("ra", [1.0, 4.0]) if n < 3 and which != "tdc" else 1.0
    b0 = began(ra)
    yr = [ctx.cint("y%d" % i, -1, 1) for i in range(n)] if n < 2 else [ctx.cint("y%d" % i, 0, 1) for i in range(n)]
    d = ctx.reals("d", n, 1, 364)
    t = [b0 + y * 365.25 + x for y, x in zip(yr, d)]
    sp = {"ra": ra}
    if which == "tdc":
        b = ctx.choice("b", [["g", "i", "g", "i"][:n], ["g"] * n])
        m5 = ctx.reals("m", n, 22, 26)
        ebv = ctx.real("ebv", 0, 1)
        cuts = {"g": 24.0, "i": 23.0}
        nt = [ctx.cint("n%d" % i, 0, 1) for i in range(n)] if n < 3 else [1, 0, 2, 5][:n]
        m = metrics.TdcMetric(mag_cuts=cuts, cad_norm=2.0, sea_norm=3.0, camp_norm=4.0)
        got = m.run(ctx.rec({"observationStartMJD": t, "fiveSigmaDepth": m5, "night": np.array(nt), "band": b}, {"night": "i", "band": "U"}), {"ra": ra, "ebv": ebv})
        use = [i for i in range(n) if bool(m5[i] - AX1[b[i]] * ebv > cuts[b[i]])]
    else:
        e = ctx.reals("e", n, 0, 60)
        lim = ctx.real("lim", 0, 60)
        use = [i for i in range(n) if bool(e[i] > lim)]
        rec = {"observationStartMJD": t, "visitExposureTime": e}
        if which == "len":
            red = ctx.choice("red", ["median", "max"])
            m = metrics.SeasonLengthMetric(min_exp_time=lim, reduce_func=getattr(season_mod.np, red))
            got = m.run(ctx.rec(rec), sp)
        elif which == "camp":
            m = metrics.CampaignLengthMetric(min_exp_time=lim)
            got = m.run(ctx.rec(rec), sp)
        else:
            nt = [ctx.cint("n%d" % i, 0, 2) for i in range(n)] if n < 3 else [1, 0, 2, 5][:n]
            rec["night"] = np.array(nt)
            m = metrics.MeanCampaignFrequencyMetric(min_exp_time=lim)
            got = m.run(ctx.rec(rec, {"night": "i"}), sp)
    if not use:
        ctx.check(isinstance(got, (int, float)) and got == m.badval, "no usable visit gives the bad value")
        return
    ys = sorted(set(yr[i] for i in use))
    groups = [[i for i in use if yr[i] == y] for y in ys]
    lens = [omax([t[i] for i in g]) - omin([t[i] for i in g]) for g in groups]
    if which == "len":
        ctx.close(got, omedian(lens) if red == "median" else omax(lens), "length of the seasons of the visits that are long enough")
        return
    if which == "camp":
        ctx.close(got, len(ys), "number of seasons")
        return
    gaps = []
    for g in groups:
        u = sorted(set(nt[i] for i in g))
        gaps.append((u[-1] - u[0]) / (len(u) - 1.0) if len(u) > 1 else 0.0)
    cad = sum(gaps) / len(gaps)
    if which == "freq":
        ctx.close(got, cad, "mean nights between visits in a season, averaged over seasons")
        return
    sea = omedian(lens) / 30.0
    if cad == 0 or bool(sea == 0):
        ctx.check(isinstance(got, (int, float)) and got == m.badval, "no cadence or season gives the bad value")
        return
    camp = len(ys)
    ctx.close(got["cadence (days)"], cad, "cadence")
    ctx.close(got["season (months)"], sea, "season")
    ctx.close(got["campaign"], camp, "campaign")
    ctx.close(got["accuracy"] * sea, 0.06 * 3.0 * (4.0 / camp) ** 1.1, "accuracy", tol=1e-6)
    p = (3.0 / sea) ** 0.3
    ctx.close(got["precision"], 4.0 * (cad / 2.0) ** 0.7 * p * (4.0 / camp) ** 0.6, "precision", tol=1e-6)
    q = (sea / 3.0) ** 0.8
    ctx.close(got["rate"], 30.0 * (2.0 / cad) ** 0.4 * q * (4.0 / camp) ** 0.2, "rate", tol=1e-6)
    for k, v in (("accuracy", "accuracy"), ("precision", "precision"), ("rate", "rate"), ("cadence", "cadence (days)"), ("season", "season (months)"), ("campaign", "campaign")):
        ctx.eq(getattr(m, "reduce_" + k)(got), got[v], "reduce")


@harness(P, [VG + "PairFractionMetric.run"], "1 to 4 visits at any times in any order, any gap limits", quick=[{"n": n} for n in (1, 2, 3)],
         thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=200)
def pairfrac(ctx, n):
    t = ctx.reals("t", n, 0, 4)
    lo, hi = ctx.choice("lim", [(720.0, 1440.0), (180.0, 1080.0)])
    got = metrics.PairFractionMetric(min_gap=lo, max_gap=hi).run(ctx.rec({"observationStartMJD": t}))
    lo, hi = lo / 1440.0, hi / 1440.0
    c = 0
    for i in range(n):
        p = False
        for j in range(n):
            if i != j:
                g = abs(t[i] - t[j])
                p = sor(p, sand(g >= lo, g <= hi))
        c = c + ite(p, 1, 0)
    ctx.close(got * n, c, "fraction of the visits with another between the limits apart")


@harness(P, [VG + "VisitGroupsMetric.run"], "1 to 4 visits at any times on either of two nights in any order", quick=[{"n": n} for n in (1, 2, 3, 4)],
         thorough=[{"n": n} for n in (1, 2, 3, 4, 5)], budget=300)
def groups(ctx, n):
    nt = [ctx.cint("n%d" % i, 0, 1) for i in range(n)] if n < 4 else [0] * n
    u = ctx.reals("t", n, 0, 8)
    lo, hi = 1.0, 3.0
    for i in range(n):
        for j in range(i):
            g = abs(u[i] - u[j])
            ctx.assume(sand(sor(g < lo - 1e-6, g >= lo), sor(g <= hi, g > hi + 1e-6)))
    t = [a * 16.0 + x for a, x in zip(nt, u)]
    m = metrics.VisitGroupsMetric(delta_t_min=lo, delta_t_max=hi)
    got = m.run(ctx.rec({"observationStartMJD": t, "night": np.array(nt)}, {"night": "i"}))
    want = []
    for k in sorted(set(nt)):
        s = osorted([t[i] for i in range(n) if nt[i] == k])
        full = half = 0
        for i in range(len(s)):
            g = [s[j + 1] - s[j] for j in (i - 1, i) if 0 <= j < len(s) - 1]
            f = any(bool(sand(x >= lo, x <= hi)) for x in g)
            c = any(bool(x < lo) for x in g)
            full += f
            half += (not f) and c
        if full:
            want.append((k, full + half / 2.0))
    if not want:
        ctx.check(not isinstance(got, dict) and got == m.badval, "no night with visits the right time apart")
        return
    ctx.check(isinstance(got, dict), "a night has visits the right time apart")
    ctx.eq([int(x) for x in got["nights"]], [k for k, _ in want], "nights with visits the right time apart")
    ctx.closes(list(got["visits"]), [v for _, v in want], "number of visits in the night")


@harness(P, [VG + "VisitGroupsMetric." + f for f in ("reduce_median", "reduce_n_nights_with_n_visits", "reduce_n_visits_in_window", "reduce_n_nights_in_window",
                                                    "reduce_n_lunations", "reduce_max_seq_lunations")],
         "1 to 4 nights anywhere in 70 (3 lunations), any numbers of visits; window of 5 or 30 nights, 1 or 2 nights in a group",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=400)
def groups_reduce(ctx, n):
    nt = ctx.ints("n", n, 0, 95)
    for a, b in zip(nt, nt[1:]):
        ctx.assume(a < b)
    v = ctx.reals("v", n, 2, 6)
    w = ctx.choice("w", [5, 30])
    k = ctx.choice("k", [1, 2])
    m = metrics.VisitGroupsMetric(window=w, min_n_nights=k, min_n_visits=3)
    val = {"visits": ctx.arr(v), "nights": ctx.arr(nt)}
    which = ctx.choice("which", ["med", "win", "lun"])
    ok = [bool(x >= 3) for x in v]
    if which == "med":
        ctx.close(m.reduce_median(val), omedian(v), "median visits in a night")
        ctx.close(m.reduce_n_nights_with_n_visits(val), sum(ok), "nights with enough visits")
        return
    if which == "win":
        nv, nn = 0, 0
        for i in range(n):
            inw = [sand(nt[j] >= nt[i], nt[j] < nt[i] + w) if ok[j] else False for j in range(n)]
            nv = symmax(nv, osum([ite(c, v[j], 0) for j, c in enumerate(inw)]))
            nn = symmax(nn, osum([ite(c, 1, 0) for c in inw]))
        ctx.close(m.reduce_n_visits_in_window(val), nv, "most visits in a window")
        ctx.close(m.reduce_n_nights_in_window(val), nn, "most nights in a window")
        return
    lun = [int(np.floor((x - nt[0]) / 30.0)) for x in nt]
    has = []
    for q in range(max(lun) + 1):
        ins = [j for j in range(n) if lun[j] == q]
        g = False
        for i in ins:
            c = [j for j in ins if ok[j] and bool(sand(nt[j] >= nt[i], nt[j] < nt[i] + w))]
            if len(c) >= k:
                g = True
                break
        has.append(g)
    best = cur = 0
    for g in has:
        cur = cur + 1 if g else 0
        best = max(best, cur)
    ctx.close(m.reduce_n_lunations(val), sum(has), "lunations with a group")
    ctx.close(m.reduce_max_seq_lunations(val), best, "longest run of lunations with a group")
