"""Phase coverage, transients, colours and slopes, time lags and structure functions."""

import numpy as np

import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.metrics.agn_time_lag_metric as lag_mod
import rubin_sim.maf.metrics.agnstructure as sf_mod
from harness.lib import *  # noqa: F401,F403
from symx import run as _run

_run.EXTRA_MODULES += ["rubin_scheduler.utils.binned_stats"]
P = "C12"
ME = "rubin_sim/maf/metrics/"
PG = ME + "phase_gap_metric.py:"
AX1 = {"u": 4.75, "g": 3.625, "r": 2.75, "i": 2.125, "z": 1.5, "y": 1.25}
T = "observationStartMJD"
assumptions(P, "dust coefficients per band are fixed stand-in numbers (the data files are not installed); astropy's mad_std is replaced by its definition; "
            "gaps within 1% of the edge of a structure-function bin are left out (the code rounds them to half precision)")


class Dust:
    ax1 = AX1


lag_mod.DustValues = Dust
sf_mod.DustValues = Dust


def _mad_std(x):
    return sf_mod.np.median(abs(x - sf_mod.np.median(x))) * 1.482602218505602


sf_mod.mad_std = _mad_std


@harness(P, [PG + "PhaseGapMetric." + f for f in ("run", "reduce_mean_gap", "reduce_median_gap", "reduce_worst_period", "reduce_largest_gap")],
         "1 to 3 visits at any times in any order, 1 to 3 periods", quick=[{"n": 2}, {"n": 3}], budget=200)
def phasegap(ctx, n):
    k = ctx.choice("k", [1, 2, 3] if n == 2 else [1, 2])
    t = ctx.reals("t", n, 0, 8)
    lo, hi = ctx.choice("p", [(2.0, 4.0), (4.0, 4.0)] if n == 2 else [(4.0, 8.0)])
    mn = ctx.choice("min", [n, n + 1])
    m = metrics.PhaseGapMetric(n_periods=k, period_min=lo, period_max=hi, n_visits_min=mn)
    got = m.run(ctx.rec({T: t}))
    if n < mn:
        ctx.check(not isinstance(got, dict) and got == m.badval, "too few visits")
        return
    per = [lo] if lo == hi or k == 1 else [lo + (hi - lo) * i / (k - 1.0) for i in range(k)]
    ctx.closes(list(got["periods"]), per, "periods evenly spaced over the range")
    want = []
    for p in per:
        ph = osorted([x / p - np.floor(x / p) for x in t])
        want.append(omax([ph[i + 1] - ph[i] for i in range(n - 1)] + [1.0 - ph[-1] + ph[0]]))
    ctx.closes(list(got["maxGaps"]), want, "largest gap in phase of each period")
    ctx.close(m.reduce_mean_gap(got), omean(want), "mean gap")
    ctx.close(m.reduce_median_gap(got), omedian(want), "median gap")
    ctx.close(m.reduce_largest_gap(got), omax(want), "largest gap")
    wp = list(m.reduce_worst_period(got))
    ctx.check(len(wp) >= 1, "there is a worst period")
    for w in wp:
        i = [j for j in range(len(per)) if abs(per[j] - float(w)) < 1e-9]
        ctx.check(bool(i), "the worst period is one of the periods")
        ctx.close(want[i[0]], omax(want), "the worst period has the largest gap")


@harness(P, [PG + "PeriodicQualityMetric.run", PG + "PeriodicQualityMetric._calc_phase", PG + "PeriodicQualityMetric._calc_amp"],
         "1 or 2 visits at any times, each at one of two depths", quick=[{"n": 1}, {"n": 2}], budget=200)
def quality(ctx, n):
    t = ctx.reals("t", n, 0, 4)
    m5 = [ctx.choice("m%d" % i, [21.0, 23.0]) for i in range(n)]
    m = metrics.PeriodicQualityMetric(period=2.0, star_mag=20.0)
    d = ctx.rec({T: t, "fiveSigmaDepth": np.array(m5)})
    from rubin_sim.maf.utils import m52snr
    s = [float(m52snr(20.0, x)) for x in m5]
    tot = sum(s)
    ang = [(x - 2.0 * np.floor(x / 2.0)) / 2.0 * 2.0 * np.pi for x in t]
    c = osum([a * ouf("cos", p) for a, p in zip(s, ang)]) / tot
    q = osum([a * ouf("sin", p) for a, p in zip(s, ang)]) / tot
    f = m._calc_phase(d)
    ctx.close(f, 1.0 - osqrt(c * c + q * q), "distance of the signal-to-noise-weighted phase from balance", tol=1e-6)
    amp = m._calc_amp(d)
    tot2 = sum(a * a for a in s)
    best = omin([osqrt(osum([(ouf("sin", x / 2.0 * 2 * np.pi + k * np.pi / 8) * a) ** 2 for a, x in zip(s, t)])) for k in range(8)])
    ctx.close(amp, best / np.sqrt(tot2), "amplitude signal to noise at the worst phase", tol=1e-6)
    ctx.close(m.run(d), amp * f, "product of both", tol=1e-6)


@harness(P, [ME + "transient_metrics.py:TransientMetric.run", ME + "transient_metrics.py:TransientMetric.light_curve"],
         "1 to 3 visits in two bands, any order, times and depths within three light curves; one or two phases; rise, section and band requirements",
         quick=[{"n": 1}] + [{"n": 2, "part": p} for p in range(6)] + [{"n": 3, "part": p} for p in range(2)], budget=400)
def transient(ctx, n, part=None):
    dur, peak, rise, dec = 8.0, 2.0, -1.0, 0.5
    b = ctx.choice("b", [["g", "r", "g"][:n], ["r"] * n] if n < 3 else [["g", "r", "g"]])
    t = ctx.reals("t", n, 0, 16 if n == 1 else 12)
    m5 = ctx.reals("m", n, 18, 26) if n == 1 else [22.5, 22.25, 22.0][:n]
    if n == 1:
        start, nph, method = ctx.choice("start", [None, -1.0]), ctx.choice("nph", [1, 2]), ctx.choice("method", ["full", "partialLC"])
    elif n == 2:
        start, nph, method = ctx.choice("mode", [(None, 1, "full"), (-1.0, 2, "partialLC")])
    else:
        start, nph, method = -1.0, 1, "full"
    reqs = [(0, 1, 1), (1, 1, 1), (0, 2, 1), (0, 1, 2), (1, 2, 1), (1, 1, 2)]
    npre, nper, nf = ctx.choice("req", reqs) if part is None else reqs[part] if n == 2 else reqs[part + 4]
    m = metrics.TransientMetric(trans_duration=dur, peak_time=peak, rise_slope=rise, decline_slope=dec, survey_duration=33.0 / 365.25, survey_start=start,
                                g_peak=20.0, r_peak=21.0, n_pre_peak=npre, n_per_lc=nper, n_filters=nf, n_phase_check=nph, count_method=method)
    got = m.run(ctx.rec({T: t, "fiveSigmaDepth": m5, "band": b}, {"band": "U"}))
    s0 = omin(t) if start is None else start
    tot, det = 0, 0
    for p in range(nph):
        sh = p * dur / nph
        tot += (4 if method == "full" else 5) - (1 if p else 0)
        lcs = {}
        for i in range(n):
            q = (t[i] - s0 + sh) / dur
            k = int(np.floor(q))
            ph = (q - k) * dur
            mag = {"g": 20.0, "r": 21.0}[b[i]] + (rise * (ph - peak) if bool(ph <= peak) else dec * (ph - peak))
            lcs.setdefault(k, []).append((i, ph, bool(mag < m5[i])))
        for k, pts in lcs.items():
            up = [(i, ph) for i, ph, d in pts if d]
            if not up:
                continue
            if npre and sum(bool(ph < peak) for i, ph in up) < npre:
                continue
            if nper > 1 or nf > 1:
                ok = 0
                for f in "gr":
                    sec = set(int(np.floor(ph / dur * nper)) for i, ph in up if b[i] == f)
                    ok += bool(sec) and len(sec) >= nper
                if ok < nf:
                    continue
            det += 1
    ctx.close(got * tot, det, "fraction of the light curves that meet every requirement")


@harness(P, [ME + "color_slope_metrics.py:" + f for f in ("CheckColorSlope.__call__", "ColorSlopeMetric.run", "ColorSlope2NightMetric.run")],
         "1 to 4 visits in two bands on any of three nights, any order, times and depths; default or other column names", quick=[{"n": 2}, {"n": 3}, {"n": 4}], budget=300)
def colorslope(ctx, n):
    two = ctx.bool("two")
    nt = [ctx.cint("n%d" % i, 0, 2) for i in range(n)] if n < 4 else ctx.choice("nt", [[0] * 4, [1, 0, 1, 1]])
    b = [ctx.choice("b%d" % i, ["g", "r"]) for i in range(n)] if n < 4 else ctx.choice("b", [list("grgr"), list("rrgr")])
    u = ctx.reals("t", n, 0, 0.5)
    for i in range(n):
        for j in range(i):
            ctx.assume(u[i] != u[j])
    t = [a + x for a, x in zip(nt, u)]
    m5 = ctx.reals("m", n, 22, 24) if n < 3 else [23.5] * n
    other = ctx.bool("other") if n < 3 else n == 4
    cn = ("bb", "nn", "mm", "tt") if other else ("band", "night", "fiveSigmaDepth", T)
    kw = dict(filter_col="bb", night_col="nn", m5_col="mm", time_col="tt") if other else {}
    col, slo = 1.5, (3.0 if not two else 25.5)
    m = (metrics.ColorSlope2NightMetric if two else metrics.ColorSlopeMetric)(mag={"g": 23.0, "r": 22.5}, color_length=col, slope_length=slo, **kw)
    got = m.run(ctx.rec({cn[0]: b, cn[1]: np.array(nt), cn[2]: m5, cn[3]: t}, {cn[0]: "U", cn[1]: "i"}))
    use = [i for i in range(n) if bool(m5[i] > {"g": 23.0, "r": 22.5}[b[i]])]

    def count(key):
        c = 0
        for k in sorted(set(key(i) for i in use)):
            s = [i for i in use if key(i) == k]
            if len(s) < 3:
                continue
            slope = False
            for f in "gr":
                x = [t[i] for i in s if b[i] == f]
                if x:
                    slope = sor(slope, omax(x) - omin(x) >= slo / 24.0)
            color = False
            for i in s:
                for j in s:
                    if b[i] == "g" and b[j] == "r":
                        color = sor(color, abs(t[i] - t[j]) <= col / 24.0)
            c = c + ite(sand(slope, color), 1, 0)
        return c

    if two:
        want = count(lambda i: nt[i] // 2) + count(lambda i: (nt[i] + 1) // 2)
    else:
        want = count(lambda i: nt[i])
    ctx.close(got, want, "nights, or pairs of nights, with a colour and a slope")


@harness(P, [ME + "agn_time_lag_metric.py:AgnTimeLagMetric.run"], "1 to 3 visits in up to two bands at any times in any order, mean, least or largest gap, any redshift",
         quick=[{"n": 1}, {"n": 2}, {"n": 3}], budget=120)
def timelag(ctx, n):
    t = ctx.reals("t", n, 1, 9)
    b = ctx.choice("b", [["g", "i", "g"][:n], ["u"] * n])
    kind = ctx.choice("kind", ["mean", "min", "max"])
    z, th = ctx.real("z", 0, 4), ctx.real("th", 0.25, 8)
    for i in range(n):
        for j in range(i):
            ctx.assume(sor(t[i] - t[j] > 1 / 64, t[j] - t[i] > 1 / 64))
    m = metrics.AgnTimeLagMetric(lag=16.0, z=z, threshold=th, calc_type=kind, metric_name="x")
    got = m.run(ctx.rec({T: t, "fiveSigmaDepth": [24.0] * n, "band": b}, {"band": "U"}), {"ebv": 0.25})
    if n == 1:
        ctx.check(got == m.badval, "no gap with one visit")
        return
    s = osorted(t)
    g = [s[i + 1] - s[i] for i in range(n - 1)]
    c = {"mean": omean, "min": omin, "max": omax}[kind](g)
    v = 16.0 / ((1 + z) * c)
    ctx.assume(sor(v > th + 1e-6, v < th - 1e-6))
    if bool(v < th):
        ctx.check(got == m.badval, "below the threshold")
    else:
        ctx.close(got, v, "samples of the rest-frame lag")


@harness(P, [ME + "agnstructure.py:SFUncertMetric.run"], "2 or 3 visits of one of two depths at any times in any order, all or successive gaps, default or given weights",
         quick=[{"n": 2}, {"n": 3}], budget=200)
def structure(ctx, n):
    t = ctx.reals("t", n, 0, 8)
    m5 = [ctx.choice("m%d" % i, [23.0, 24.5, 18.0]) for i in range(n)] if n < 3 else [23.0, 24.5, 24.0]
    al = ctx.bool("all")
    e = [1.0, 3.0, 6.0]
    for i in range(n):
        for j in range(i):
            for x in e:
                g = abs(t[i] - t[j])
                ctx.assume(sand(sor(g > 1.01 * x, g < 0.99 * x), g > 1e-3))
    w = ctx.choice("w", [None, [0.25, 0.75]]) if n < 3 else [0.25, 0.75]
    m = metrics.SFUncertMetric(mag=21.0, bins=np.array(e), all_gaps=al, weight=None if w is None else np.array(w))
    got = m.run(ctx.rec({T: t, "fiveSigmaDepth": np.array(m5), "band": ["r"] * n}, {"band": "U"}), {"ebv": 0.2})
    from rubin_sim.maf.utils import m52snr
    mag = 21.0 + AX1["r"] * 0.2
    snr = [float(m52snr(mag, x)) for x in m5]
    use = [i for i in range(n) if snr[i] > 5]
    if len(use) < 2:
        ctx.check(got == m.badval, "too few visits in which the source is seen")
        return
    s = osorted([t[i] for i in use])
    k = len(s)
    g = [s[j] - s[i] for i in range(k) for j in range(i + 1, k)] if al else [s[i + 1] - s[i] for i in range(k - 1)]
    var = [(2.5 * np.log10(1 + 1 / snr[i])) ** 2 for i in use]
    mu = float(np.median(var))
    sd = 1.482602218505602 * float(np.median([abs(x - mu) for x in var]))
    ww = w or [0.5, 0.5]
    want = 0.0
    for i in range(2):
        c = sum(bool(sand(x >= e[i], x < e[i + 1])) for x in g)
        want += ww[i] * 2 * (mu + sd / np.sqrt(c if c else 0.01))
    ctx.close(got, want, "uncertainty of the structure function")
