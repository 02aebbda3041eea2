"""Contributed statistics: triplets, filter pairs, explosive transients, outbursts, microlensing, periodic stars."""

import numpy as np

import rubin_sim.maf.maf_contrib.example_new_metrics as en
import rubin_sim.maf.maf_contrib.filter_pair_t_gaps_metric as fp
import rubin_sim.maf.maf_contrib.grb_transient_metric as grb
import rubin_sim.maf.maf_contrib.intervals_between_obs_metric as ib
import rubin_sim.maf.maf_contrib.kne_metrics as kn
import rubin_sim.maf.maf_contrib.microlensing_metric as ml
import rubin_sim.maf.maf_contrib.num_obs_in_survey_time_overlap_metric as no
import rubin_sim.maf.maf_contrib.periodic_metric as pm
import rubin_sim.maf.maf_contrib.periodic_star_metric as ps
import rubin_sim.maf.maf_contrib.periodic_star_modulation_metric as psm
import rubin_sim.maf.maf_contrib.presto_color_kne_pop_metric as pc
import rubin_sim.maf.maf_contrib.tdes_pop_metric as td
import rubin_sim.maf.maf_contrib.triplet_metric as tr
import rubin_sim.maf.maf_contrib.xrb_metrics as xr
from harness.lib import *  # noqa: F401,F403

P = "C25"
D = "rubin_sim/maf/maf_contrib/"
T, M5 = "observationStartMJD", "fiveSigmaDepth"
AX1 = {"u": 4.75, "g": 3.625, "r": 2.75, "i": 2.125, "z": 1.5, "y": 1.25}
assumptions(P, "dust coefficients per band and light-curve templates are fixed stand-in numbers (the data files are not installed); scipy's curve_fit is replaced by one that returns any parameters; the score tables of the presto-colour metric, the Fisher-information branch and the blended-source branch of the microlensing metric, and the noise simulation of VarDepth are outside")


class Dust:
    ax1 = AX1


for mod in (kn, pc, td, xr):
    mod.DustValues = Dust


def visits(ctx, b, t, m5, **kw):
    cols = {T: t, M5: m5, "band": b, "night": [0] * len(t)}
    cols.update(kw)
    return ctx.rec(cols, {"band": "U"})


@harness(P, [D + "triplet_metric.py:" + f for f in ("TripletMetric.run", "TripletBandMetric.run", "TripletBandMetric.reduce_bandall")],
         "3 or 4 visits at any times in any order, in one or two bands, three sets of limits on the intervals and their ratio", quick=[{"n": 3}], thorough=[{"n": 4}], budget=200)
def triplets(ctx, n):
    b = ctx.choice("b", [["g"] * n, ["g", "r", "g", "g"][:n]]) if n == 3 else ["g", "r", "g", "g"]
    t = ctx.reals("t", n, 0, 1)
    dm, dx, r0, r1 = ctx.choice("lim", [(1, 12, 1, 1000), (2, 6, 1.5, 3), (0, 24, 0, 2)]) if n == 3 else (2, 6, 0, 1000)
    kw = dict(DelMin=dm, DelMax=dx, RatioMin=r0, RatioMax=r1)
    base = 49378.0
    d = ctx.rec({"expMJD": [base + x for x in t], "filter": b}, {"filter": "U"})
    tot, per = 0, {x: 0 for x in "ugrizy"}
    for i in range(n):
        for j in range(n):
            for lim in (dm / 24.0, dx / 24.0):
                ctx.assume(oabs(t[j] - t[i] - lim) > 1e-6)
            for k in range(n if n == 3 else 0):
                if len({i, j, k}) == 3:
                    for r in (r0, r1):
                        ctx.assume(oabs((t[j] - t[i]) - r * (t[k] - t[j])) > 1e-6)
    for i in range(n):
        for j in range(n):
            if i == j or not (bool(t[j] - t[i] > dm / 24.0) and bool(t[j] - t[i] < dx / 24.0)):
                continue
            for k in range(n):
                if k == j or k == i or not (bool(t[k] - t[j] > dm / 24.0) and bool(t[k] - t[j] < dx / 24.0)):
                    continue
                a, c = t[j] - t[i], t[k] - t[j]
                hi, lo = (a, c) if bool(a >= c) else (c, a)
                if bool(hi > r0 * lo) and bool(hi < r1 * lo):
                    tot += 1
                    if b[i] == b[j] == b[k]:
                        per[b[i]] += 1
    ctx.close(tr.TripletMetric(**kw).run(d), tot, "triplets with intervals and ratio within the limits")
    m = tr.TripletBandMetric(**kw)
    got = m.run(d)
    for x in "ugrizy":
        ctx.close(m.reduce_funcs["band" + x](got), per[x], "triplets in the same band")
    ctx.close(m.reduce_bandall(got), sum(per.values()), "all bands")
    ctx.check(set(m.reduce_funcs) <= set(m.reduce_order), "every reduce function has a place in the order")


@harness(P, [D + "filter_pair_t_gaps_metric.py:FilterPairTGapsMetric." + f for f in ("run", "_get_d_t")],
         "2 to 4 visits at any times in any order, any mix of two bands, some too shallow, three time bins, all gaps or the nearest only", quick=[{"n": 2, "allg": a} for a in (True, False)] + [{"n": 3, "allg": True}], thorough=[{"n": 3, "allg": False}], budget=200)
def filter_pairs(ctx, n, allg):
    b = [ctx.choice("b%d" % i, ["g", "r"]) for i in range(n)]
    t = ctx.reals("t", n, 0, 4)
    for i in range(n):
        for j in range(i):
            ctx.assume(t[i] != t[j])
    deep = [True] * (n - 1) + [ctx.bool("deep")]
    bins = {"gg": [0.0, 0.5, 1.0, 3.0], "gr": [0.0, 0.25, 2.0]}
    m = fp.FilterPairTGapsMetric(fltpairs=["gg", "gr"], bins_same=np.array(bins["gg"]), bins_diff=np.array(bins["gr"]), nv_clip={"gg": 2, "gr": 30}, allgaps=allg, filter_col="band")
    got, err = ctx.call(m.run, visits(ctx, b, t, [20.0 if q else 17.5 for q in deep]))
    ctx.check(err is None, "every mix of bands is accepted (%s)" % err)
    want = 0.0
    use = [i for i in osort_idx(t) if deep[i]]
    for p in ("gg", "gr"):
        g0, g1 = [t[i] for i in use if b[i] == p[0]], [t[i] for i in use if b[i] == p[1]]
        if p == "gg":
            gaps = [g0[j] - g0[i] for i in range(len(g0)) for j in range(i + 1, len(g0))] if allg else [g0[i + 1] - g0[i] for i in range(len(g0) - 1)]
        elif allg:
            gaps = [oabs(x - y) for x in g0 for y in g1]
        else:
            gaps = []
            for x in g0:
                after = [y - x for y in g1 if bool(y > x)]
                before = [x - y for y in g1 if bool(y < x)]
                gaps += ([after[0]] if after else []) + ([before[-1]] if before else [])
        e = bins[p]
        h = [0] * (len(e) - 1)
        for q in gaps:
            for k in range(len(h)):
                if bool(q >= e[k]) and (bool(q < e[k + 1]) or (k == len(h) - 1 and bool(q <= e[k + 1]))):
                    h[k] += 1
        if sum(h):
            c = [min(x, m.nv_clip[p]) for x in h]
            s = float(np.std(c))
            if s == 0:
                ctx.skip()  # all bins equally full: no spread
            want += sum(h) / s
    ctx.close(got, want, "number of gaps over the spread of the time bins, for each pair of bands")


@harness(P, [D + "intervals_between_obs_metric.py:IntervalsBetweenObsMetric.run", D + "num_obs_in_survey_time_overlap_metric.py:NumObsInSurveyTimeOverlapMetric.run"],
         "2 to 4 visits at any times in any order, two intervals of another survey", quick=[{"n": 2}, {"n": 3}], thorough=[{"n": 4}], budget=150)
def overlaps(ctx, n):
    wins = [("2030-01-01", "2030-01-11"), ("2030-02-01", "2030-02-06")]
    lim = [(62502.0, 62512.0), (62533.0, 62538.0)]
    t = ctx.reals("t", n, 62490, 62550)
    d = ctx.rec({T: t})
    s = osorted(t)
    cnt, gaps = 0, []
    for a, b in lim:
        inn = [x for x in s if bool(x > a) and bool(x < b)]
        cnt += len(inn)
        gaps += [inn[i + 1] - inn[i] for i in range(len(inn) - 1)]
    ctx.close(no.NumObsInSurveyTimeOverlapMetric(wins).run(d), cnt, "visits within the windows")
    stat = ctx.choice("stat", ["mean", "median", "std"])
    if gaps:
        got = ib.IntervalsBetweenObsMetric(wins, stat).run(ctx.rec({T: t}))
        ctx.close(got, {"mean": omean, "median": omedian, "std": ostd}[stat](gaps), "intervals between visits within a window")


@harness(P, [D + "example_new_metrics.py:NightsWithNFiltersMetric.run"], "2 to 4 visits of two bands on any of three nights", quick=[{"n": 2}, {"n": 3}], thorough=[{"n": 4}], budget=100)
def nights(ctx, n):
    nt = [ctx.cint("n%d" % i, 0, 2) for i in range(n)]
    bd = [ctx.choice("b%d" % i, ["g", "r"]) if i else "g" for i in range(n)]
    k = ctx.choice("k", [0, 1])
    got = en.NightsWithNFiltersMetric(n_filters=k).run(ctx.rec({"night": nt, "filter": bd}, {"filter": "U", "night": "i"}))
    ctx.close(got, sum(len(set(b for b, q in zip(bd, nt) if q == x)) > k for x in set(nt)), "nights with more than the given number of bands")


@harness(P, [D + "grb_transient_metric.py:GRBTransientMetric." + f for f in ("run", "light_curve", "reduce_band1_filt_avg", "reduce_bandany_nfilters")],
         "1 to 3 visits at any times in any order, any mix of two bands, 1 or 2 phases, requirements on detections, bands and change of brightness; with or without a survey start", quick=[{"n": 1, "q": 0}] + [{"n": 2, "q": q} for q in range(4)], budget=200)
def bursts(ctx, n, q):
    dur = 4.0
    start = ctx.choice("start", [None, -1.0]) if n == 1 or q == 0 else -1.0
    nph = ctx.choice("nph", [1, 2]) if n < 3 else 2
    nper, nf, dmag = [(1, 1, 0.0), (2, 1, 0.0), (1, 2, 0.0), (2, 1, 0.5)][q]
    b = ctx.choice("b", [list("gr"), list("gg")])[:n] + ["g"] * (n - 2)
    t = ctx.reals("t", n, 0, 8)
    m5 = ctx.reals("m", n, 20, 26)
    m = grb.GRBTransientMetric(apparent_mag_1min_sigma=0.0, apparent_mag_1min_mean=16.0, trans_duration=dur, survey_duration=20.5 / 365.25, survey_start=start, n_per_filter=nper, n_filters=nf, min_delta_mag=dmag, n_phase_check=nph)
    got = m.run(ctx.rec({"expMJD": t, M5: m5, "band": b}, {"band": "U"}))
    s0 = omin(t) if start is None else start
    cnt, tot = {x: 0 for x in "ugrizy"}, 0
    anyf = 0
    for p in range(nph):
        sh = p * dur / nph
        tot += 5 - (1 if p else 0)
        lcs = {}
        for i in osort_idx(t):
            u = (t[i] - s0 + sh) / dur
            k = int(np.floor(u))
            ph = t[i] - s0 + sh - k * dur
            mag = 16.0 + 2.5 * log10(ph * 1440.0) if bool(ph > 0) else 0.0
            if bool(mag < m5[i]):
                lcs.setdefault(k, []).append((b[i], mag))
        for pts in lcs.values():
            ok = 0
            for f in set(x for x, _ in pts):
                v = [y for x, y in pts if x == f]
                c = 1 + sum(bool(oabs(v[j + 1] - v[j]) > dmag) for j in range(len(v) - 1))
                if c >= nper:
                    cnt[f] += 1
                    ok += 1
            anyf += ok >= nf
    for f in "ugrizy":
        ctx.close(m.reduce_funcs["band" + f](got) * tot, cnt[f], "fraction of the bursts seen in the band")
    ctx.close(m.reduce_bandany_nfilters(got) * tot, anyf, "fraction seen in enough bands")
    ctx.close(m.reduce_band1_filt_avg(got) * tot * 6, sum(cnt.values()), "average over the six bands")
    ctx.check(set(m.reduce_funcs) <= set(m.reduce_order), "every reduce function has a place in the order")


PH = [-20.0, 0.0, 40.0]
MG = {"u": [24.0, 20.0, 26.0], "g": [23.5, 19.5, 25.5], "r": [23.0, 20.5, 24.0], "i": [22.0, 21.0, 23.0], "z": [22.5, 21.5, 22.5], "y": [21.0, 21.5, 22.0]}


def curve(x, f, ph=PH):
    """The template of the band, linear between its points and nothing outside (forks)."""
    v = MG[f]
    if bool(x < ph[0]) or bool(x > ph[-1]):
        return 99.0
    for k in range(len(ph) - 1):
        if bool(x <= ph[k + 1]):
            return v[k] + (v[k + 1] - v[k]) * (x - ph[k]) / (ph[k + 1] - ph[k])


def tde(cls, **kw):
    lc = td.TdeLc.__new__(td.TdeLc)
    other = {f: {"ph": np.array(PH), "mag": np.array([99.0] * 3)} for f in MG}
    lc.data = [other, {f: {"ph": np.array(PH), "mag": np.array(MG[f])} for f in MG}]
    old = td.TdeLc
    td.TdeLc = lambda file_list=None: lc
    try:
        return cls(mjd0=100.0, **kw)
    finally:
        td.TdeLc = old


@harness(P, [D + "tdes_pop_metric.py:" + f for f in ("TdeLc.interp", "TdePopMetric.run", "TdePopMetric._pre_peak_detect", "TdePopMetric._some_color_detect", "TdePopMetric._some_color_pu_detect", "TdePopMetricQuality.run", "TdePopMetricQuality._some_color_pnum_detect", "TdePopMetricQuality._some_color_pu_pnum_detect")],
         "1 to 7 visits in several bands, one at any time in any place of the order (the others before, at and after the peak), any depth, any dust", quick=[{"n": n} for n in (1, 3, 5, 6, 7)], budget=150)
def disruptions(ctx, n):
    peak = 7.0
    plan = [(-15.0, "g"), (-2.0, "u"), (1.0, "r"), (3.0, "i"), (15.0, "g"), (25.0, "u"), (-12.0, "r")][:n]
    free = ctx.choice("free", list(range(n)))
    x = ctx.real("x", -25, 45)
    m5f = ctx.real("m", 18, 27)
    ebv = ctx.choice("ebv", [0.0, 0.5]) if n < 5 else 0.25
    ph = [x if i == free else q for i, (q, f) in enumerate(plan)]
    b = [f for _, f in plan]
    m5 = [m5f if i == free else 27.0 for i in range(n)]
    d = visits(ctx, b, [100.0 + peak + q for q in ph], m5)
    sp = {"peak_time": peak, "file_indx": 1, "ebv": ebv}
    need = ctx.choice("need", [0, 1])
    m = tde(td.TdePopMetric, pts_needed=need)
    got = m.run(d, slice_point=sp)
    seen = [(q, f) for q, f, lim in zip(ph, b, m5) if bool(curve(q, f) + AX1[f] * ebv < lim)]
    pre = sum(bool(q < 0) for q, f in seen)
    ctx.close(m.reduce_prepeak(got), int(pre > need), "more than the given number of detections before the peak")
    early = any(bool(q < -10) for q, f in seen)
    near = set(f for q, f in seen if bool(q < 5) and bool(q > -5))
    late = set(f for q, f in seen if bool(q > 10) and bool(q < 30))
    col = int(early and len(near) >= 3 and len(late) >= 2)
    pu = int(early and len(near) >= 2 and "u" in near and len(late) >= 2 and "u" in late)
    ctx.close(m.reduce_some_color(got), col, "a detection well before, three bands at and two bands after the peak")
    ctx.close(m.reduce_some_color_pu(got), pu, "a detection well before, and two bands with u at and after the peak")
    m = tde(td.TdePopMetricQuality, tmin=-13, tmax=27)
    got = m.run(d, slice_point=sp)
    k = sum(bool(q > -13) and bool(q < 27) for q, f in seen)
    ctx.close(m.reduce_some_color_pnum(got), k / 40.0 if col else 0, "detections per day where the colour requirement is met")
    ctx.close(m.reduce_some_color_pu_pnum(got), k / 40.0 if pu else 0, "detections per day where the u requirement is met")


def kne(mod, cls, **kw):
    lc = kn.KnLc.__new__(kn.KnLc)
    lc.data = [{f: {"ph": np.array(PH), "mag": np.array([99.0] * 3)} for f in MG}, {f: {"ph": np.array([0.0, 5.0, 40.0]), "mag": np.array([q - 36 for q in MG[f]])} for f in MG}]
    old = mod.KnLc
    mod.KnLc = lambda file_list=None: lc
    try:
        return cls(mjd0=100.0, **kw)
    finally:
        mod.KnLc = old


def unc(mag, m5):
    return 2.5 * log10(1.0 + 1.0 / (5.0 * ten(-0.4 * (mag - m5))))


@harness(P, [D + "kne_metrics.py:" + f for f in ("KnLc.interp", "KNePopMetric.run", "KNePopMetric._multi_detect", "KNePopMetric._multi_color_detect", "KNePopMetric._red_color_detect", "KNePopMetric._blue_color_detect")] + [D + "presto_color_kne_pop_metric.py:PrestoColorKNePopMetric." + f for f in ("run", "_presto_color_detect")],
         "2 to 6 visits in several bands, one of them at any time (the others within the light curve), any depth, any dust, two distances", quick=[{"n": n} for n in (2, 3, 4, 6)], budget=150)
def kilonovae(ctx, n):
    plan = ctx.choice("plan", [[(1.0, "g"), (2.0, "g"), (3.0, "r"), (6.0, "i"), (9.0, "r"), (12.0, "u")], [(20.0, "i"), (2.5, "z"), (7.0, "y"), (8.0, "z"), (28.0, "y"), (29.0, "r")]])[:n]
    free = ctx.choice("free", [0, n - 1])
    x, m5f = ctx.real("x", -10, 50), ctx.real("m", 18, 27)
    ebv, dist = ctx.choice("sky", [(0.0, 10.0), (0.5, 100.0)])
    ph = [x if i == free else q for i, (q, f) in enumerate(plan)]
    b = [f for _, f in plan]
    m5 = [m5f if i == free else 26.0 for i in range(n)]
    need = ctx.choice("need", [1, 3])
    m = kne(kn, kn.KNePopMetric, pts_needed=need)
    m._ztfrest_simple = lambda *a, **k: 0
    sp = {"peak_time": 3.0, "file_indx": 1, "ebv": ebv, "distance": dist}
    d = visits(ctx, b, [103.0 + q for q in ph], m5)
    mod = 5 * math.log10(dist * 1e6) - 5
    mags = [curve(q, f, [0.0, 5.0, 40.0]) for q, f in zip(ph, b)]
    mags = [v + (AX1[f] * ebv + mod - (36 if v is not 99.0 and not (not is_sym(v) and v == 99.0) else 0)) for v, f in zip(mags, b)]
    ctx.assume(oabs(mags[free] - m5f) > 1e-6)
    seen = [f for q, f, v, lim in zip(ph, b, mags, m5) if bool(q > 0) and bool(q < 30) and bool(v < lim)]
    got = m.run(d, slice_point=sp)
    ctx.close(m.reduce_multi_detect(got), int(len(seen) >= need), "detected often enough")
    ctx.close(m.reduce_multi_color_detect(got), int(len(set(seen)) >= 2), "detected in two bands")
    ctx.close(m.reduce_red_color_detect(got), int(sum(f in "izy" for f in seen) >= 4), "four detections in red bands")
    ctx.close(m.reduce_blue_color_detect(got), int(sum(f in "ugr" for f in seen) >= 4), "four detections in blue bands")
    p = kne(pc, pc.PrestoColorKNePopMetric)
    p._get_score = lambda *a, **k: (0, 0)
    old = pc._load_hash, pc.pd.DataFrame
    pc._load_hash = lambda skyregion=None: (None, None)
    pc.pd.DataFrame = lambda x: x
    try:
        got = p.run(d, slice_point=sp)
    finally:
        pc._load_hash, pc.pd.DataFrame = old
    cnt = [seen.count(f) for f in set(seen)]
    ctx.close(p.reduce_presto_color_detect(got), int(len(seen) >= 3 and len(cnt) >= 2 and max(cnt) >= 2), "three detections in two bands, two of them in one band")


@harness(P, [D + "kne_metrics.py:KNePopMetric._ztfrest_simple"], "2 or 3 detections at any times with any magnitudes and errors, any mix of two bands, all bands or the red or blue ones only", quick=[{"n": 2}, {"n": 3}], budget=150)
def fading(ctx, n):
    b = ctx.choice("b", [["g"] * n, ["g", "i", "i"][:n], ["i", "g", "i"][:n]]) if n == 2 else ctx.choice("b", [["g", "i", "i"], ["g", "g", "g"]])
    t, mg = ctx.reals("t", n, 0, 5), ctx.reals("v", n, 19, 24)
    for i in range(n):
        for j in range(i):
            ctx.assume(sand(t[i] != t[j], mg[i] != mg[j]))
    e = ctx.choice("e", [0.05, 0.5])
    which = ctx.choice("which", ["all", "red", "blue"])
    m = kne(kn, kn.KNePopMetric)
    # one more visit that is not a detection
    idx = np.arange(n) + 1
    got = m._ztfrest_simple(idx, ctx.arr([10.0] + mg), np.array([9.0] + [e] * n), ctx.arr([-50.0] + t), np.array(b), select_red=which == "red", select_blue=which == "blue")
    span = omax(t) - omin(t)
    rates = []
    for f in ("g", "i"):
        if (which == "red" and f == "g") or (which == "blue" and f == "i"):
            continue
        k = [i for i in range(n) if b[i] == f]
        if not k:
            continue
        s = sorted(k, key=lambda i: 0)
        lo = hi = s[0]
        for i in s:
            if bool(mg[i] < mg[lo]):
                lo = i
            if bool(mg[i] > mg[hi]):
                hi = i
        dt = t[hi] - t[lo]
        if lo != hi and bool(mg[lo] + e < mg[hi] - e) and bool(oabs(dt) > 0.125):
            rates.append((mg[hi] - mg[lo]) / dt)
        else:
            rates.append(0.0)
    want = 0
    if not bool(span < 0.125) and rates:
        want = int(any(bool(r >= 0.3) for r in rates) or any(bool(r <= -1.0) for r in rates))
    ctx.close(got, want, "fades or rises fast enough in some band")


@harness(P, [D + "xrb_metrics.py:" + f for f in ("XrbLc.fred", "XrbLc.lightcurve", "XRBPopMetric.run", "XRBPopMetric._ever_detect", "XRBPopMetric._early_detect", "XRBPopMetric._number_of_detections", "XRBPopMetric._mean_time_between_detections", "XRBPopMetric._possible_to_detect", "XRBPopMetric.reduce_mean_time_between_detections")],
         "1 to 3 visits at any times in two bands, any order and depths, two sets of outburst parameters", quick=[{"n": 1}, {"n": 2}], thorough=[{"n": 3}], budget=150)
def outbursts(ctx, n):
    tau, dec, dur, ebv = ctx.choice("par", [(1.0, 20.0, 30.0, 0.0), (4.0, 9.0, 15.0, 0.5)]) if n < 3 else (1.0, 20.0, 30.0, 0.5)
    par = {"outburst_duration": dur, "amplitude": 100.0, "tau_rise": tau, "tau_decay": dec, "abs_mag": {"g": 6.0, "r": 4.0}}
    dist = 10.0
    b = list("gr")[:n] + ["g"] * (n - 2)
    t, m5 = ctx.reals("t", n, -5, 40), ctx.reals("m", n, 12, 26)
    for q in t:
        ctx.assume(q != 0)
    vis = ctx.choice("vis", [(1.0, 25.0), (math.nan, math.nan)]) if n == 1 else (1.0, 25.0)
    need, pe, te = ctx.choice("need", [(1, 1, 7), (2, 2, 10)]) if n > 1 else (1, 1, 7)
    m = xr.XRBPopMetric(mjd0=100.0, pts_needed=need, pts_early=pe, t_early=te)
    sp = {"start_time": 3.0, "outburst_params": par, "ebv": ebv, "distance": dist, "visible_duration": vis[1] - vis[0], "visible_start_time": vis[0], "visible_end_time": vis[1]}
    got = m.run(visits(ctx, b, [103.0 + q for q in t], m5), slice_point=sp)
    seen = []
    for q, f, lim in zip(t, b, m5):
        if bool(q >= 0) and bool(q <= dur):
            fl = 100.0 * math.exp(2 * math.sqrt(tau / dec)) * ouf("exp", -tau / q - q / dec)
            mag = par["abs_mag"][f] - 2.5 * log10(fl) + AX1[f] * ebv + 5 * math.log10(dist * 1e3) - 5
            if bool(mag < lim):
                seen.append(q)
    ctx.check(bool(m.reduce_possible_to_detect(got)) == (not math.isnan(vis[0])), "possible to detect at all")
    ctx.check(bool(m.reduce_ever_detect(got)) == (len(seen) >= need), "detected often enough")
    ctx.check(bool(m.reduce_early_detect(got)) == (sum(bool(q <= te) for q in seen) >= pe), "detected often enough early on")
    ctx.close(m.reduce_number_of_detections(got), len(seen), "number of detections")
    ctx.close(m.reduce_mean_time_between_detections(got), (vis[1] - vis[0]) / (len(seen) + 1) if len(seen) > 1 else m.badval, "mean time between detections")


@harness(P, [D + "microlensing_metric.py:" + f for f in ("microlensing_amplification", "microlensing_amplification_fsfb", "info_peak_before_t0")], "any time, impact parameter, crossing time, blending", quick=[{}], budget=60)
def lens(ctx):
    t, u0, te, t0, bl = ctx.real("t", 0, 100), ctx.real("u0", 0.1, 2), ctx.choice("te", [1.0, 30.0]), ctx.real("t0", 0, 100), ctx.real("bl", 0, 1)
    u2 = u0 * u0 + (t - t0) * (t - t0) / (te * te)
    u = osqrt(u2)
    a = (u2 + 2) / (u * osqrt(u2 + 4))
    ctx.close(ml.microlensing_amplification(t, impact_parameter=u0, crossing_time=te, peak_time=t0, blending_factor=bl), a * bl + (1 - bl), "amplification of a point lens, with blended light", tol=1e-4)
    fs, fb = ctx.choice("f", [(1.0, 0.0), (0.5, 2.0)])
    ctx.close(ml.microlensing_amplification_fsfb(t, impact_parameter=u0, crossing_time=te, peak_time=t0, fs=fs, fb=fb), -2.5 * log10(a * fs + fb), "magnitude of the amplified source with blend", tol=1e-4)


@harness(P, [D + "microlensing_metric.py:MicrolensingMetric.run"], "2 or 3 visits at any times in any order in one or two bands, any amplification at each visit, two signal-to-noise ratios; triggered before the peak, at a given time before it, or on both sides; number of points", quick=[{"n": 2, "calc": c} for c in ("detect", "Npts")] + [{"n": 3, "calc": "Npts"}], thorough=[{"n": 3, "calc": "detect"}], budget=200)
def lensing(ctx, n, calc):
    b = ctx.choice("b", [["g"] * n, ["g", "r", "g"][:n]])
    t = ctx.reals("t", n, 0, 40)
    y = ctx.reals("y", n, 0, 1)
    snr = [ctx.choice("s%d" % i, [2.5, 50.0]) for i in range(n)]
    m5 = [24.0 + i for i in range(n)]
    t0, te, u0 = 20.0, 8.0, 0.25
    before, both = ctx.choice("how", [(0, False), (5, False), (0, True), ("optimal", False)]) if calc == "detect" else (0, False)
    m = ml.MicrolensingMetric(metric_calc=calc, pts_needed=1, time_before_peak=before, detect=both, mag_dict={"g": 24.0, "r": 23.0})
    sp = {"peak_time": t0, "crossing_time": te, "impact_parameter": u0}
    if ctx.bool("blended"):
        sp["blending_factor"] = 0.5
    err = [2.5 * math.log10(1 + 1.0 / r) for r in snr]
    opt = te * math.sqrt(-u0 ** 2 + math.sqrt(9 * u0 ** 4 + 36 * u0 ** 2 + 4) - 2) / 2
    back = opt if before == "optimal" else before
    for i in range(n):
        for j in range(i):
            ctx.assume(sand(oabs(oabs(2.5 * (y[i] - y[j])) - 3 * math.hypot(err[i], err[j])) > 1e-6, oabs(oabs(t[i] - t[j]) - (t0 - back)) > 1e-6))
    seen = {}

    def amp(tt, impact_parameter=1, crossing_time=1825.0, peak_time=100, blending_factor=1):
        seen["lens"] = tt, impact_parameter, crossing_time, peak_time, blending_factor
        return ctx.arr([ten(q) for q in y])

    def ratio(mags, lim):
        seen["snr"] = list(mags), list(lim)
        return np.array(snr)
    old = ml.microlensing_amplification, ml.m52snr
    ml.microlensing_amplification, ml.m52snr = amp, ratio
    try:
        got = m.run(visits(ctx, b, [1000.0 + q for q in t], m5, night=[1000] * n), slice_point=sp)
    finally:
        ml.microlensing_amplification, ml.m52snr = old
    first = omin(t)
    s = [q - first for q in t]
    ctx.closes(list(seen["lens"][0]), s, "times since the first visit", tol=1e-6)
    ctx.check(seen["lens"][1:] == (u0, te, t0, sp.get("blending_factor", 1)), "parameters of the lens")
    mag = [{"g": 24.0, "r": 23.0}[f] - 2.5 * q for f, q in zip(b, y)]
    ctx.closes(seen["snr"][0], mag, "amplified magnitude of the band", tol=1e-6)
    ctx.closes(seen["snr"][1], m5, "depth of the visit")
    if calc == "Npts":
        k = 0
        for q, r in zip(s, snr):
            if not bool(q == t0) and bool(q > t0 - te) and bool(q < t0 + te) and r > 3.0:
                k += 1
        ctx.close(got, k, "significant points within a crossing time of the peak")
        return

    def pairs(use):
        k = 0
        for i in use:
            for j in use:
                if j < i and b[i] == b[j] and bool(oabs(mag[i] - mag[j]) / math.hypot(err[i], err[j]) > 3.0):
                    k += 1
        return k
    ok = pairs([i for i in range(n) if bool(s[i] < t0 - back)]) >= 1
    if both:
        ok = ok and pairs([i for i in range(n) if bool(s[i] > t0)]) >= 1
    ctx.close(got, int(ok), "significant change of brightness before the peak (and after it)")


@harness(P, [D + "periodic_star_metric.py:PeriodicStar.__call__", D + "periodic_metric.py:PeriodicMetric.run"], "1 to 3 visits at any times in several bands, any amplitude and mean magnitudes, period and phase; the window function at 30000 frequencies for given visits", quick=[{"n": 1}, {"n": 2}, {"n": 3}], budget=60)
def star(ctx, n):
    b = [ctx.choice("b%d" % i, ["u", "r", "y"]) for i in range(n)]
    t = ctx.reals("t", n, 0, 100)
    per, ph, amp = ctx.choice("per", [1.5, 10.0]), ctx.real("ph", 0, 5), ctx.real("amp", 0, 2)
    mean = ctx.reals("mean", 6, 15, 25)
    got = ps.PeriodicStar(np.array(b))(ctx.arr(t), per, ph, amp, *mean)
    for i in range(n):
        ctx.close(got[i], mean["ugrizy".index(b[i])] + amp * ouf("sin", (t[i] + ph) / per * 2.0 * math.pi), "sine around the mean of the band", tol=1e-6)


@harness(P, [D + "periodic_star_metric.py:PeriodicStarMetric.run", D + "periodic_star_modulation_metric.py:PeriodicStarModulationMetric.run"], "12 visits in three bands over 50 days (or two intervals of them), any fitted parameters for each of 1 or 2 noise realisations", quick=[{"k": 1, "mod": False}, {"k": 2, "mod": False}, {"k": 1, "mod": True}], budget=150)
def recovery(ctx, k, mod):
    n = 24 if mod else 12
    b = list("gri") * 4 + (list("g") * 12 if mod else [])
    t = [float(4 * i if i < 12 else 50.5 + 4 * (i - 12)) for i in range(n)] if mod else [4.0 * i for i in range(n)]
    if mod:
        t.append(101.0)
        b.append("r")
    nint = 2 if mod else 1
    fits = []
    for j in range(nint * k):
        f = [ctx.real("p%d" % j, 9, 11), 2.0, ctx.real("a%d" % j, 0.4, 0.6)] + [20.0] * 6
        f[4] = ctx.real("g%d" % j, 19.8, 20.2)
        f[5] = ctx.real("r%d" % j, 19.8, 20.2) if not mod else 20.0
        fits.append(f)
    it = iter(fits)
    m0 = psm if mod else ps
    old = m0.curve_fit
    uni = None
    if mod:
        uni = psm.random.uniform
        psm.random.uniform = lambda a, c: 1.0
    m0.curve_fit = lambda *a, **kw: (ctx.arr(next(it)), None)
    nb = ctx.choice("nb", [1, 2, 3])
    try:
        cls = psm.PeriodicStarModulationMetric if mod else ps.PeriodicStarMetric
        m = cls(n_monte=k, n_bands=nb, **({"time_interval": 50} if mod else {}))
        got = m.run(visits(ctx, b, t, [24.0] * len(t)), slice_point={})
    finally:
        m0.curve_fit = old
        if uni is not None:
            psm.random.uniform = uni
    tot = 0
    for j, f in enumerate(fits):
        here = "gri" if not mod or j < k else "g"
        bands = sum(bool(oabs(f[3 + "ugrizy".index(x)] - 20.0) <= 0.1) for x in here)
        tot += bool(oabs(f[0] - 10.0) <= 0.5) and bool(oabs(f[2] - 0.5) <= 0.05) and bands >= nb
    ctx.close(got * nint * k, tot, "fraction of realisations with period, amplitude and enough bands recovered", tol=1e-6)
    few = m.run(visits(ctx, b[:8], t[:8], [24.0] * 8), slice_point={})
    ctx.close(few, m.badval, "undefined with too few visits")
