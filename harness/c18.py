"""Moving objects: counts, discovery, characterisation, population summaries, derived columns, runs over objects."""

import numpy as np
import numpy.ma as ma

import rubin_sim.maf.metrics.mo_metrics as mm
import rubin_sim.maf.metrics.mo_summary_metrics as ms
import rubin_sim.maf.stackers.mo_stackers as mst
from harness.lib import *  # noqa: F401,F403

P = "C18"
M = "rubin_sim/maf/metrics/mo_metrics.py:"
Q = "rubin_sim/maf/metrics/mo_summary_metrics.py:"
K = "rubin_sim/maf/stackers/mo_stackers.py:"
B = "rubin_sim/maf/metric_bundles/mo_metric_bundle.py:"
assumptions(P, "random draws are inputs; the Halley-Marcus phase curve is an abstract function; powers of ten, exponentials and trigonometric functions are abstract; "
               "orbit and observation files are not read (objects and observations are given in memory)")


def obs(ctx, n, **cols):
    """Observations with an SNR limit or a visibility flag; returns the visible ones too."""
    use = ctx.bool("use_snr")
    kinds = {"band": "U"} if "band" in cols else {}
    c = dict(cols)
    if use:
        lim = ctx.real("lim", 1, 9)
        snr = ctx.reals("snr", n, 0, 10)
        vis = [0] * n
        see = [bool(s >= lim) for s in snr]
    else:
        lim, snr = None, [7.0] * n
        vis = [ctx.choice("vis%d" % i, [0, 1]) for i in range(n)]
        see = [v > 0 for v in vis]
    c.update({"SNR": snr, "vis": vis})
    return c, kinds, lim, [i for i in range(n) if see[i]]


@harness(P, [M + "NObsMetric.run", M + "NObsNoSinglesMetric.run", M + "NNightsMetric.run", M + "ObsArcMetric.run", M + "_set_vis"], "1 to 4 observations at any time on up to three nights, any SNR and limit or visibility flags",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": 4}], budget=120)
def counts(ctx, n):
    t, nt = ctx.reals("t", n, 0, 100), ctx.ints("nt", n, 0, 2)
    c, kinds, lim, see = obs(ctx, n, observationStartMJD=t, night=nt)
    d = ctx.rec(c, {"night": "i"})
    ctx.eq(mm.NObsMetric(snr_limit=lim).run(d, None, 0), len(see), "number of visible observations")
    nights = [nt[i] for i in see]
    uniq = []
    for x in nights:
        if not any(bool(x == y) for y in uniq):
            uniq.append(x)
    ctx.eq(mm.NNightsMetric(snr_limit=lim).run(d, None, 0), len(uniq), "number of nights it was seen")
    ctx.eq(mm.NObsNoSinglesMetric(snr_limit=lim).run(d, None, 0), sum(1 for i, x in enumerate(nights) if any(bool(x == y) for j, y in enumerate(nights) if j != i)), "observations on nights with more than one")
    ctx.close(mm.ObsArcMetric(snr_limit=lim).run(d, None, 0), (omax([t[i] for i in see]) - omin([t[i] for i in see])) if see else 0, "time from the first to the last visible observation")


@harness(P, [M + "DiscoveryMetric.run", M + "DiscoveryNChancesMetric.run", M + "DiscoveryTimeMetric.run", M + "DiscoveryDistanceMetric.run", M + "DiscoveryRadecMetric.run", M + "DiscoveryEclonlatMetric.run", M + "DiscoveryVelocityMetric.run"],
         "2 to 5 observations in any order in time on given nights, any times within the night with gaps of at least the shortest tracklet (and shorter ones on a night of 2 or 3), two observations on one or two nights within a window",
         quick=[{"nights": ns, "need": k} for ns, k in (([0, 0], 1), ([2, 0, 2], 1), ([0, 0, 0], 1), ([0, 3, 0, 3], 2), ([5, 5, 1, 1], 2))] + [{"nights": [0, 0], "need": 1, "close": True}, {"nights": [0, 0, 0], "need": 1, "close": True}],
         thorough=[{"nights": ns, "need": k} for ns, k in (([0, 0, 0, 0], 1), ([0, 3, 0, 3, 9], 2), ([3, 0, 0, 3, 3], 2), ([0, 0, 7, 7, 2], 2))] + [{"nights": [0, 3, 0, 3, 0], "need": 2, "close": True}], budget=150)
def discovery(ctx, nights, need, close=False):
    n = len(nights)
    frac = ctx.reals("f", n, 0, 0.5)
    t = [q + f for q, f in zip(nights, frac)]
    tmin, tmax = 0.01, ctx.real("tmax", 0.02, 0.4)
    win = ctx.choice("win", [2, 4, 15])
    vis = [ctx.choice("v%d" % i, [1, 0][:2 if i >= n - 1 else 1]) for i in range(n)]
    for i in range(n):
        for j in range(i):
            if nights[i] == nights[j]:
                gap = abs(frac[i] - frac[j])
                ctx.assume(sor(gap >= tmin + 1e-6, sand(gap > 1e-6, gap < tmin - 1e-6)) if close else gap >= tmin + 1e-6)
                ctx.assume(sor(abs(frac[i] - frac[j]) > tmax + 1e-6, abs(frac[i] - frac[j]) < tmax - 1e-6))
    cols = {"observationStartMJD": t, "night": nights, "vis": vis, "SNR": [7.0] * n}
    for k, c in enumerate(("geo_dist", "ra", "dec", "ec_lon", "ec_lat", "solar_elong", "velocity")):
        cols[c] = [10.0 * k + i for i in range(n)]
    m = mm.DiscoveryMetric(n_obs_per_night=2, t_min=tmin, t_max=tmax, n_nights_per_window=need, t_window=win, metric_name="d")
    got = m.run(ctx.rec(cols, {"night": "i"}), None, 0)
    see = [i for i in range(n) if vis[i]]
    by = {}
    for i in see:
        by.setdefault(nights[i], []).append(i)
    first, good = {}, []
    for q in sorted(by):
        order = []
        for i in by[q]:
            k = 0
            while k < len(order) and bool(t[order[k]] <= t[i]):
                k += 1
            order.insert(k, i)
        first[q] = order[0]
        fits = lambda a, b: bool(t[b] - t[a] <= tmax) and (not close or bool(t[b] - t[a] >= tmin))
        if any(fits(a, b) for a, b in zip(order, order[1:])):
            good.append(q)
        elif close and any(fits(order[a], order[b]) for a in range(len(order)) for b in range(a + 2, len(order))):
            ctx.skip()  # whether observations that are not next to each other make a tracklet is not settled
    if len(good) < need:
        ctx.check(got is None, "no discovery without enough nights with a tracklet")
        return
    starts = [q for k, q in enumerate(good) if k + need <= len(good) and good[k + need - 1] - q <= win]
    ctx.check(isinstance(got, dict), "discovery opportunities")
    d = ctx.rec(cols, {"night": "i"})
    ctx.eq(mm.DiscoveryNChancesMetric(m).run(d, None, 0, got), len(starts), "number of windows with enough tracklet nights")
    kids = [(mm.DiscoveryTimeMetric(m), lambda i: t[i]), (mm.DiscoveryDistanceMetric(m), lambda i: cols["geo_dist"][i]), (mm.DiscoveryVelocityMetric(m), lambda i: cols["velocity"][i]),
            (mm.DiscoveryTimeMetric(m, t_start=1.5), lambda i: t[i] - 1.5)]
    for kid, f in kids:
        v = kid.run(d, None, 0, got)
        ctx.close(v, f(first[starts[0]]) if starts else kid.badval, "first observation of the first discovery track (%s)" % kid.name)
    rd = mm.DiscoveryRadecMetric(m).run(d, None, 0, got)
    ec = mm.DiscoveryEclonlatMetric(m).run(d, None, 0, got)
    if not starts:
        ctx.check(rd is None and ec is None, "no position without a discovery")
        return
    i = first[starts[0]]
    ctx.closes(rd, [cols["ra"][i], cols["dec"][i]], "position at discovery")
    ctx.closes(ec, [cols["ec_lon"][i], cols["ec_lat"][i], cols["solar_elong"][i]], "ecliptic position at discovery")


@harness(P, [M + "ActivityOverTimeMetric.run"], "1 to 3 observations on any night of the survey, any SNR and limit or visibility flags",
         quick=[{"n": n} for n in (1, 2)], thorough=[{"n": 3}], budget=120)
def activity_time(ctx, n):
    nt = ctx.ints("nt", n, 0, 35)
    c, kinds, lim, see = obs(ctx, n, night=nt)
    m = mm.ActivityOverTimeMetric(10.0, snr_limit=lim, survey_years=40.0 / 365)
    g = m.run(ctx.rec(c, {"night": "i"}), None, 0)
    ctx.close(g, len({next(k for k in range(4) if bool(nt[i] < 10 * (k + 1))) for i in see}) / 4.0, "fraction of the survey's windows with a visible observation")


@harness(P, [M + "ActivityOverPeriodMetric.run"], "1 or 2 observations at any point of the orbit (bin edges left out), within a revolution of the epoch, visible or not, orbits given by mean anomaly and either a or q and e",
         quick=[{"n": n} for n in (1, 2)], budget=120)
def activity_period(ctx, n):
    ph = ctx.reals("ph", n, 0, 359)
    for q in ph:
        for e in (120, 240):
            ctx.assume(abs(q - e) > 1e-3)
        ctx.assume(q > 1e-3)
    turn = [ctx.choice("turn%d" % i, [0, 1, -1]) if i == 0 else 0 for i in range(n)]
    vis = [ctx.choice("v%d" % i, [1, 0]) if i == n - 1 else 1 for i in range(n)]
    ma0 = 37.0
    how = ctx.choice("orbit", ["a", "q"])
    orb = {"meanAnomaly": ma0, "epoch": 60000.0}
    orb.update({"a": 4.0} if how == "a" else {"q": 2.0, "e": 0.5})
    t = [60000.0 + (q + 360 * k - ma0) / 360.0 * 8 * 365.25 for q, k in zip(ph, turn)]
    g = mm.ActivityOverPeriodMetric(120.0, snr_limit=None).run(ctx.rec({"vis": vis, "SNR": [7.0] * n, "observationStartMJD": t}), orb, 0)
    ctx.close(g, len({next(k for k in range(3) if bool(ph[i] < 120 * (k + 1))) for i in range(n) if vis[i]}) / 3.0, "fraction of the orbit with a visible observation")


@harness(P, [M + "MagicDiscoveryMetric.run"], "1 to 4 observations on any nights in any order, any window, any SNR and limit or visibility flags", quick=[{"n": n, "need": k} for n, k in ((1, 1), (2, 2), (3, 2))], thorough=[{"n": 4, "need": 2}, {"n": 4, "need": 3}], budget=120)
def magic(ctx, n, need):
    nt = ctx.ints("nt", n, 0, 20)
    w = ctx.cint("w", 1, 6)
    c, kinds, lim, see = obs(ctx, n, night=nt)
    g = mm.MagicDiscoveryMetric(n_obs=need, t_window=w, snr_limit=lim).run(ctx.rec(c, {"night": "i"}), None, 0)
    uniq = []
    for i in see:
        if not any(bool(nt[i] == q) for q in uniq):
            uniq.append(nt[i])
    want = sum(1 for q in uniq if sum(1 for i in see if bool(nt[i] >= q) and bool(nt[i] < q + w)) >= need)
    ctx.eq(g, want, "nights that start a window with enough visible observations")


@harness(P, [M + "HighVelocityMetric.run", M + "HighVelocityNightsMetric.run"], "1 to 3 observations with any velocity, seeing, exposure, time and night (velocities within 1e-6 of the limit left out)", quick=[{"n": n} for n in (1, 2, 3)], budget=120)
def velocity(ctx, n):
    v, s, e = ctx.reals("v", n, 0, 10), ctx.reals("s", n, 0.5, 2), [30.0, 15.0, 30.0][:n]
    nt, t = ctx.ints("nt", n, 0, 1), ctx.reals("t", n, 1, 100)
    f = ctx.choice("f", [1.0, 2.0])
    c, kinds, lim, see = obs(ctx, n, velocity=v, seeingFwhmGeom=s, visitExposureTime=e, night=nt, observationStartMJD=t)
    for i in range(n):
        ctx.assume(abs(v[i] - 24.0 * f * s[i] / e[i]) > 1e-6)
    fast = [i for i in see if bool(v[i] >= 24.0 * f * s[i] / e[i])]
    d = ctx.rec(c, {"night": "i"})
    ctx.eq(mm.HighVelocityMetric(psf_factor=f, snr_limit=lim).run(d, None, 0), len(fast), "visible observations that appear trailed")
    k = ctx.choice("k", [1, 2])
    g = mm.HighVelocityNightsMetric(psf_factor=f, n_obs_per_night=k, snr_limit=lim, badval=-1).run(d, None, 0)
    for q in (0, 1):
        here = [i for i in fast if bool(nt[i] == q)]
        if len(here) >= k:
            ctx.close(g, omin([t[i] for i in here]), "time of the first trailed detection of the first night with enough of them")
            return
    ctx.check(sor(g == -1, g == 0), "nothing when no night has enough")


@harness(P, [M + "ColorAsteroidMetric.run"], "observations in any of six bands: one of any SNR in each band (4 of the bands free, up to 6), any limit on SNR, any weight", quick=[{"bands": "ugrizy"}, {"bands": "grzy"}, {"bands": "rizy"}], budget=150)
def colors(ctx, bands):
    n = len(bands)
    snr = ctx.reals("snr", n, 1, 30)
    w = ctx.real("w", 0.1, 0.9)
    for s in snr:
        ctx.assume(abs(s / 20.0 - w) > 1e-6)
    d = ctx.rec({"SNR": snr, "vis": [1] * n, "band": list(bands)}, {"band": "U"})
    g = mm.ColorAsteroidMetric(weight_det=w, snr_max=20).run(d, None, 0)
    ok = {b for b, s in zip(bands, snr) if bool(symmin(s, 20.0) / 20.0 > w)}
    five = ok & set("grizy")
    want = 4 if len(ok) == 6 else 3 if len(five) == 5 else 2 if len(five) == 4 else 1 if "g" in ok and ok & {"r", "i"} and ok & {"z", "y"} else 0
    ctx.eq(g, want, "bands with enough SNR-weighted observations")


@harness(P, [M + "ColorAsteroidMetric.run", M + "LightcurveColorOuterMetric.run"], "1 to 4 observations in up to three bands, any SNR and limit or visibility flags", quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": 4}], budget=150)
def outer(ctx, n):
    b = [ctx.choice("b%d" % i, ["g", "r", "y"][:3 if i else 2]) for i in range(n)]
    c, kinds, lim, see = obs(ctx, n, band=b)
    d = ctx.rec(c, kinds)
    num = {q: sum(1 for i in see if b[i] == q) for q in "gry"}
    for req, sec in ((2, 1), (1, 1), (3, 2)):
        g = mm.LightcurveColorOuterMetric(snr_limit=lim, num_req=req, num_sec_filt=sec).run(d, None, 0)
        lc = [q for q in num if num[q] >= req]
        extra = [q for q in num if sec <= num[q] < req]
        ctx.eq(g, 0 if not lc else len(lc) + (1 if extra else 0), "bands with a lightcurve, and one more for colours")
    if lim is not None:
        for s in c["SNR"]:
            ctx.assume(abs(s - lim) > 1e-6)
    g = mm.ColorAsteroidMetric(weight_det=0.75, snr_max=1.0, snr_limit=lim).run(d, None, 0)
    tot = {q: osum([symmin(c["SNR"][i], 1.0) for i in see if b[i] == q]) for q in "gry"}
    for q in tot:
        ctx.assume(abs(tot[q] - 0.75) > 1e-6)
    ctx.eq(g, 1 if all(bool(tot[q] > 0.75) for q in "gry") else 0, "colours from g, r and y")


@harness(P, [M + "InstantaneousColorMetric.run"], "2 to 4 observations in up to three bands at any time and in any order, any SNR and limit", quick=[{"n": n, "k": k} for n, k in ((2, 1), (3, 1), (4, 2))], thorough=[{"n": 4, "k": 1}], budget=150)
def instant(ctx, n, k):
    b = [ctx.choice("b%d" % i, ["g", "r", "y"][:3 if n < 4 else 2]) for i in range(n)]
    t = ctx.reals("t", n, 0, 10)
    snr = ctx.reals("s", n, 0, 20)
    lim = ctx.real("lim", 5, 15)
    dt = 0.5 / 24.0
    for i in range(n):
        for j in range(i):
            ctx.assume(sor(abs(t[i] - t[j]) > dt + 1e-6, abs(t[i] - t[j]) < dt - 1e-6))
    g = mm.InstantaneousColorMetric(n_pairs=k, snr_limit=lim, n_hours=0.5).run(ctx.rec({"SNR": snr, "band": b, "observationStartMJD": t}, {"band": "U"}), None, 0)
    see = [i for i in range(n) if bool(snr[i] >= lim)]
    pairs = sum(1 for i in see if b[i] == "r" and any(b[j] == "g" and bool(abs(t[i] - t[j]) < dt) for j in see))
    if len(see) < 2 * k:
        ctx.eq(g, 0, "not enough observations")
    else:
        ctx.eq(g, 1 if pairs >= k else 0, "whether enough observations in one band are close in time to one in the other")


@harness(P, [M + "LightcurveInversionAsteroidMetric.run"], "2 to 4 observations in up to two bands, any SNR, ecliptic longitude and phase angle (longitudes within one turn of 0 to 300, on-threshold values left out)",
         quick=[{"n": 2, "two": True}, {"n": 3, "two": False}], thorough=[{"n": 3, "two": True}], budget=200)
def inversion(ctx, n, two):
    b = [ctx.choice("b%d" % i, ["g", "r"][:2 if two else 1]) for i in range(n)]
    lon, ph = ctx.reals("lon", n, 0, 300), ctx.reals("ph", n, 0, 30)
    c, kinds, lim, see = obs(ctx, n, band=b, ecLon=lon, phase=ph)
    if lim is not None:
        for s in c["SNR"]:
            ctx.assume(abs(s - lim) > 1e-6)
    d = ctx.rec(c, kinds)
    w = 1.25
    g = mm.LightcurveInversionAsteroidMetric(weight_det=w, snr_limit=lim, snr_max=8.0).run(d, None, 0)
    want = 0
    for q in "gr":
        here = [i for i in see if b[i] == q]
        tot = osum([symmin(c["SNR"][i], 8.0) for i in here]) / 8.0
        ctx.assume(abs(tot - w) > 1e-6)
        if not here or bool(tot < w):
            continue
        l = [lon[i] for i in here]
        dl, dp = omax(l) - omin(l), omax([ph[i] for i in here]) - omin([ph[i] for i in here])
        med = omedian(l)
        cen = [ite(x >= med, x - med, x - med + 360.0) for x in l]
        mean = osum(cen) / len(cen)
        dev = osum([abs(x - mean) for x in cen]) / len(cen)
        for x in (dl - 90.0, dp - 5.0, dev - dl / 8):
            ctx.assume(abs(x) > 1e-6)
        if bool(dl >= 90.0) and bool(dp >= 5.0) and bool(dev >= dl / 8):
            want = 1
    ctx.eq(g, want, "enough SNR-weighted visible observations of one band with the longitude and phase coverage")


@harness(P, [M + "KnownObjectsMetric.run", M + "KnownObjectsMetric._pick_obs", M + "PeakVMagMetric.run"], "1 to 3 observations at any time, magnitude and elongation, with any random draws", quick=[{"n": n} for n in (1, 2)], thorough=[{"n": 3}], budget=150)
def known(ctx, n):
    t, v, el = ctx.reals("t", n, 0, 40), ctx.reals("v", n, 18, 24), ctx.reals("el", n, 0, 180)
    draw = ctx.reals("r", 4 * n, 0, 0.999)
    pos = [0]
    real = np.random.rand

    def rand(k):
        k = int(k)
        pos[0] += k
        return ctx.arr(draw[pos[0] - k:pos[0]])

    mag, eff = [20.0, 21.0, 21.5, 22.5], [0.1, 0.3, 0.5, 0.7]
    m = mm.KnownObjectsMetric(elong_thresh=100.0, v_mag_thresh1=mag[0], eff1=eff[0], t_switch1=10, v_mag_thresh2=mag[1], eff2=eff[1], t_switch2=20, v_mag_thresh3=mag[2], eff3=eff[2], t_switch3=30, v_mag_thresh4=mag[3], eff4=eff[3])
    np.random.rand = rand
    try:
        d = ctx.rec({"MJD(UTC)": t, "appMagV": v, "Elongation": el})
        got = m.run(d, None, 0)
    finally:
        np.random.rand = real
    ctx.close(mm.PeakVMagMetric().run(d, None, 0), omin(v), "brightest magnitude")
    at = 0
    for k in range(4):
        ok = [i for i in range(n) if bool(el[i] >= 100.0) and (k == 0 or bool(t[i] >= 10 * k)) and (k == 3 or bool(t[i] < 10 * k + 10)) and bool(v[i] <= mag[k])]
        pick = [i for j, i in enumerate(ok) if bool(draw[at + j] <= eff[k])]
        at += len(ok)
        if pick:
            ctx.close(got, omin([t[i] for i in pick]), "first successful observation of the first period with one")
            return
    ctx.eq(got, m.badval, "never known")


@harness(P, [Q + "power_law_dndh", Q + "neo_dndh_granvik", Q + "neo_dndh_grav", Q + "pha_dndh_granvik", Q + "pha_dndh_grav", Q + "integrate_over_h", Q + "sum_over_h"], "2 to 4 H values at any even spacing, any metric values and index", quick=[{"n": 2}, {"n": 3}], thorough=[{"n": 4}], budget=100)
def size_distribution(ctx, n):
    h0, step = ctx.real("h0", 10, 20), ctx.choice("step", [0.1, 0.5])
    h = ctx.arr([h0 + i * step for i in range(n)])
    v = ctx.reals("v", n, 0, 1)
    hi = ctx.choice("hi", [0.33, 0.5])
    kw = dict(hindex=hi, no=100.0, ho=18.0) if ctx.bool("anchor") else dict(hindex=hi)
    laws = {ms.power_law_dndh: lambda x: kw.get("no", 10) * 0.1 * ten(hi * (x - kw.get("ho", h0))),
            ms.neo_dndh_granvik: lambda x: 150 * ten(0.3 * (x - 18.5)) + 2500 * ten(0.92 * (x - 23.2)),
            ms.neo_dndh_grav: lambda x: 110 * ten(0.35 * (x - 18.5)),
            ms.pha_dndh_granvik: lambda x: 20 * ten(0.3 * (x - 18.5)) + 500 * ten(0.92 * (x - 23.2)),
            ms.pha_dndh_grav: lambda x: 23.5 * ten(0.35 * (x - 18.5))}
    which = ctx.choice("law", list(range(5)))
    f = list(laws)[which]
    dn = [laws[f](h0 + i * step) * step / 0.1 for i in range(n)]
    got = f(h, **kw)
    for i in range(n):
        ctx.close(got[i], dn[i], "number of objects in each bin", tol=1e-6)
    tot = ms.sum_over_h(ctx.arr(v), h, f, **kw)
    avg = ms.integrate_over_h(ctx.arr(v), h, f, **kw)
    for i in range(n):
        s = osum([a * b for a, b in zip(v[:i + 1], dn[:i + 1])])
        ctx.close(tot[i], s, "objects meeting the requirement, up to each H", tol=1e-6)
        ctx.close(avg[i] * osum(dn[:i + 1]), s, "fraction of objects meeting the requirement, up to each H", tol=1e-6)


@harness(P, [Q + "ValueAtHMetric.run", Q + "MeanValueAtHMetric.run", Q + "TotalNumberSSO.run"], "2 or 3 H values, 1 to 3 objects, any values, any H asked for", quick=[{"n": n, "k": k} for n, k in ((2, 1), (3, 1), (2, 2), (3, 3))], budget=100)
def at_h(ctx, n, k):
    hv = [20.0, 20.5, 22.0][:n]
    h = ctx.arr(hv)
    v = [ctx.reals("v%d_" % j, n, 0, 5) for j in range(k)]
    mark = ctx.real("mark", 19, 23)
    for q in hv:
        ctx.assume(abs(mark - q) > 1e-9)
    mv = ctx.arr([x for r in v for x in r]).reshape(k, n)

    def at(y):
        if bool(mark < hv[0]) or bool(mark > hv[-1]):
            return None
        for i in range(n - 1):
            if bool(mark <= hv[i + 1]):
                return y[i] + (y[i + 1] - y[i]) * (mark - hv[i]) / (hv[i + 1] - hv[i])

    def cmp(g, w, label):
        if w is None or g is None:
            ctx.check(w is None and g is None, label + " (outside the range)")
        else:
            ctx.close(g, w, label, tol=1e-6)

    m = ms.ValueAtHMetric(h_mark=22)
    m.h_mark = mark
    cmp(m.run(mv, h), at(v[0]) if k == 1 else None, "value at H")
    m = ms.MeanValueAtHMetric(h_mark=22)
    m.h_mark = mark
    cmp(m.run(mv, h), at([osum([v[j][i] for j in range(k)]) / k for i in range(n)]), "mean value at H")
    m = ms.TotalNumberSSO(h_mark=22, dndh_func=lambda x: ctx.arr([1.0, 2.0, 4.0][:n]))
    m.h_mark = mark
    if k == 1:
        tot = [osum([[1.0, 2.0, 4.0][i] * v[0][i] for i in range(q + 1)]) for q in range(n)]
        w = at(tot)
        if w is None:
            w = tot[0] if bool(mark < hv[0]) else tot[-1]
        cmp(m.run(mv[0], h), w, "number of objects up to H")


def masked(ctx, rows, mask):
    k, n = len(rows), len(rows[0])
    return ma.MaskedArray(data=ctx.arr([x for r in rows for x in r]).reshape(k, n), mask=np.array(mask, bool).reshape(k, n), fill_value=0)


@harness(P, [Q + "MoCompletenessMetric.run"], "1 to 3 objects at 2 or 3 cloned H values, any metric values and masks, any threshold and index", quick=[{"n": n, "k": k} for n, k in ((2, 1), (2, 2), (3, 2))], thorough=[{"n": 3, "k": 3}], budget=150)
def completeness(ctx, n, k):
    hv = [20.0, 20.5, 21.0][:n]
    v = [ctx.reals("v%d_" % j, n, 0, 5) for j in range(k)]
    mask = [[ctx.bool("m%d_%d" % (j, i)) if j == 0 else False for i in range(n)] for j in range(k)]
    thr = ctx.real("thr", 0.5, 4)
    hi = ctx.choice("hi", [0.33, 0.6])
    cum = ctx.bool("cum")
    m = ms.MoCompletenessMetric(threshold=thr, cumulative=cum, hindex=hi)
    g = m.run(masked(ctx, v, mask), ctx.arr(hv))
    frac = [sum(1 for j in range(k) if not mask[j][i] and bool(v[j][i] >= thr)) / float(k) for i in range(n)]
    if cum:
        dn = [10.0 ** (hi * (q - hv[0])) for q in hv]
        frac = [sum(a * b for a, b in zip(frac[:i + 1], dn)) / sum(dn[:i + 1]) for i in range(n)]
    ctx.check(len(g) == n, "a value for each H")
    for i in range(n):
        ctx.close(g["value"][i], frac[i], "fraction of the objects that reach the threshold")


@harness(P, [Q + "MoCompletenessMetric.run"], "2 or 3 objects of any H (not cloned), any metric values and masks", quick=[{"n": 2}, {"n": 3}], budget=150)
def completeness_own(ctx, n):
    hv = [ctx.choice("h%d" % i, [20.0, 20.3, 21.6, 24.0][:4 if i else 2]) for i in range(n)]
    v = ctx.reals("v", n, 0, 5)
    mask = [[ctx.bool("m%d" % i) if i == 0 else False] for i in range(n)]
    m = ms.MoCompletenessMetric(threshold=2.0, cumulative=False, nbins=4)
    g = m.run(masked(ctx, [[x] for x in v], mask), np.array(hv))
    ctx.check(len(g) == 4, "a value for each bin")
    lo, r = min(hv), max(hv) - min(hv)
    if r < 1.0:
        lo, r = (min(hv) + max(hv)) / 2 - 0.5, 1.0
    for b in range(4):
        a, e = lo + b * r / 4, lo + (b + 1) * r / 4
        if any(min(abs(q - a), abs(q - e)) < 1e-9 and not (q == min(hv) and b == 0) for q in hv):
            return
        here = [i for i in range(n) if a - 1e-9 <= hv[i] < e or (b == 3 and a < hv[i] <= e + 1e-9)]
        w = sum(1 for i in here if not mask[i][0] and bool(v[i] >= 2.0)) / len(here) if here else 0
        ctx.close(g["value"][b], w, "fraction of the objects of each H bin that reach the threshold")


@harness(P, [Q + "MoCompletenessAtTimeMetric.run"], "1 or 2 objects at 2 H values, any discovery times and masks, any H asked for", quick=[{"k": 1}, {"k": 2}], thorough=[{"k": 3}], budget=150)
def completeness_time(ctx, k):
    hv, times = [20.0, 21.0], [0.0, 10.0, 20.0]
    v = [ctx.reals("t%d_" % j, 2, 0, 30) for j in range(k)]
    for r in v:
        for x in r:
            for e in times:
                ctx.assume(abs(x - e) > 1e-6)
    mask = [[ctx.bool("m%d_%d" % (j, i)) if j == 0 else False for i in range(2)] for j in range(k)]
    cum, hi = ctx.bool("cum"), ctx.choice("hi", [0.33, 0.6])
    h = ctx.choice("h", [None, 20.2, 20.8])
    m = ms.MoCompletenessAtTimeMetric(times, hval=h, cumulative=cum, hindex=hi)
    g = m.run(masked(ctx, v, mask), np.array(hv))
    ix = {None: 1, 20.2: 0, 20.8: 1}[h]
    dn = [10.0 ** (hi * (q - hv[0])) for q in hv]
    for a, t in enumerate(times):
        f = [sum(1 for j in range(k) if not mask[j][i] and bool(v[j][i] < t)) / float(k) for i in range(2)]
        w = sum(x * y for x, y in zip(f[:ix + 1], dn)) / sum(dn[:ix + 1]) if cum else f[ix]
        ctx.close(g["value"][a], w, "fraction of the objects found by each time")


@harness(P, [K + "BaseMoStacker.run", K + "AppMagStacker._run", K + "SNRStacker._run", K + "MoMagStacker._run"], "1 to 3 observations with any magnitudes, colours, losses and depths, any H, any random draws", quick=[{"n": n} for n in (1, 2, 3)], budget=120)
def brightness(ctx, n):
    v, c, l, m5 = ctx.reals("v", n, 18, 28), ctx.reals("c", n, -1, 1), ctx.reals("l", n, 0, 1), ctx.reals("m5", n, 22, 26)
    href, h = ctx.real("href", 5, 25), ctx.real("h", 5, 25)
    own = ctx.bool("own")
    hh = href if own else h
    draw = ctx.reals("r", n, 0.001, 0.999)
    s = mst.MoMagStacker(gamma=0.037, sigma=0.25)
    s.snr_stacker._rng = type("R", (), {"random_sample": staticmethod(lambda k: ctx.arr(draw[:k]))})
    d = ctx.rec({"magV": v, "dmag_color": c, "dmag_detect": l, "fiveSigmaDepth": m5, "other": v})
    out = s.run(d, href, None if own else h)
    for i in range(n):
        mag = v[i] + c[i] + l[i] + hh - href
        ctx.close(out["appMag"][i], mag, "magnitude of the object at its H")
        x = ten(0.4 * (mag - m5[i]))
        snr = out["SNR"][i]
        ctx.close(snr * snr * ((0.04 - 0.037) * x + 0.037 * x * x), 1.0, "signal to noise of the magnitude against the depth", tol=1e-6)
        ctx.check(snr > 0, "positive")
        p = 1.0 / (1.0 + ouf("exp", (mag - m5[i]) / 0.25))
        ctx.assume(sor(draw[i] - p > 1e-6, p - draw[i] > 1e-6))
        ctx.check(out["vis"][i] == (1 if bool(draw[i] < p) else 0), "seen with the completeness at its magnitude")
        ctx.close(out["other"][i], v[i], "columns that were there are unchanged")


@harness(P, [K + "CometAppMagStacker._run", K + "CometAppMagStacker.__init__"], "1 or 2 observations in up to two bands with any distances, seeing and magnitudes (phase curve abstract), three kinds of comet or any of one's own", quick=[{"n": 1}, {"n": 2}], budget=150)
def comet(ctx, n):
    b = [ctx.choice("b%d" % i, ["g", "r"]) for i in range(n)]
    r, d, see, ph, v = ctx.reals("r", n, 1, 5), ctx.reals("d", n, 0.5, 5), ctx.reals("s", n, 0.5, 2), ctx.reals("ph", n, 1, 90), ctx.reals("v", n, 18, 26)
    href, h = 20.0, ctx.real("h", 10, 20)
    kind = ctx.choice("kind", ["short", "oort", "mbc", "own"])
    k, a1 = {"short": (-4, 100), "oort": (-2, 1000), "mbc": (-6, 4000), "own": (-3, 50)}[kind]
    saved = mst.phase__halley_marcus
    mst.phase__halley_marcus = lambda p: 0.25 + p * 0.01
    try:
        s = mst.CometAppMagStacker(comet_type={"k": -3, "Afrho1_const": 50} if kind == "own" else kind, ap=0.04, ap_scale=2.0, seeing_col="see")
        out = s.run(ctx.rec({"helio_dist": r, "geo_dist": d, "phase": ph, "see": see, "magV": v, "dmag_color": [0.25] * n, "dmag_detect": [0.0] * n, "band": b}, {"band": "U"}), href, h)
    finally:
        mst.phase__halley_marcus = saved
    sun = {"g": -26.52, "r": -26.93}
    au = 149597870.7
    for i in range(n):
        # flux of the coma over that of the sun
        rad2 = ten(0.4 * (-26.76 - h)) / 0.04 * au * au
        afrho = a1 * rad2 / (r[i] ** (-k)) * (0.25 + ph[i] * 0.01)
        ratio = afrho * (725e5 * d[i] * see[i] * 2.0) / ((2 * r[i] * d[i] * au * 1e5) ** 2)
        flux = ratio * 10 ** (-0.4 * sun[b[i]]) + ten(-0.4 * (v[i] + 0.25 + h - href))
        ctx.close(ten(-0.4 * out["appMag"][i]) * 1e9, flux * 1e9, "light of coma and nucleus together", tol=1e-4)


@harness(P, [K + "EclStacker._run"], "1 or 2 observations at any position, in degrees or radians", quick=[{"n": n, "deg": d} for n in (1, 2) for d in (True, False)], budget=100)
def ecliptic(ctx, n, deg):
    D = np.pi / 180
    ra, dec = ctx.reals("ra", n, 0, 359), ctx.reals("dec", n, -89, 89)
    u = 1.0 if deg else D
    e = 23.439291 * D
    sb = []
    for i in range(n):
        cr, sr, cd, sd = ouf("cos", ra[i] * D), ouf("sin", ra[i] * D), ouf("cos", dec[i] * D), ouf("sin", dec[i] * D)
        sb.append((cr * cd, np.cos(e) * sr * cd + np.sin(e) * sd, -np.sin(e) * sr * cd + np.cos(e) * sd))
        ctx.assume(abs(sb[-1][2]) < 1)
    out = mst.EclStacker(in_deg=deg).run(ctx.rec({"ra": [q * u for q in ra], "dec": [q * u for q in dec]}), 1.0, 1.0)
    for i in range(n):
        x, y, z = sb[i]
        ctx.close(out["ecLat"][i], ouf("arcsin", z) / D, "ecliptic latitude in degrees", tol=1e-6)
        lon = atan2(y, x) / D
        ctx.close(out["ecLon"][i], ite(lon < 0, lon + 360.0, lon), "ecliptic longitude in degrees, 0 to 360", tol=1e-6)


@harness(P, [B + "MoMetricBundleGroup.__init__", B + "MoMetricBundleGroup.run_all", B + "MoMetricBundleGroup.run_constraint", B + "MoMetricBundleGroup._find_compatible", B + "MoMetricBundleGroup._check_compatible",
             B + "MoMetricBundleGroup._run_compatible", B + "MoMetricBundle.__init__", B + "MoMetricBundle.set_child_bundles", B + "MoMetricBundle.compute_summary_stats", "rubin_sim/maf/slicers/mo_slicer.py:MoObjSlicer.__next__"],
         "two objects with given numbers of observations (none, one or two) of any magnitude, their own H or two cloned H values of any size, bundles with their own magnitude columns, constraints and child statistics",
         quick=[{"nobs": a, "cloned": c, "con": k} for a, c, k in (((1, 0), True, False), ((1, 2), False, True), ((2, 1), True, False), ((0, 1), False, True))],
         thorough=[{"nobs": (2, 2), "cloned": True, "con": True}], budget=150)
def objects(ctx, nobs, cloned, con):
    import contextlib
    import io
    from rubin_sim.maf.metric_bundles import mo_metric_bundle as mb
    from rubin_sim.maf.slicers import MoObjSlicer

    H = ctx.reals("H", 2, 10, 20)
    hr = ctx.reals("h", 2, 10, 25)
    v = [ctx.reals("v%d_" % i, k, 18, 26) for i, k in enumerate(nobs)]
    w = [ctx.reals("w%d_" % i, k, 0, 1) for i, k in enumerate(nobs)]
    cut = ctx.real("cut", 15, 40)
    flag = [[ctx.choice("f%d_%d" % (i, j), [1, 0]) if con else 1 for j in range(k)] for i, k in enumerate(nobs)]
    s = MoObjSlicer(h_range=ctx.arr(hr) if cloned else None, verbose=False)
    s.nSso, s.shape = 2, [2, 2 if cloned else 1]
    s.slice_points = {"H": ctx.arr(hr) if cloned else ctx.arr(H)}
    s.orbit_file = s.obs_file = "mem"
    state = {}

    def select(constraint=None):
        state["c"] = constraint

    def obs_of(i):
        keep = [j for j in range(nobs[i]) if state["c"] is None or flag[i][j]]
        o = ctx.rec({"magV": [v[i][j] for j in keep], "dmag_color": [0.0] * len(keep), "dmag_detect": [w[i][j] for j in keep], "dmag_trail": [3.0 * w[i][j] for j in keep], "fiveSigmaDepth": [24.0] * len(keep)})
        return {"obs": o, "orbit": {"H": H[i]}, "Hvals": hr if cloned else [H[i]]}

    s.subset_obs, s._slice_obs = select, obs_of

    class Faint(mm.BaseMoMetric):
        def run(self, sso_obs, orb, hval):
            t = np.sum(sso_obs["appMag"])
            return self.badval if bool(t > cut) else t + 0.5

    class Kid(mm.BaseChildMetric):
        def run(self, sso_obs, orb, hval, value):
            return self.badval if len(sso_obs) == 2 else 2.0 * value + hval

    class Summary(ms.BaseMoMetric):
        def __init__(self):
            super().__init__(metric_name="keep")

        def run(self, values, h):
            return (values, h)

    par = Faint(metric_name="faint", badval=-999)
    par.child_metrics = {"kid": Kid(par, badval=-7, metric_name="kid")}
    bundles = {"a": mb.MoMetricBundle(par, s, summary_metrics=[Summary()]),
               "b": mb.MoMetricBundle(Faint(metric_name="trailed", badval=-999), s, stacker_list=[mst.MoMagStacker(loss_col="dmag_trail")], summary_metrics=[Summary()]),
               "d": mb.MoMetricBundle(Faint(metric_name="plain", badval=-999), s, summary_metrics=[Summary()], file_root="mine", run_name="r")}
    if con:
        bundles["c"] = mb.MoMetricBundle(Faint(metric_name="some", badval=-999), s, constraint="flag > 0", summary_metrics=[Summary()])
    wrote = []
    saved = mst.SNRStacker._run, mb.MoMetricBundle.write
    mst.SNRStacker._run = lambda self, o, href, hval: o
    mb.MoMetricBundle.write = lambda self, **kw: wrote.append(self.metric.name)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mb.MoMetricBundleGroup(bundles, out_dir="/tmp", verbose=False).run_all()
    finally:
        mst.SNRStacker._run, mb.MoMetricBundle.write = saved
    ctx.check(sorted(wrote) == sorted(["faint", "kid", "plain", "trailed"] + (["some"] if con else [])), "every result is saved once")
    kid = bundles["a"].child_bundles["kid"]
    todo = [(bundles["a"], 1.0, False), (kid, 1.0, False), (bundles["b"], 3.0, False), (bundles["d"], 1.0, False)] + ([(bundles["c"], 1.0, True)] if con else [])
    for b, f, sel in todo:
        name = b.metric.name
        for i in range(2):
            here = [j for j in range(nobs[i]) if not sel or flag[i][j]]
            for k, hv in enumerate(hr if cloned else [H[i]]):
                tot = osum([v[i][j] + f * w[i][j] + hv - H[i] for j in here]) if here else None
                gone = tot is None or bool(tot > cut)
                want = None if gone else tot + 0.5
                if b is kid and want is not None:
                    want = None if len(here) == 2 else 2.0 * want + hv
                ctx.check(bool(b.metric_values.mask[i][k]) == (want is None), "masked where there is nothing to measure (%s)" % name)
                if want is not None:
                    ctx.close(b.metric_values.data[i][k], want, "value of each object at each H, from its own observations and columns (%s)" % name)
        if name == "faint":
            ctx.check(not b.summary_metrics, "summaries go to the child results")
        else:
            ctx.check(b.summary_values["keep"][0] is b.metric_values, "summary of its own values (%s)" % name)
            ctx.closes(b.summary_values["keep"][1], hr if cloned else H, "summary at the H values (%s)" % name)
    ctx.check(bundles["d"].file_root == "mine" and bundles["b"].file_root not in ("mine", None), "saved under the name given, or one of its own")
    rows = []

    class Db:
        def update_metric(self, name, slicer, run, constraint, label, fname):
            return (name, slicer, run, constraint, label)

        def update_summary_stat(self, metric_id, summary_name, summary_value, **kw):
            rows.append((metric_id, summary_name, summary_value))

    b = bundles["d"]
    b.compute_summary_stats(Db())
    ctx.check(len(rows) == 1 and rows[0][0] == ("plain", s.slicer_name, "r", b.constraint, b.info_label) and rows[0][1] == "keep" and rows[0][2][0] is b.metric_values, "summary recorded with the metric it belongs to")


@harness(P, ["rubin_sim/maf/slicers/mo_slicer.py:MoObjSlicer._slice_obs", "rubin_sim/maf/slicers/mo_slicer.py:MoObjSlicer.subset_obs", "rubin_sim/maf/slicers/mo_slicer.py:MoObjSlicer.__next__", "rubin_sim/maf/slicers/mo_slicer.py:MoObjSlicer.__eq__"],
         "2 orbits and 3 observations of any of them, with integer or text ids, cloned or not", quick=[{"text": t} for t in (False, True)], budget=100)
def object_slices(ctx, text):
    import pandas as pd
    from rubin_sim.maf.slicers import MoObjSlicer

    ids = ["2001 AB", "x"] if text else [7, 12]
    who = [ctx.choice("who%d" % i, [0, 1]) for i in range(3)]
    big = ctx.choice("c", [None, "night > 1"])
    cl = ctx.bool("cloned")
    s = MoObjSlicer(h_range=np.array([15.0, 16.0]) if cl else None, verbose=False)
    s.orbits = pd.DataFrame({"obj_id": ids, "H": [10.0, 11.0]})
    s.nSso = 2
    s.all_obs = pd.DataFrame({"obj_id": [ids[k] for k in who], "night": [1, 2, 3], "t": [0.5, 1.5, 2.5]})
    s.subset_obs(big)
    n = 0
    for i, p in enumerate(s):
        n += 1
        ctx.check(list(p["obs"]["t"]) == [0.5 + j for j in range(3) if who[j] == i and (big is None or j > 0)], "the observations of the object that meet the constraint")
        ctx.check(p["orbit"]["obj_id"] == ids[i] and list(p["Hvals"]) == ([15.0, 16.0] if cl else [10.0 + i]), "its orbit and H")
    ctx.eq(n, 2, "each object once")
