"""Yields of stars, brown dwarfs, quasars, lensed supernovae and dwarf galaxies."""

import os
import shutil
import tempfile
from importlib import import_module

import healpy as hp
import numpy as np

import rubin_sim.maf.maf_contrib.lv_dwarfs.lv_dwarfs_metrics as lv
import rubin_sim.maf.maf_contrib.young_stellar_objects_metric as yso
import rubin_sim.maf.maps.dust_map_3d as dm3
import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.metrics.brown_dwarf_metric as bd
import rubin_sim.maf.metrics.periodic_detect_metric as pd_
import rubin_sim.maf.metrics.qso_number_counts_metric as qs
import rubin_sim.maf.metrics.scaling_metrics as sc
import rubin_sim.maf.metrics.sn_sl_metric as sl
from harness.lib import *  # noqa: F401,F403

e3 = import_module("rubin_sim.maf.maps.ebv_3d_hp")
P = "C29"
ME = "rubin_sim/maf/metrics/"
CO = "rubin_sim/maf/maf_contrib/"
MA = "rubin_sim/maf/maps/"
T, M5 = "observationStartMJD", "fiveSigmaDepth"
AX1 = {"u": 4.75, "g": 3.625, "r": 2.75, "i": 2.125, "z": 1.5, "y": 1.25}
assumptions(P, "dust coefficients per band are fixed stand-in numbers, and the quasar table, the luminosity function of an old population and the extinction along a line of sight are stand-ins (the data "
               "files are not installed); scipy's interpolators, F distribution and integration are replaced by exact piecewise-linear ones or by any value; Poisson draws are fixed counts; rubin_scheduler's "
               "calc_season is executed as it is")


class Dust:
    ax1 = AX1
    r_x = AX1


for mod in (sl, yso, dm3):
    if hasattr(mod, "DustValues"):
        mod.DustValues = Dust


def began(ra):
    from rubin_scheduler.utils import calc_season
    s = float(calc_season(np.degrees(ra), np.array([60000.0]))[0])
    return 60000.0 - (s - np.floor(s)) * 365.25


def visits(ctx, b, t, m5, **kw):
    cols = {T: t, M5: m5, "band": b, "night": list(range(len(t)))}
    cols.update(kw)
    return ctx.rec(cols, {"band": "U", "night": "i"})


@harness(P, [ME + "sn_sl_metric.py:SNSLMetric.run", ME + "sn_sl_metric.py:SNSLMetric.n_lensed"],
         "1 to 3 visits in two bands at any times of two years, on one night or each on its own, any depths and extinction, three sets of limits",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=300)
def lensed(ctx, n):
    ra = 1.0
    b0 = began(ra)
    yr = [ctx.cint("y%d" % i, 0, 1) for i in range(n)]
    d = ctx.reals("d", n, 1, 364)
    t = [b0 + y * 365.25 + x for y, x in zip(yr, d)]
    b = ctx.choice("b", [["g", "i", "g", "i"][:n], ["g"] * n])
    m5 = ctx.reals("m", n, 22, 26)
    ebv = ctx.real("ebv", 0, 1)
    cuts = {"g": 24.0, "i": 23.0}
    nobs, nfil = ctx.choice("lim", [(1, 1), (2, 2), (3, 2)])
    which = ctx.choice("season", [None, [1.0 + np.floor((b0 - 60000.0) / 365.25)]]) if n == 2 else None
    if which is not None:
        from rubin_scheduler.utils import calc_season
        which = [float(np.floor(calc_season(np.degrees(ra), np.array([b0 + 100.0]))[0]))]
    other = n == 1
    rec = {"t" if other else T: t, M5: m5, "night": np.array([3, 1, 2, 7][:n]), "band": b}
    m = metrics.SNSLMetric(season=which, nfilters_min=nfil, min_season_obs=nobs, m5mins=cuts, mjd_col="t" if other else T)
    got = m.run(ctx.rec(rec, {"night": "i", "band": "U"}), {"ra": ra, "ebv": ebv, "nside": 4})
    use = [i for i in range(n) if bool(m5[i] - AX1[b[i]] * ebv > cuts[b[i]])]
    if not use:
        ctx.check(not is_sym(got) and got in (0, m.badval), "no usable visit gives none")
        return
    area = hp.nside2pixarea(4, degrees=True)
    want = 0.0
    for y in (0, 1):
        g = [i for i in use if yr[i] == y]
        if len(g) < nobs or len(set(b[i] for i in g)) < nfil or (which is not None and y == 1) or not g:
            continue
        tt = osorted([t[i] for i in g])
        gap = [tt[i + 1] - tt[i] for i in range(len(tt) - 1)]
        gap = [x for x in gap if bool(x > 0.4)]
        if not gap:
            continue
        want = want + 45.7 * area / 20000.0 * ((tt[-1] - tt[0]) / 365.25) / 2.5 / (2.15 * ouf("exp", 0.37 * omedian(gap)))
    ctx.close(got, want, "expected number from the season length and the median gap between nights of the usable visits", tol=1e-6)


@harness(P, [ME + "sn_sl_metric.py:SNSLMetric.run"], "2 or 3 visits in different bands of one night, any times of the night and depths", quick=[{"n": 2}, {"n": 3}], budget=60)
def lensed_night(ctx, n):
    b0 = began(1.0)
    d = ctx.reals("d", n, 0, 0.375)
    m5 = ctx.reals("m", n, 24, 26)
    m = metrics.SNSLMetric(nfilters_min=1, min_season_obs=1, m5mins={x: 23.0 for x in "ugrizy"})
    got = m.run(ctx.rec({T: [b0 + 50 + x for x in d], M5: m5, "night": np.array([5] * n), "band": list("gri")[:n]}, {"night": "i", "band": "U"}), {"ra": 1.0, "ebv": 0.0, "nside": 4})
    ctx.close(got, 0.0, "a season of a single night has no cadence and adds none")


class Bilinear:
    """Stands in for scipy's RectBivariateSpline: bilinear between the knots."""

    def __init__(self, x, y, z, kx=3, ky=3, **kw):
        assert np.shape(z) == (len(x), len(y))
        self.x, self.y, self.z = [float(v) for v in x], [float(v) for v in y], np.asarray(z)

    def __call__(self, x, y):
        i = max(k for k in range(len(self.x) - 1) if self.x[k] <= x)
        f = (x - self.x[i]) / (self.x[i + 1] - self.x[i])
        row = [float(self.z[i, k] * (1 - f) + self.z[i + 1, k] * f) for k in range(len(self.y))]
        for k in range(len(self.y) - 1):
            if k == len(self.y) - 2 or bool(y <= self.y[k + 1]):
                v = row[k] + (row[k + 1] - row[k]) * (y - self.y[k]) / (self.y[k + 1] - self.y[k])
                out = np.empty((1, 1), dtype=object if is_sym(v) else float)
                out[0, 0] = v
                return out


class NoExgal:
    maps = ["DustMap"]

    def __init__(self, **kw):
        self.kw = kw


@harness(P, [ME + "qso_number_counts_metric.py:QSONumberCountsMetric.__init__", ME + "qso_number_counts_metric.py:QSONumberCountsMetric.run"],
         "a table of four by four cells, 1 or 2 visits in either of two bands of any saturation magnitudes, any depth and extinction, three redshift ranges", quick=[{"n": 1}, {"n": 2}], budget=200)
def quasars(ctx, n):
    f = ctx.choice("f", ["g", "i"])
    zr = ctx.choice("z", [(0.5, 3.5), (1.0, 2.5), (0.3, None)])
    zs, mags = [0.0, 1.0, 2.0, 4.0, 8.0, 9.0], [14.0, 16.0, 20.0, 24.0, 30.0, 31.0]
    tab = np.array([[1, 2, 3, 4, 5], [2, 0, 5, 1, 1], [7, 1, 1, 2, 3], [4, 4, 9, 0, 2], [3, 3, 3, 3, 3]], dtype=float)
    tmp = tempfile.mkdtemp()
    old = qs.get_data_dir, qs.interpolate, qs.ExgalM5
    try:
        os.makedirs(os.path.join(tmp, "maf", "quasarNumberCounts"))
        with open(os.path.join(tmp, "maf", "quasarNumberCounts", "Long_Table.LSST%s.Shen20.A.Richards06.txt" % f), "w") as fh:
            fh.write(" ".join(str(x) for x in mags) + "\n" + " ".join(str(x) for x in zs) + "\n" + "\n".join(" ".join(str(x) for x in row) for row in tab) + "\n")
        qs.get_data_dir = lambda: tmp
        qs.ExgalM5 = NoExgal
        qs.interpolate = type("I", (), {"RectBivariateSpline": Bilinear})
        m = qs.QSONumberCountsMetric(f, zmin=zr[0], zmax=zr[1], extinction_cut=0.5)
    finally:
        qs.get_data_dir, qs.interpolate, qs.ExgalM5 = old
        shutil.rmtree(tmp, ignore_errors=True)
    zmax = zr[1] if zr[1] is not None else {"g": 482.5 / 91.2 - 1.0, "i": 6.7}[f]
    ctx.close(m.zmax, zmax, "farthest redshift: the Lyman break reaches the band, at most 6.7")
    b = [ctx.choice("b%d" % i, ["g", "i"]) for i in range(n)]
    sat = ctx.reals("s", n, 15, 19)
    depth = ctx.real("depth", 20, 29)
    ebv = ctx.real("ebv", 0, 1)
    seen = []

    def run(data, sp):
        seen.append(list(data["band"]))
        return depth

    m.exgal_m5.run = run
    got = m.run(ctx.rec({"band": b, M5: [24.0] * n, "saturation_mag": sat}, {"band": "U"}), {"ebv": ebv, "nside": 8})
    mine = [i for i in range(n) if b[i] == f]
    if bool(ebv > 0.5) or not mine:
        ctx.check(not is_sym(got) and got == m.badval, "dusty places, or places without visits in the band, are left out")
        return
    ctx.check(seen == [[f] * len(mine)], "the depth is that of the visits in the band")
    lo = omax([sat[i] for i in mine])

    def part(a, b_, e0, e1):
        """Fraction of a cell between the limits."""
        u, w = symmax(a, e0), -symmax(-b_, -e1)
        return symmax(w - u, 0.0) / (e1 - e0)

    want = 0.0
    for i in range(4):
        pm = part(lo, depth, mags[i], mags[i + 1])
        want = want + pm * float(sum(tab[i, j] * max(min(zmax, zs[j + 1]) - max(zr[0], zs[j]), 0.0) / (zs[j + 1] - zs[j]) for j in range(4)))
    ctx.close(got, want * hp.nside2pixarea(8, degrees=True), "quasars of the table fainter than saturation and brighter than the depth, in the redshift range")


@harness(P, [ME + "scaling_metrics.py:NlcPointsMetric.run"], "1 to 4 visits in two bands of any depths, any magnitude within the map and star counts, 0 to 2 points demanded",
         quick=[{"n": n} for n in (1, 2, 3, 4)], budget=100)
def points(ctx, n):
    b = (["g", "i", "g", "i"] if ctx.bool("mixed") else ["g", "g", "g", "i"])[:n]
    m5 = ctx.reals("m", n, 18, 24)
    mag = ctx.real("mag", 19, 23)
    need = ctx.cint("need", 0, 2)
    sp, lf = {"nside": 4}, {}
    for f in "gi":
        d = ctx.reals("c" + f, 3, 1, 64)
        lf[f] = [d[0], d[0] + d[1], d[0] + d[1] + d[2]]
        sp["starMapBins_" + f] = np.array([16.0, 18.0, 20.0, 24.0])
        sp["starLumFunc_" + f] = ctx.arr(lf[f])
    m = sc.NlcPointsMetric(ndpmin=need, mags=mag, nside=4)
    got = m.run(ctx.rec({"band": b, M5: m5}, {"band": "U"}), sp)
    want = 0.0
    for f in "gi":
        k = len([i for i in range(n) if b[i] == f and bool(m5[i] > mag)])
        if k > need:
            x = [18.0, 20.0, 24.0]
            j = 0 if bool(mag <= 20) else 1
            want = want + k * (lf[f][j] + (lf[f][j + 1] - lf[f][j]) * (mag - x[j]) / (x[j + 1] - x[j])) * hp.nside2pixarea(4, degrees=True)
    ctx.close(got, want, "points of light curves with more than the number demanded, times the stars brighter than the magnitude")
    try:
        m.run(ctx.rec({"band": b, M5: m5}, {"band": "U"}), dict(sp, nside=8))
        ctx.check(False, "another resolution than that of the maps is refused")
    except ValueError:
        pass


@harness(P, [ME + "periodic_detect_metric.py:PeriodicDetectMetric.run"],
         "3 to 7 visits in one or two bands, one or two stars of any amplitude, any signal to noise and any chance (or none) of the F test", quick=[{"n": n} for n in (3, 4, 5, 6, 7)], budget=100)
def periodic(ctx, n):
    two = ctx.bool("two")
    b = (["g", "r", "g", "r", "g", "g", "r"] if two else ["r"] * 7)[:n]
    t = [0.25, 1.0, 2.5, 3.25, 0.75, 5.5, 6.25][:n]
    one = ctx.bool("one")
    amp = [ctx.real("a%d" % i, 0.0625, 1) for i in range(1 if one else 2)]
    per, rm = [2.0, 3.5], [20.0, 21.0]
    level = ctx.real("level", 0, 1)
    ps = [np.nan if ctx.bool("nan%d" % i) else ctx.real("p%d" % i, 0, 1) for i in range(len(amp))]
    asked, snrs = [], {}
    mags = {"g": 0.5, "r": 0.0}
    old = pd_.stellar_mags, pd_.m52snr, pd_.scipy
    s0 = [2.0, 4.0, 8.0, 5.0, 16.0, 3.0, 6.0]
    free = ctx.real("s", 1, 16) if n == 5 else 4.0
    calls = []

    def snr(lc, m5):
        calls.append((list(lc), list(m5)))
        return ctx.arr([free if bool(x == 20.0) else s0[int(x - 20.0)] for x in m5])

    def sf(v, d1, d2):
        asked.append((v, d1, d2))
        return ps[len(asked) - 1]

    pd_.stellar_mags = lambda sed, rmag: {k: v + rmag for k, v in mags.items()}
    pd_.m52snr = snr
    pd_.scipy = type("S", (), {"stats": type("T", (), {"f": type("F", (), {"sf": staticmethod(sf)})})})
    try:
        m = pd_.PeriodicDetectMetric(periods=per[0] if one else per, amplitudes=amp[0] if one else amp, star_mags=rm[0] if one else rm, sig_level=level)
        got = m.run(ctx.rec({T: t, M5: [20.0 + i for i in range(n)], "band": b}, {"band": "U"}))
    finally:
        pd_.stellar_mags, pd_.m52snr, pd_.scipy = old
    nf = len(set(b))
    if n <= 3 + nf:
        ctx.check(got == 0 and not asked, "too few visits to tell")
        return
    ctx.check(len(asked) == len(amp), "one test for each star")
    want = 0
    for k, a in enumerate(amp):
        chi = 0.0
        for f in sorted(set(b)):
            idx = [i for i in range(n) if b[i] == f]
            lc = [a * math.sin(t[i] * (np.pi * 2) / per[k]) + (mags[f] + rm[k]) for i in idx]
            dm = [2.5 * log10(1.0 + 1.0 / (free if i == 0 else s0[i])) for i in idx]
            w = [1.0 / (x * x) for x in dm]
            mean = osum([u * v for u, v in zip(w, lc)]) / osum(w)
            chi = chi + osum([(v - mean) * (v - mean) * u for v, u in zip(lc, w)])
        ctx.close(asked[k][0], (chi - (n - 3.0 - nf)) / 3.0, "statistic of the improvement over constant light", tol=1e-6)
        ctx.check(asked[k][1] == 3 and asked[k][2] == n - 3 - nf, "degrees of freedom")
        if not isnan(ps[k]) and bool(ps[k] < level):
            want += 1
    ctx.eq(got, want, "stars whose variation is significant")
    ctx.check(len(calls) == nf * len(amp), "signal to noise of each star in each band")
    for c in range(len(calls)):
        ctx.check(len(calls[c][0]) == len(calls[c][1]), "one for each visit")


class Interp:
    """Stands in for scipy's interp1d with extrapolation."""

    last = None

    def __init__(self, x, y, fill_value=None, **kw):
        assert fill_value == "extrapolate"
        self.x, self.y = list(x), [float(v) for v in y]
        Interp.last = self

    def __call__(self, g):
        o = osort_idx(self.x)
        x, y = [self.x[i] for i in o], [self.y[i] for i in o]
        for k in range(len(x) - 1):
            if k == len(x) - 2 or bool(g <= x[k + 1]):
                return y[k] + (y[k + 1] - y[k]) * (g - x[k]) / (x[k + 1] - x[k])


@harness(P, [ME + "brown_dwarf_metric.py:BDParallaxMetric.__init__", ME + "brown_dwarf_metric.py:BDParallaxMetric.run", ME + "brown_dwarf_metric.py:BDParallaxMetric._final_sigma"],
         "1 or 2 visits in three bands (one of them without a magnitude) of any depth, two distances, any target, three sets of position errors and two of parallax factors", quick=[{"n": 1}, {"n": 2}], budget=200)
def parallax(ctx, n):
    b = [ctx.choice("b%d" % i, ["i", "z", "g"]) for i in range(n)]
    m5 = ctx.reals("m", n, 20, 24)
    pr, pdec = ctx.choice("pi", [([0.25, 1.0], [0.5, 0.125]), ([-1.0, 0.5], [0.75, -0.5])])
    pr, pdec = pr[:n], pdec[:n]
    dist = np.array([10.0, 40.0])
    goal = ctx.real("goal", 1, 20)
    err = ctx.choice("err", [[[0.0078125, 0.03125], [0.015625, 0.125]], [[0.0625, 0.03125], [0.015625, 0.0078125]], [[0.001953125, 0.001953125], [0.00390625, 0.00390625]]])
    err = [e[:n] for e in err]
    mags = {"i": 20.0, "z": 18.0}
    asked = []
    old = bd.mafUtils, bd.interpolate

    def snr(mag, m):
        return (np.asarray(mag) * 0.0 + 1.0) * np.asarray(m) - np.asarray(mag)

    def prec(fwhm, s, atm):
        asked.append((list(fwhm), s, atm))
        return ctx.arr([x for r in err for x in r]).reshape(2, n)

    bd.mafUtils = type("U", (), {"m52snr": staticmethod(snr), "astrom_precision": staticmethod(prec)})
    bd.interpolate = type("I", (), {"interp1d": Interp})
    Interp.last = None
    try:
        m = bd.BDParallaxMetric(mags=mags, distances=dist, parallax_snr=goal, atm_err=0.03125)
        got = m.run(ctx.rec({"band": b, M5: m5, "seeingFwhmGeom": [0.5 + 0.25 * i for i in range(n)], "ra_pi_amp": pr, "dec_pi_amp": pdec}, {"band": "U"}))
    finally:
        bd.mafUtils, bd.interpolate = old
    ctx.check(len(asked) == 1 and asked[0][0] == [0.5 + 0.25 * i for i in range(n)] and asked[0][2] == 0.03125, "position errors from the seeing and the floor given")
    s = asked[0][1]
    for i in range(2):
        for j in range(n):
            want = m5[j] - (mags[b[j]] + 5.0 * math.log10(dist[i]) - 5.0) if b[j] in mags else 0.0
            ctx.close(s[i, j], want, "signal to noise of the object at each distance in the band of each visit; none in bands it has no magnitude in")
    q = [osum([(pr[j] * pr[j] + pdec[j] * pdec[j]) / (err[i][j] * err[i][j]) for j in range(n)]) for i in range(2)]
    sn2 = [q[i] / (dist[i] * dist[i]) for i in range(2)]
    if Interp.last is None:
        ctx.check(not is_sym(got) and got == 0, "out of reach")
        for i in range(2):
            ctx.check(sn2[i] <= goal * goal * (1 + 1e-6), "too faint at every distance tried")
        return
    x = Interp.last.x
    for i in range(2):
        ctx.close(x[i] * x[i], sn2[i], "significance of the parallax at each distance", tol=1e-6)
    ctx.check(sor(sn2[0] >= goal * goal * (1 - 1e-6), sn2[1] >= goal * goal * (1 - 1e-6)), "reached at some distance")
    ctx.check(Interp.last.y == [10.0, 40.0], "against the distances")


@harness(P, [ME + "brown_dwarf_metric.py:BDParallaxMetric._final_sigma"], "1 or 2 visits of any parallax factors, two distances", quick=[{"n": 1}, {"n": 2}], budget=100)
def parallax_error(ctx, n):
    pr, pdec = ctx.reals("r", n, 0.125, 1), ctx.reals("d", n, 0.125, 1)
    err = [[0.0078125, 0.03125], [0.015625, 0.125]]
    got = bd.BDParallaxMetric()._final_sigma(np.array([e[:n] for e in err]), ctx.arr(pr), ctx.arr(pdec))
    for i in range(2):
        q = osum([(pr[j] * pr[j] + pdec[j] * pdec[j]) / err[i][j] ** 2 for j in range(n)])
        ctx.close(got[i] * got[i] * q, 1e6, "variance of the parallax from the factors along both directions", tol=1e-6)


@harness(P, [ME + "brown_dwarf_metric.py:bd_colors", ME + "brown_dwarf_metric.py:BDParallaxMetric.__init__"], "the 20 spectral types, any distance", quick=[{}], budget=60)
def dwarf_types(ctx):
    k = ctx.choice("k", ["%s%d" % (a, i) for a in "LT" for i in range(10)])
    d = ctx.real("d", 1, 1000)
    c = bd.bd_colors(k)
    ctx.check(isinstance(c, dict) and set(c) <= set("izy") and {"z", "y"} <= set(c), "magnitudes in each band")
    ctx.check(all(10 < v < 25 for v in c.values()) and c["z"] > c["y"] and c.get("i", 99.0) > c["z"], "brown dwarfs are red")
    m = bd.BDParallaxMetric(mags=c, distances=ctx.arr([d]))
    for f in c:
        ctx.close(m.mags[f][0], c[f] + (5.0 * log10(d) - 5.0), "apparent magnitude at the distance")
    ctx.close(m.parallaxes[0], 1000.0 / d, "parallax at the distance")


@harness(P, [MA + "dust_map_3d.py:DustMap3D.distance_at_dmag", MA + "dust_map_3d.py:DustMap3D.run", MA + "ebv_3d_hp.py:get_x_at_nearest_y"],
         "one or two lines of sight of three distances with any growing extinction, any change of magnitude, bands and distance", quick=[{"n": 1}, {"n": 2}], budget=200)
def extinction(ctx, n):
    f = ctx.choice("f", ["r", "i"])
    dist = [10.0, 100.0, 1000.0]
    inc = [ctx.reals("e%d" % k, 3, 0, 2) for k in range(n)]
    ebv = [[a[0], a[0] + a[1], a[0] + a[1] + a[2]] for a in inc]
    dmag = ctx.real("dmag", 0, 14)
    near = ctx.real("near", 1, 1500)
    m = dm3.DustMap3D(dist_pc=100.0, d_mag=4.0, filtername=f)
    m.r_x = AX1
    m.d_mag = dmag
    m.dist_pc = near
    both = n == 2
    D = ctx.arr(dist * n).reshape(n, 3)
    E = ctx.arr([x for r in ebv for x in r]).reshape(n, 3)
    use = f
    if both:
        old = dm3.ebv_3d_hp
        asked = []

        def given(nside, **kw):
            asked.append((nside, kw))
            return D, E
        dm3.ebv_3d_hp = given
        pix = ctx.bool("pix")
        sp = {"sid": np.arange(2), "ra": np.array([0.5, 1.0]), "dec": np.array([0.0, 0.1])}
        if pix:
            sp["nside"] = 32
        # the entries are named after the rounded values the map was made with
        try:
            out = RunNames(m, sp)
        finally:
            dm3.ebv_3d_hp = old
        ctx.check(len(asked) == 1 and ((asked[0][0] == 32 and list(asked[0][1]["pixels"]) == [0, 1]) if pix else (asked[0][0] == m.nside and list(asked[0][1]["ra"]) == [0.5, 1.0])),
                  "the lines of sight of the points")
        vals = [v for k, v in out.items() if k.startswith("ebv3d_ebv_at")]
        far = [v for k, v in out.items() if k.startswith("ebv3d_dist_at")]
        ctx.check(len(vals) == 1 and len(far) == 1, "extinction at the distance and distance at the magnitude")
        got, at = far[0], vals[0]
        ctx.check(out["ebv3d_ebvs"] is E and out["ebv3d_dists"] is D, "the lines of sight are kept")
    else:
        use = ctx.choice("g", ["g", None])
        got = [m.distance_at_dmag(dmag, np.array(dist), E[0], use)] if use else [m.distance_at_dmag(dmag, np.array(dist), E[0])]
        at = [e3.get_x_at_nearest_y(np.array(dist), E[0], near)[1]]
        use = use or f
    for k in range(n):
        tot = [5.0 * math.log10(x) - 5.0 + AX1[use] * e for x, e in zip(dist, ebv[k])]
        dd = [oabs(x - dmag) for x in tot]
        best = omin(dd)
        # the distance is one whose total change is nearest, or beyond the map with all of its extinction
        pick = [i for i in range(3) if bool(dd[i] == best)]
        far = ten(0.2 * (dmag - AX1[use] * ebv[k][2]) + 1.0)
        g = got[k] if np.ndim(got[k]) == 0 or is_sym(got[k]) else np.asarray(got[k]).item()
        ctx.check(sor(*[sor(sand(far > dist[i], oabs(g - far) <= 1e-6 * far), sand(far <= dist[i], oabs(g - dist[i]) <= 1e-6)) for i in pick]), "farthest distance of the change of magnitude")
        de = [oabs(x - near) for x in dist]
        b2 = omin(de)
        ctx.check(sor(*[oabs(at[k] - ebv[k][i]) <= 1e-9 for i in range(3) if bool(de[i] == b2)]), "extinction at the nearest distance")


def RunNames(m, sp):
    """Run the map with names of its entries fixed (a symbolic number has no text)."""
    near, dmag = m.dist_pc, m.d_mag

    class Txt:
        def __init__(self, v):
            self.v = v

        def __format__(self, spec):
            return "x"

        def __rsub__(self, o):
            return o - self.v

        def __add__(self, o):
            return self.v + o

        def __sub__(self, o):
            return self.v - o

        __array_ufunc__ = None

    m.dist_pc, m.d_mag = Txt(near), Txt(dmag)
    return m.run(sp)


@harness(P, [CO + "young_stellar_objects_metric.py:NYoungStarsMetric.run", CO + "young_stellar_objects_metric.py:StarDensity.__call__"],
         "1 or 2 visits in two bands of any depth, any crowding limits, extinction and latitude, with or without crowding, map of dust and resolution", quick=[{"n": 1}, {"n": 2}], budget=200)
def young(ctx, n):
    crowd, flat, dist, res = ctx.bool("crowd"), ctx.bool("flat"), ctx.bool("dist"), ctx.bool("res")
    b = ctx.choice("b", [["g", "r"], ["g", "g"], ["r", "g"]])[:n]
    m5 = ctx.reals("m", n, 22, 26)
    galb = ctx.real("galb", -1.5, 1.5)
    ebv = ctx.real("ebv", 0, 2)
    cd = {"g": ctx.real("cg", 20, 28), "r": ctx.real("cr", 20, 28)}
    snr = {"g": 5.0, "r": 10.0}
    M = {"g": 10.0, "r": 9.0}
    m = yso.NYoungStarsMetric(mags=M, snrs=snr, galb_limit=45.0, return_distance=dist, crowding_error=0.25 if crowd else 0.0, use_2D_extinction=flat)
    m.ax1 = AX1
    for f in "gr":
        m.m5crowding[f].run = lambda d, s, f=f: cd[f]
    asked, quads = [], []
    ret = {"g": ctx.real("dg", 10, 10000), "r": ctx.real("dr", 10, 10000)}

    def at(dmag=None, dists=None, ebvs=None, filtername=None):
        asked.append((filtername, dmag, dists, ebvs))
        return ret[filtername]

    m.ebvmap.distance_at_dmag = at
    tot = ctx.real("tot", 0, 100)

    def quad(fn, lo, hi):
        quads.append((fn, lo, hi))
        return tot, 0.0

    old = yso.integrate
    yso.integrate = type("Q", (), {"quad": staticmethod(quad)})
    sp = {"galb": galb, "gall": 1.0, "ebv": ebv, "ebv3d_dists": "D", "ebv3d_ebvs": "E"}
    if res:
        sp["nside"] = 8
    try:
        got = m.run(ctx.rec({"band": b, M5: m5, "seeingFwhmGeom": [0.75] * n}, {"band": "U"}), sp)
    finally:
        yso.integrate = old
    lim = np.radians(45.0)
    if bool(sor(galb > lim, galb < -lim)):
        ctx.check(not is_sym(got) and got == m.badval, "nothing beyond the latitude limit")
        return
    app = {}
    for f in "gr":
        k = [m5[i] for i in range(n) if b[i] == f]
        d = 1.25 * log10(osum([ten(0.8 * x) for x in k])) if k else -math.inf
        if crowd:
            d = -symmax(-d, -cd[f]) if k else d
        app[f] = d - 2.5 * math.log10(snr[f] / 5.0)
    if flat:
        ds = [10.0 * ten((app[f] - AX1[f] * ebv - M[f]) / 5.0) if not (not is_sym(app[f]) and app[f] == -math.inf) else 0.0 for f in "gr"]
    else:
        ctx.check([a[0] for a in asked] == ["g", "r"] and all(a[2] == "D" and a[3] == "E" for a in asked), "distance in each band through the extinction along the line of sight")
        for a in asked:
            if not is_sym(app[a[0]]) and app[a[0]] == -math.inf:
                ctx.check(not is_sym(a[1]) and a[1] == -math.inf, "no depth without visits")
            else:
                ctx.close(a[1], app[a[0]] - M[a[0]], "change of magnitude at which the signal to noise asked is met")
        ds = [ret["g"], ret["r"]]
    far = omin(ds) / 1000.0
    if dist:
        ctx.close(got, far, "distance at which the shallowest band meets the signal to noise", tol=1e-6)
        return
    ctx.check(len(quads) == 1 and quads[0][1] == 0, "stars from here")
    ctx.close(quads[0][2], far, "out to the distance of the shallowest band", tol=1e-6)
    area = hp.nside2pixarea(8) if res else np.pi * np.radians(1.75) ** 2
    ctx.close(got, tot * area, "stars in the area of the point")


@harness(P, [CO + "young_stellar_objects_metric.py:StarDensity.__call__"], "any distance, three directions", quick=[{}], budget=60)
def disk(ctx):
    r = ctx.real("r", 0, 20)
    l, b = ctx.choice("lb", [(0.0, 0.0), (1.0, 0.5), (3.0, -0.5)])
    got = yso.StarDensity(l, b)(r)
    rg = osqrt((8.178 - r * math.cos(l)) * (8.178 - r * math.cos(l)) + (r * math.sin(l)) * (r * math.sin(l)))
    a = 0.8e8 / (4.0 * np.pi * 0.3 * 2.6**2)
    ctx.close(got, a * r * r * ouf("exp", -1.0 * r * abs(math.sin(b)) / 0.3 - rg / 2.6), "exponential disk around the centre of the galaxy", tol=1e-6)


@harness(P, [CO + "lv_dwarfs/lv_dwarfs_metrics.py:make__fake_old_galaxy_lf", CO + "lv_dwarfs/lv_dwarfs_metrics.py:_sum_luminosity"],
         "luminosity function of three bins of any magnitudes and counts in any band, any total magnitude and distance", quick=[{}], budget=100)
def dwarf_light(ctx):
    f = ctx.choice("f", list("ugrizy"))
    mg, cn = ctx.reals("m", 3, -2, 6), ctx.reals("c", 3, 0, 8)
    b, mu = ctx.real("b", -10, 5), ctx.real("mu", 0, 30)
    tab = {"magbinc": ctx.arr(mg)}
    for k in "ugrizY":
        tab[k + "mag"] = ctx.arr([x + ord(k) for x in cn])
    old = lv.ascii, lv.get_data_dir
    lv.ascii = type("A", (), {"read": staticmethod(lambda fn, header_start=None: tab)})
    lv.get_data_dir = lambda: "/nonexistent"
    try:
        m, c = lv.make__fake_old_galaxy_lf(b, mu, f)
    finally:
        lv.ascii, lv.get_data_dir = old
    ctx.closes(list(m), [x + mu for x in mg], "magnitudes at the distance")
    k = ten(-0.4 * (b - (6.856379 + mu)))
    ctx.closes(list(c), [k * (x + ord("Y" if f == "y" else f)) for x in cn], "counts scaled to the total magnitude", tol=1e-6)
    n = [ctx.cint("n%d" % i, 0, 2) for i in range(3)]
    if sum(n):
        got = lv._sum_luminosity(ctx.arr(mg), np.array(n))
        ctx.close(got, mg[0] - 2.5 * log10(osum([ten((mg[0] - mg[i]) / 2.5) for i in range(3) for _ in range(n[i])])), "magnitude of the light of all stars together", tol=1e-6)


class LF(dict):
    """Luminosity functions by magnitude of the galaxy: the counts fall by one bin set for each step."""

    def __init__(self, mags, counts):
        self.m, self.c = mags, counts

    def __getitem__(self, k):
        j = int(round((float(k[2:]) + 10.0) * 10))
        return self.m, np.array(self.c[j] if j < len(self.c) else [0, 0])


@harness(P, [CO + "lv_dwarfs/lv_dwarfs_metrics.py:_dwarf_sblimit"], "luminosity functions of two bins over four steps, any depths and number of stars needed, two distances", quick=[{}], budget=200)
def dwarf_limit(ctx):
    g, i = ctx.real("g", 14, 28), ctx.real("i", 14, 28)
    need = ctx.real("need", 0, 12)
    D = ctx.choice("D", [0.1, 4.0])
    mu = 5.0 * math.log10(D * 1e6) - 5.0
    gm, im = np.array([-4.0, 0.0]), np.array([-5.0, -1.0])
    gc, ic = [[6, 7], [4, 5], [2, 3], [1, 0]], [[5, 9], [5, 4], [1, 3], [0, 1]]
    rng = type("R", (), {"poisson": staticmethod(lambda c: np.asarray(c))})
    got = lv._dwarf_sblimit(g, i, need, LF(gm, gc), LF(im, ic), D, rng)
    if not bool(sand(g > 15, i > 15)):
        ctx.check(got[4] is None, "too shallow")
        return
    kg, ki = [k for k in range(2) if bool(gm[k] + mu <= g)], [k for k in range(2) if bool(im[k] + mu <= i)]
    j = 0
    while True:
        ng = sum(gc[j][k] for k in kg) if j < 4 else 0
        ni = sum(ic[j][k] for k in ki) if j < 4 else 0
        if j > 4 or not bool(sand(ng > need, ni > need)):
            break
        j += 1
    if j == 0 or not ng or not ni:
        ctx.check(got[4] is None, "nothing found, or too few stars of the brightest galaxy")
        return
    tot = lambda m, c, ks: -2.5 * math.log10(sum(c[j][k] * 10.0 ** (-0.4 * m[k]) for k in ks if c[j][k]))  # noqa: E731
    a, b = tot(gm, gc, kg), tot(im, ic, ki)
    ctx.closes(list(got[:4]), [a, b, a + mu + 2.5 * math.log10(3600.0), b + mu + 2.5 * math.log10(3600.0)],
               "total magnitudes and surface brightnesses of the stars seen in the faintest galaxy with enough stars no more", tol=1e-6)
    ctx.check(got[4] == ("g" if ng < ni else "i"), "the band with fewer stars limits")


@harness(P, [CO + "lv_dwarfs/lv_dwarfs_metrics.py:LVDwarfsMetric.run"], "2 or 3 visits in three bands, any depths, star and galaxy counts, magnitudes found, by distance or by galaxy", quick=[{"n": 2}, {"n": 3}], budget=200)
def dwarfs(ctx, n):
    b = [ctx.choice("b%d" % k, ["g", "i", "r"]) for k in range(n)]
    g5, i5 = ctx.real("g5", 14, 29), ctx.real("i5", 14, 29)
    fixed = ctx.bool("fixed")
    m = lv.LVDwarfsMetric.__new__(lv.LVDwarfsMetric)
    m.filter_col, m.m5_col, m.badval = "band", M5, -666
    m.cmd_frac, m.stargal_contamination, m.nsigma = 0.25, 0.5, ctx.choice("ns", [4.0, 10.0])
    m.distlim = 4.0 * lv.u.Mpc if fixed else None
    m.lf_dict_g, m.lf_dict_i, m.rng = "G", "I", "R"
    lim, ng = [], ctx.real("ng", 0, 100)
    sets = []

    class Ex:
        def run(self, d, sp):
            sets.append(sorted(set(d["band"])))
            return g5 if list(d["band"])[0] == "g" else i5

    class St:
        mag_limit = 25.0

        def run(self, d, sp):
            lim.append(self.mag_limit)
            return ns

    ns = ctx.real("nstar", 0, 1)
    m.exgal_coaddm5, m.star_density_metric, m.galaxy_counts_metric = Ex(), St(), type("Ga", (), {"run": lambda self, d, sp: ng})()
    mg, mi = ctx.real("mg", -12, 0), ctx.real("mi", -12, 0)
    flag = ctx.choice("flag", ["g", "i", None])
    asked = []

    def find(g, i, need, lg, li, distlim=None, rng=None):
        asked.append((g, i, need, lg, li, distlim, rng))
        return mg, mi, 30.0, 30.0, flag

    old = lv._dwarf_sblimit
    lv._dwarf_sblimit = find
    try:
        got = m.run(ctx.rec({"band": b, M5: [24.0] * n}, {"band": "U"}), {"distance": 2.5, "ra": 0, "dec": 0, "sid": 0})
    finally:
        lv._dwarf_sblimit = old
    if "g" not in b or "i" not in b or bool(sor(g5 < 15, i5 < 15)):
        ctx.check(not is_sym(got) and got == -666 and not asked, "both bands are needed, deep enough")
        return
    ctx.check(sorted(sets) == [["g"], ["i"]], "the depth of each band is that of its visits")
    ctx.close(lim[0], -symmax(-i5, -27.9), "stars are counted at the depth in i")
    gal = 1e7 if bool(ng < 10) else ng
    a = asked[0]
    ctx.check(len(asked) == 1 and a[3:5] == ("G", "I") and a[6] == "R", "found once")
    ctx.closes([a[0], a[1]], [g5, i5], "depths")
    ctx.close(a[5], 4.0 if fixed else 2.5, "the distance given, or that of the galaxy")
    ctx.close(a[2] * a[2], m.nsigma**2 * (gal / 3600.0 * 0.125 + ns * 3600.0 * 0.25), "stars above the fluctuations of the background", tol=1e-6)
    if flag is None:
        ctx.check(not is_sym(got) and got == -666, "none found")
    else:
        ctx.close(got, mg - 0.371 * (mg - mi) - 0.068, "magnitude in V")
