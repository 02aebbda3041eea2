"""Cosmology and galaxy-count summaries."""

import contextlib
import importlib
import io
import warnings
from fractions import Fraction

import healpy as hp
import numpy as np
import scipy

import rubin_sim.maf.metrics.cosmology_summary_metrics as cm
from harness.lib import *  # noqa: F401,F403
from harness.c30 import swapped
from symx import core

ge = importlib.import_module("rubin_sim.maf.maf_contrib.lss_obs_strategy.galaxy_counts_metric_extended")
gc = importlib.import_module("rubin_sim.maf.maf_contrib.lss_obs_strategy.galaxy_counts_with_pixel_calibration")
cp = importlib.import_module("rubin_sim.maf.maf_contrib.lss_obs_strategy.constants_for_pipeline")
dl = importlib.import_module("rubin_sim.maf.maf_contrib.depth_limited_num_gal_metric")
lm = importlib.import_module("rubin_sim.maf.maf_contrib.lss_metrics")

P = "C31"
R = "rubin_sim/maf/"
CS = R + "metrics/cosmology_summary_metrics.py:"
CO = R + "maf_contrib/"
assumptions(P, "angular power spectra, the removal of monopole and dipole, numerical integration and the complementary error function are abstract functions of their arguments; the throughput curves are replaced")


@harness(P, [CS + "TotalPowerMetric.run"], "a power spectrum of 4 to 6 multipoles of any size, any limits, any mask value, with and without monopole and dipole", quick=[{"n": 4}, {"n": 6}], budget=120)
def total_power(ctx, n):
    m = ctx.reals("m", 12, -5, 5)
    cl = ctx.reals("cl", n, 0, 10)
    mono, dip = ctx.bool("mono"), ctx.bool("dip")
    lo, hi = ctx.choice("lo", [0.0, 1.0, 1.5, 2]), ctx.choice("hi", [2.0, 2.5, 3, 9])
    bad = ctx.choice("bad", [hp.UNSEEN, -666.0])
    seen = []

    class Map(list):
        done = ()

    def remove(kind):
        def f(x, nest=False, bad=hp.UNSEEN, **kw):
            r = Map(list(x))
            r.done = getattr(x, "done", ()) + ((kind, bad),)
            return r
        return f

    def ana(x, *a, **kw):
        seen.append(x)
        return ctx.arr(cl)

    met = cm.TotalPowerMetric(lmin=lo, lmax=hi, remove_monopole=mono, remove_dipole=dip, mask_val=bad)
    with swapped(hp, remove_monopole=remove("mono"), remove_dipole=remove("dip"), anafast=ana):
        got = met.run(ctx.rec({"metricdata": m}))
    want = osum([c * (2 * i + 1) for i, c in enumerate(cl) if lo <= i <= hi])
    ctx.close(got, want, "the power of every multipole between the limits, both included")
    ctx.eq(len(seen), 1, "one power spectrum")
    done = getattr(seen[0], "done", ())
    # (removing the dipole removes the mean as well)
    ctx.check(("dip" in [k for k, _ in done]) == dip, "the dipole is removed if asked")
    ctx.check(not mono or bool(done), "the monopole is removed if asked")
    ctx.check(mono or dip or not done, "nothing is removed if not asked")
    ctx.check(all(b == bad for _, b in done), "masked pixels take no part")
    for a, b in zip(list(seen[0]), m):
        ctx.eq(a, b, "the map given")


F9 = [float(x) for x in np.polyfit([0.2, 0.4, 0.7, 1.0], [1e-3, 2e-3, 5e-3, 1.1e-2], 2)]


def mad(v):
    c = omedian(v)
    return omedian([oabs(x - c) for x in v])


NGP = None


def _north():
    global NGP
    if NGP is None:
        ra, dec = hp.pix2ang(1, np.arange(12), lonlat=True)
        # north galactic pole at 192.85948, +27.12825
        a0, d0 = np.radians(192.85948), np.radians(27.12825)
        sb = np.sin(d0) * np.sin(np.radians(dec)) + np.cos(d0) * np.cos(np.radians(dec)) * np.cos(np.radians(ra) - a0)
        NGP = [bool(x >= 0) for x in sb]
    return NGP


@contextlib.contextmanager
def symbolic_mad(ctx):
    if not ctx.symbolic:
        yield
        return
    with swapped(cm, median_abs_deviation=lambda v: mad(list(v))):
        yield


@harness(P, [CS + "get_stats_by_region", CS + "_is_ngp"], "12 pixels, up to 4 of them in the region observed with any value, the rest of it empty", quick=[{"n": 1}, {"n": 2}, {"n": 3}], thorough=[{"n": 4}], budget=200)
def regions(ctx, n):
    north = _north()
    region = ctx.choice("region", ["all", "north", "south"])
    v = ctx.reals("v", n, -1, 5)
    mask = ctx.choice("mask", [0, 0.5])
    values = [0.0] * 12
    N, S = [i for i in range(12) if north[i]], [i for i in range(12) if not north[i]]
    idx = {"north": N[:n], "south": S[-n:], "all": [N[1], S[0], N[3], S[4]][:n]}[region]
    for i in range(12):
        if i not in idx and region != "all" and north[i] != (region == "north"):
            values[i] = 1.5 + i
    for i, x in zip(idx, v):
        values[i] = x
        ctx.assume(oabs(x - mask) > 1e-6)
    use = [x for i, x in enumerate(values) if bool(x > mask) and (region == "all" or north[i] == (region == "north"))]
    if not use:
        ctx.skip()
    with symbolic_mad(ctx):
        got = cm.get_stats_by_region(ctx.arr(values), 1, maskval=mask, region=region)
    ctx.close(got[0], mad(use), "median absolute deviation of the observed pixels of the region")
    ctx.close(got[1], omedian(use), "median")
    ctx.close(got[2] * got[2], ovar(use), "standard deviation")
    _, e = ctx.call(cm.get_stats_by_region, ctx.arr(values), 1, region="east")
    ctx.check(isinstance(e, ValueError), "unknown regions are refused")


@harness(P, [CS + "stripiness_test_statistic", CS + "get_stats_by_region"], "12 pixels, up to 3 in each hemisphere observed with any exposure time", quick=[{"n": 2}, {"n": 3}], budget=200)
def stripes(ctx, n):
    north = _north()
    v = ctx.reals("v", 2 * n, 0.1, 5)
    drop = ctx.bool("drop")
    values = [hp.UNSEEN] * 12
    N, S = [i for i in range(12) if north[i]][:n], [i for i in range(12) if not north[i]][:n]
    for i, x in zip(N + S, v):
        values[i] = x
    if drop:
        values[N[0]] = hp.UNSEEN
    a = [values[i] for i in N if not (drop and i == N[0])]
    b = [values[i] for i in S]
    ma, mb = mad(a), mad(b)
    ctx.assume(mb > 1e-3)
    with symbolic_mad(ctx):
        got = cm.stripiness_test_statistic(ctx.arr(values), 1)
    want = (ma / omedian(a)) / (mb / omedian(b)) - 1
    ctx.close(got, want, "fractional scatter of the north over that of the south, less one", tol=1e-6)


@harness(P, [CS + "StripinessMetric.run"], "12 pixels, any of them masked, flagged bad, not a number or observed", quick=[{}], budget=120)
def stripiness(ctx):
    dt = [("exgal_m5", float), ("riz_exptime", float)]
    kinds = [ctx.choice("k%d" % i, ["ok", "masked", "bad", "nan", "inf"]) for i in range(3)]
    data = np.empty(12, dtype=[("metricdata", object)])
    want = []
    for i in range(12):
        k = kinds[i] if i < 3 else "ok"
        val = 10.0 + 3 * i + (i % 2) * 40
        x = {"ok": val, "bad": -666.0, "nan": np.nan, "inf": np.inf}.get(k, 0)
        data["metricdata"][i] = hp.UNSEEN if k == "masked" else np.array([(25.0, x)], dtype=dt)
        want.append(val if k == "ok" else hp.UNSEEN)
    seen = []
    year = ctx.choice("year", [1, 10])
    with swapped(cm, stripiness_test_statistic=lambda d, nside: seen.append((list(d), nside)) or 0.25):
        got = cm.StripinessMetric(year=year, nside=1, verbose=False).run(data)
    ctx.eq(got, 0.25, "the test statistic")
    ctx.eq(seen[0][1], 1, "at the resolution of the map")
    ctx.eq(len(seen[0][0]), 12, "of every pixel")
    for a, b in zip(seen[0][0], want):
        ctx.eq(float(a), b, "exposure time, or the mark of an empty pixel")


@harness(P, [CS + "TomographicClusteringSigma8biasMetric.run"], "1 to 3 redshift bins with any spurious power and given sky fractions, or one bin with any sky fraction, or (as sigma8) given powers and fractions; 12 pixels any of which masked or not a number", quick=[{"nb": 1, "free": "power"}, {"nb": 2, "free": "power"}, {"nb": 1, "free": "area"}, {"nb": 2, "free": "sigma8"}], thorough=[{"nb": 3, "free": "power"}], budget=120)
def sigma8(ctx, nb, free):
    model = {"lmax": np.array([14, 18, 13][:nb]), "poly1d_coefs_loglog": np.array([[-1.0, 0.3], [-0.7, -0.2], [0.1, -2.0]][:nb]), "sigma8square_model": 0.64}
    conv = free == "sigma8"
    power = ctx.reals("power", nb, 0.0, 10) if free == "power" else [ctx.choice("power%d" % i, [2.0, 0.5]) for i in range(nb)]
    area = ctx.reals("area", nb, 1000, 40000) if free == "area" else [ctx.choice("area%d" % i, [18000.0, 4200.0]) for i in range(nb)]
    mult = ctx.choice("mult", [0.1, 0.5])
    met = cm.TomographicClusteringSigma8biasMetric(model, power_multiplier=mult, lmin=10, convert_to_sigma8=conv)
    maps = [[], []]
    for i, t in enumerate(met.totalPowerMetrics):
        ctx.eq((t.lmin, t.lmax), (10, model["lmax"][i]), "limits of the power in each bin")
    masked = ctx.bool("masked")
    nan = ctx.bool("nan")
    rows = [[1.0 + i + 0.1 * j for j in range(nb)] for i in range(12)]
    if nan:
        rows[3][0] = np.nan
    data = np.empty(12, dtype=[("metricdata", object)])
    for i, r in enumerate(rows):
        data["metricdata"][i] = np.array(r)
    if masked:
        data["metricdata"][1] = hp.UNSEEN

    def fake(which, values, k=None):
        def run(d):
            maps[which].append([float(x) for x in d["metricdata"]])
            return values[len(maps[which]) - 1 if k is None else k]
        return run

    met.areaThresholdMetric = type("A", (), {"run": staticmethod(fake(0, area))})()
    met.totalPowerMetrics = [type("T", (), {"run": staticmethod(fake(1, power, i))})() for i in range(nb)]
    got = met.run(data)
    for which, what in ((0, "area"), (1, "power")):
        ctx.eq(len(maps[which]), nb, "one %s per bin" % what)
        for j in range(nb):
            for i in range(12):
                w = hp.UNSEEN if (masked and i == 1) or (nan and i == 3 and j == 0) else rows[i][j]
                ctx.eq(maps[which][j][i], w, "map of each bin, empty pixels marked")
    fot = ftt = 0.0
    for i in range(nb):
        f = area[i] / 42000
        l = range(10, int(model["lmax"][i]))
        c = [math.exp(model["poly1d_coefs_loglog"][i][0] * math.log(x) + model["poly1d_coefs_loglog"][i][1]) for x in l]
        t = sum(x * (2 * y + 1) for x, y in zip(c, l))
        o = t + (power[i] / f) * mult
        var = sum(2 * x * x * (2 * y + 1) for x, y in zip(c, l)) / f
        fot = fot + (t / 0.64) * o / var
        ftt = ftt + (t / 0.64) * (t / 0.64) / var
    fit = fot / ftt
    err = ftt ** -0.5
    if free == "area":
        ctx.check(got > 0, "the spurious power adds to the signal")
        ctx.close(got * got, (fit - 0.64) * (fit - 0.64) * ftt, "bias in units of its uncertainty", tol=1e-6)
    elif not conv:
        ctx.close(got, (fit - 0.64) / err, "bias in units of its uncertainty", tol=1e-6)
    else:
        ctx.close(got, (fit ** 0.5 - 0.8) / (0.5 * err * (fit ** 0.5) / fit), "bias of sigma8 in units of its uncertainty", tol=1e-6)


@harness(P, [CS + "MultibandMeanzBiasMetric.run"], "two bands, 2 or 3 redshift bins, any scatter in depth; masked and undefined pixels", quick=[{"nz": 2}, {"nz": 3}], budget=120)
def meanz(ctx, nz):
    rms = ctx.reals("rms", 2, 0, 1)
    year = ctx.choice("year", [1, 10])
    zs = {"g": [0.3, 0.55, 0.9], "r": [0.25, 0.5, 1.1]}
    dz = {"g": [0.01, -0.02, 0.03], "r": [-0.04, 0.01, 0.02]}
    model = {"year%d" % y: {"meanz": [{b: zs[b][i] + 0.001 * y for b in zs} for i in range(3)], "dz_dm5": [{b: dz[b][i] * (1 + y) for b in dz} for i in range(3)]} for y in (1, 2, 10, 11)}
    met = cm.MultibandMeanzBiasMetric(model, filter_list=["g", "r"], year=year, zbins=nz)
    s = [float(x) for x in met.rms_func(np.array([[1.0, np.nan, 3.0], [2.0, 2.0, 8.0]]), axis=1)]
    ctx.close(s[0], 1.0, "scatter of the valid pixels")
    ctx.close(s[1], math.sqrt(8.0), "scatter of the valid pixels")
    seen = []

    def scatter(a, axis=None):
        seen.append((np.array(a, dtype=float), axis))
        return ctx.arr(rms)

    met.rms_func = scatter
    masked, inf = ctx.bool("masked"), ctx.bool("inf")
    data = np.empty(4, dtype=[("metricdata", object)])
    for i in range(4):
        data["metricdata"][i] = np.array([20.0 + i, np.inf if (inf and i == 2) else 30.0 + i])
    if masked:
        data["metricdata"][1] = np.nan

    def polyfit(x, y, deg):
        """Least squares by the normal equations, exact in the abscissae."""
        x, y = [Fraction(float(v)) for v in x], list(y)
        A = [[sum(v ** (i + j) for v in x) for j in range(deg + 1)] for i in range(deg + 1)]
        inv = [r + [Fraction(int(i == j)) for j in range(deg + 1)] for i, r in enumerate(A)]
        for i in range(deg + 1):
            d = inv[i][i]
            inv[i] = [v / d for v in inv[i]]
            for k in range(deg + 1):
                if k != i:
                    f = inv[k][i]
                    inv[k] = [v - f * w for v, w in zip(inv[k], inv[i])]
        c = []
        for i in range(deg + 1):
            w = [float(sum(inv[i][deg + 1 + j] * v ** j for j in range(deg + 1))) for v in x]
            c.append(osum([u * v for u, v in zip(w, y)]))
        return ctx.arr(c[::-1])

    def poly1d(c):
        c = list(c)

        def f(x):
            out = 0.0
            for v in c:
                out = out * x + v
            return out
        return f

    with contextlib.ExitStack() as st:
        if ctx.symbolic:
            st.enter_context(swapped(np, polyfit=polyfit, poly1d=poly1d))
        got = met.run(data)
    a, axis = seen[0]
    ctx.eq(a.shape, (2, 4), "a map per band")
    for j in range(2):
        for i in range(4):
            w = np.nan if (masked and i == 1) or (inf and i == 2 and j == 1) else 20.0 + 10 * j + i
            ctx.check((np.isnan(w) and np.isnan(a[j][i])) or a[j][i] == w, "depths, undefined where masked or not finite")
    ctx.check(axis in (1, -1), "scatter over the sky")
    p = F9
    tot = [0.0] * nz
    for j, b in enumerate("gr"):
        x = [zs[b][i] + 0.001 * (year + 1) for i in range(nz)]
        y = [(p[0] * z * z + p[1] * z + p[2]) * (abs(dz[b][i]) * (2 + year)) / 0.02 * rms[j] for i, z in enumerate(x)]
        mx = sum(x) / nz
        sx = sum((v - mx) ** 2 for v in x)
        s = osum([w * ((v - mx) / sx) for v, w in zip(x, y)])
        c = osum(y) / nz - s * mx
        tot = [t + s * v + c for t, v in zip(tot, x)]
    for i in range(nz):
        ctx.close(got["y1ratio"][i], tot[i] / 0.013, "bias of every bin, summed over bands, over the year 1 goal", tol=1e-7)
        ctx.close(got["y10ratio"][i], tot[i] / 0.003, "and over the year 10 requirement", tol=1e-7)


GRID = {
    1: ([7500, 13000, 16000], [24.9, 25.2, 25.5], [[121.2257, 146.2689, 174.4913], [193.0906, 236.5094, 284.9131], [231.6956, 285.1547, 344.5717]]),
    3: ([10000, 15000, 20000], [25.5, 25.8, 26.1], [[171.0645, 224.6047, 243.1472], [244.5209, 325.0737, 351.6395], [317.3144, 424.9317, 459.5133]]),
    6: ([10000, 15000, 20000], [25.9, 26.1, 26.3], [[234.6060, 241.4678, 285.2043], [340.2318, 349.3120, 414.8814], [445.2766, 456.5497, 543.6992]]),
    10: ([10000, 15000, 20000], [26.3, 26.5, 26.7], [[288.7266, 295.3230, 336.1616], [420.0093, 429.2111, 490.5306], [550.4419, 562.4697, 644.1837]]),
}


def bilinear(xs, ys, z):
    """Linear interpolation on a grid, constant beyond its edges."""
    def weights(g, v):
        if bool(v <= g[0]):
            return [1.0, 0.0, 0.0]
        if bool(v >= g[2]):
            return [0.0, 0.0, 1.0]
        if bool(v <= g[1]):
            t = (v - g[0]) / (g[1] - g[0])
            return [1 - t, t, 0.0]
        t = (v - g[1]) / (g[2] - g[1])
        return [0.0, 1 - t, t]

    def f(x, y):
        wx, wy = weights(xs, x), weights(ys, y)
        return osum([wx[i] * wy[j] * z[i][j] for i in range(3) for j in range(3)])
    return f


@harness(P, [CS + "StaticProbesFoMEmulatorMetricSimple.run"], "48 pixels with 1 to 3 depths of any size and 0 to 45 others observed, every year with a table", quick=[{"n": 1}, {"n": 2}, {"n": 3}], budget=200)
def figure_of_merit(ctx, n):
    year = ctx.choice("year", [1, 3, 6, 10, 4])
    extra = ctx.choice("extra", [0, 13, 14, 20])
    d = ctx.reals("d", n, -1, 28)
    for x in d:
        ctx.assume(oabs(x) > 1e-6)
    for i in range(n):
        for j in range(i):
            ctx.assume(oabs(d[i] - d[j]) > 1e-6)
    base = d[0]
    ctx.assume(base > 0)
    # (the other pixels share the first depth, or are empty)
    rest = [base] * extra + [-1.0] * (48 - n - extra)
    made = []

    def spline(x, y, z, kx=3, ky=3, **kw):
        xs, ys, zs = [float(v) for v in x], [float(v) for v in y], [[float(w) for w in r] for r in z]
        made.append((kx, ky))
        f = bilinear(xs, ys, zs)
        if kx != 1 or ky != 1:
            raise AssertionError("not linear")
        return lambda a, b, **k: np.array([[f(a, b)]], dtype=object) if k.get("grid", True) else f(a, b)

    med = [x for x in d if bool(x > 0)] + [base] * extra
    depth = omedian(med)
    for g in (GRID[year][1] if year in GRID else []):
        ctx.assume(oabs(depth - g) > 1e-6)
    data = ctx.rec({"metricdata": d + rest})
    met = cm.StaticProbesFoMEmulatorMetricSimple(year=year)
    with warnings.catch_warnings(), contextlib.ExitStack() as st:
        warnings.simplefilter("ignore")
        if ctx.symbolic:
            st.enter_context(swapped(cm.interpolate, RectBivariateSpline=spline))
        got = met.run(data)
    if year not in GRID:
        ctx.eq(got, met.badval, "no table for this year")
        return
    area = hp.nside2pixarea(2, degrees=True) * len(med)
    ctx.close(got, bilinear(*GRID[year])(area, depth), "figure of merit at the area observed and its median depth, linear in both", tol=1e-6)


def erfc(x):
    return core.symuf("erfc", x) if is_sym(x) else math.erfc(x)


@contextlib.contextmanager
def integrals(ctx, mag, total, log):
    """Integration that looks at the integrand at one arbitrary magnitude and finds an arbitrary total."""
    def quad(f, lo, hi, args=(), **kw):
        args = args if isinstance(args, tuple) else (args,)
        log.append((lo, hi, f(mag, *args), args))
        return total, 1e-9

    with swapped(scipy.integrate, quad=quad), swapped(scipy.special, erfc=lambda x: erfc(x)):
        yield


BINS = ["0.<z<0.15", "0.66<z<1.0", "3.5<z<4.0"]
SHIFT = {b: k * 0.4 for b, k in zip("ugrizy", (-3.0, -2.0, -1.0, 0.0, 1.0, 2.0))}


def counts(kind, band, m):
    x = m + SHIFT.get(band, 0.0)
    if kind == "cfht":
        return 46.0 * 3600.0 * ten(0.31 * (x - 25.0))
    keys = list(cp.power_law_const_a) if kind not in cp.power_law_const_a else [kind]
    return osum([ten(cp.power_law_const_a[k] * x + cp.power_law_const_b[k]) for k in keys])


@harness(P, [CO + "lss_obs_strategy/galaxy_counts_metric_extended.py:GalaxyCountsMetricExtended.run", CO + "lss_obs_strategy/galaxy_counts_metric_extended.py:GalaxyCountsMetricExtended._gal_count"],
         "2 visits in any bands, any depth, dust, magnitude limit and total; every band and a sample of redshift bins", quick=[{"dust": True}, {"dust": False}], budget=200)
def galaxies(ctx, dust):
    band = ctx.choice("band", list("ugrizy") + ["x"])
    kind = ctx.choice("kind", ["all", "cfht", "nonsense", BINS[1]])
    norm = ctx.bool("norm")
    bands = ctx.choice("bands", [[band, band], ["w", band], ["w", "w"]])
    depth, mag, total = ctx.real("depth", 0, 30), ctx.real("mag", 15, 30), ctx.real("total", 0, 100)
    top = ctx.choice("top", [32.0, 25.3])
    col = ctx.choice("col", ["band", "flt"])
    ctx.assume(oabs(depth - 1) > 1e-6)
    seen = []
    made = []

    class Depth:
        maps = ["DustMap"] if dust else []
        badval = -666

        def __init__(self, *a, **kw):
            made.append((a, kw))

        def run(self, d, sp=None, slice_point=None):
            seen.append((list(d[col]), sp if sp is not None else slice_point))
            return depth

    with contextlib.ExitStack() as st:
        st.enter_context(swapped(ge, **{"ExgalM5" if dust else "Coaddm5Metric": Depth}))
        met = ge.GalaxyCountsMetricExtended(m5_col="m5", filter_col=col, nside=16, upper_mag_limit=top, include_dust_extinction=dust, filter_band=band, redshift_bin="all" if kind == "cfht" else kind, cfht_ls_counts=kind == "cfht", normalized_mock_catalog_counts=norm)
        ctx.check(set(met.maps) == set(Depth.maps), "maps of the depth")
        ctx.check({"m5", col} == set(met.col_name_arr), "columns read")
        ctx.check(made[0][1].get("m5_col", (made[0][0] or [None])[0]) == "m5", "depth column")
        if dust:
            ctx.check(made[0][1].get("filter_col", "band") == col, "filter column")
        log = []
        sp = {"ebv": 0.1}
        st.enter_context(integrals(ctx, mag, total, log))
        st.enter_context(warnings.catch_warnings())
        warnings.simplefilter("ignore")
        got = met.run(ctx.rec({"m5": [25.0, 24.0], col: bands}, {col: "U"}), sp)
    n = bands.count(band)
    if n == 0:
        ctx.eq(got, met.badval, "no visits in the band")
        return
    ctx.eq(len(seen[0][0]), n, "depth of the visits in the band")
    ctx.check(seen[0][1] is sp, "at the position")
    if bool(depth < 1):
        ctx.close(got, 0.0, "no galaxies without depth")
        return
    lo, hi, f, _ = log[-1]
    ctx.check(lo == -np.inf and hi == top, "up to the limiting magnitude")
    ctx.close(f, counts(kind, band, mag) * (0.5 * erfc(mag - depth)), "galaxies of each magnitude times completeness", tol=1e-6)
    t = total * cp.normalization_constant if (norm and kind != "cfht") else total
    ctx.assume(oabs(t - 1.0) > 1e-6)
    ctx.close(got, ite(t < 1.0, 0.0, t * (41253.0 / (12 * 256))), "scaled to the pixel, none if less than one per square degree", tol=1e-6)


@harness(P, [CO + "lss_obs_strategy/galaxy_counts_with_pixel_calibration.py:galaxy_counts_with_pixel_calibration"], "any depth, magnitude limit and total, every band, a sample of redshift bins", quick=[{}], budget=120)
def calibrated(ctx):
    band = ctx.choice("band", list("ugrizy") + ["x"])
    kind = ctx.choice("kind", ["all", "cfht", "nonsense"] + BINS)
    norm = ctx.bool("norm")
    depth, mag, total = ctx.real("depth", -700, 30), ctx.real("mag", 15, 30), ctx.real("total", 0, 100)
    top = ctx.choice("top", [32.0, 25.3])
    ctx.assume(oabs(depth - 1) > 1e-6)
    log = []
    with integrals(ctx, mag, total, log), contextlib.redirect_stdout(io.StringIO()):
        got = gc.galaxy_counts_with_pixel_calibration(depth, top, nside=8, filter_band=band, redshift_bin="all" if kind == "cfht" else kind, cfhtls_counts=kind == "cfht", normalized_mock_catalog_counts=norm)
    if bool(depth < 1):
        ctx.close(got, 0.0, "no galaxies without depth")
        return
    lo, hi, f, _ = log[-1]
    ctx.check(lo == -np.inf and hi == top, "up to the limiting magnitude")
    ctx.close(f, counts(kind, band, mag) * (0.5 * erfc(mag - depth)), "galaxies of each magnitude times completeness", tol=1e-6)
    t = total * cp.normalization_constant if (norm and kind != "cfht") else total
    ctx.assume(oabs(t - 1.0) > 1e-6)
    ctx.close(got, ite(t < 1.0, 0.0, t * (41253.0 / (12 * 64))), "scaled to the pixel, none if less than one per square degree", tol=1e-6)


@harness(P, [CO + "lss_metrics.py:GalaxyCountsMetric.run", CO + "lss_metrics.py:GalaxyCountsMetric._gal_count", CO + "depth_limited_num_gal_metric.py:DepthLimitedNumGalMetric.run"],
         "any depth and total; inside or outside the extragalactic footprint, visits in two bands", quick=[{}], budget=120)
def footprint(ctx):
    depth, mag, total = ctx.real("depth", 1, 30), ctx.real("mag", 15, 30), ctx.real("total", 0, 100)
    made, seen = [], []

    class Part:
        maps = ["DustMap"]
        badval = -666
        col_name_arr = np.array(["m5", "band"])
        value = None

        def __init__(self, *a, **kw):
            made.append((type(self).__name__, kw))

        def run(self, d, sp=None, slice_point=None):
            seen.append((type(self).__name__, list(d["band"]), sp if sp is not None else slice_point))
            return self.value

    sp = {"ebv": 0.1}
    log = []
    one = type("One", (Part,), {"value": depth})
    bands = [ctx.choice("b%d" % i, ["i", "r"]) for i in range(2)]
    data = ctx.rec({"m5": [25.0, 24.0], "band": bands}, {"band": "U"})
    with swapped(lm, ExgalM5=one), integrals(ctx, mag, total, log):
        met = lm.GalaxyCountsMetric(m5_col="m5", nside=8)
        got = met.run(data, sp)
    ctx.check(seen[-1][2] is sp, "depth at the position")
    ctx.check("DustMap" in met.maps, "declares the dust it needs")
    lo, hi, f, _ = log[-1]
    ctx.check(lo == -np.inf and hi == 32, "up to magnitude 32")
    ctx.close(f, 10.0 ** -3.52 * ten(0.34 * mag) * (0.5 * erfc(mag - depth)), "galaxies of each magnitude times completeness", tol=1e-6)
    ctx.close(got, total * (41253.0 / 768 / 5000.0), "scaled to the pixel", tol=1e-6)
    # only inside the extragalactic footprint
    cut = ctx.choice("cut", [-666, 26.3])
    eg = type("Eg", (Part,), {"value": cut})
    gm = type("Gal", (Part,), {"value": total})
    with swapped(dl, GalaxyCountsMetric=gm), swapped(dl.metrics, ExgalM5WithCuts=eg):
        made.clear()
        seen.clear()
        met = dl.DepthLimitedNumGalMetric(m5_col="m5", nside=8, filter_band="i", nfilters_needed=5, lim_mag_i_ptsrc=25.5, lim_ebv=0.15)
        got = met.run(data, sp)
    kw = dict(made)
    ctx.close(kw["Gal"]["upper_mag_limit"], 24.8, "extended sources are seen 0.7 magnitudes less deep")
    ctx.eq((kw["Gal"]["filter_band"], kw["Gal"]["nside"], kw["Eg"]["lsst_filter"]), ("i", 8, "i"), "band and resolution")
    ctx.eq((kw["Eg"]["n_filters"], kw["Eg"]["extinction_cut"], kw["Eg"]["depth_cut"]), (5, 0.15, 25.5), "limits of the footprint")
    ctx.check("DustMap" in met.maps, "declares the dust it needs")
    ctx.eq(len(seen[0][1]), 2, "the footprint is judged on all bands")
    if cut == -666:
        ctx.eq(got, met.badval, "outside the footprint")
    else:
        ctx.close(got, total, "galaxies in the pixel")
        ctx.check(seen[-1][0] == "Gal" and seen[-1][1] == [b for b in bands if b == "i"] and seen[-1][2] is sp, "from the visits in the band")
