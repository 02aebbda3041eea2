"""Sky brightness: interpolation of the components and the sky they add up to."""

import contextlib
import sys
import warnings

import numpy as np

import rubin_sim.skybrightness.interp_components as ic
import rubin_sim.skybrightness.sky_model as sm
import rubin_sim.skybrightness.twilight_func  # noqa: F401
from harness.lib import *  # noqa: F401,F403

tf = sys.modules["rubin_sim.skybrightness.twilight_func"]
P = "C24"
I = "rubin_sim/skybrightness/interp_components.py:"
M = "rubin_sim/skybrightness/sky_model.py:"
W = "rubin_sim/skybrightness/twilight_func.py:"
assumptions(P, "the component templates (data files) are replaced by small grids of any values; healpix interpolation weights are replaced by any weights on four pixels; flux of the spectra below one unit (the code takes a logarithm of exactly zero to mean no flux); positions of the sun and the moon (astropy) and the equatorial to horizontal transformation (rubin_scheduler) are taken as given")
BANDS = ["u", "g", "r", "i", "z", "y"]


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def ctx2d(ctx, rows):
    """A two-dimensional array of possibly symbolic numbers."""
    if ctx.symbolic:
        from symx import symnp
        a = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                a[i, j] = v
        return a.view(symnp.SymArray)
    return np.array(rows, dtype=float)


@contextlib.contextmanager
def templates(spec, wave):
    old = ic.load_spec_files, ic.glob.glob
    ic.load_spec_files = lambda names, mags=False: (spec, np.array(wave), np.arange(6.0))
    try:
        yield
    finally:
        ic.load_spec_files = old[0]


@harness(P, [I + "id2intid", I + "intid2id"], "1 to 4 names that are any integers, in any order, with repetitions", quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": 4}], budget=100)
def names(ctx, n):
    v = ctx.ints("v", n, -50, 50)
    ids = ctx.arr(v, kind="i")
    got, uids, uint = ic.id2intid(ids)
    u = ounique(v)
    ctx.check(len(uids) == len(u) and [int(q) for q in uint] == list(range(len(u))), "one running number for each name")
    for a, b in zip(list(uids), u):
        ctx.eq(a, b, "names in order")
    for i in range(n):
        k = [j for j, q in enumerate(u) if bool(q == v[i])][0]
        ctx.eq(got[i], k, "running number of each entry's own name")
    back = ic.intid2id(got, uint, uids)
    for i in range(n):
        ctx.eq(back[i], v[i], "and back")


def line(x, grid, vals):
    """Linear interpolation on a grid, the edge value beyond it (forks)."""
    if bool(x <= grid[0]):
        return vals[0]
    for k in range(len(grid) - 1):
        if bool(x <= grid[k + 1]):
            f = (x - grid[k]) / (grid[k + 1] - grid[k])
            return vals[k] * (1 - f) + vals[k + 1] * f
    return vals[-1]


@harness(P, [I + "BaseSingleInterp._indx_and_weights"], "1 to 3 points anywhere (on, between, below or above the grid points), in any order, uneven grids of 2 to 4 points with any values", quick=[{"n": n, "g": g} for n, g in ((1, 2), (1, 3), (1, 4), (2, 3), (3, 2))], thorough=[{"n": 3, "g": 3}], budget=150)
def weights(ctx, n, g):
    grid = [1.0, 1.5, 3.0, 3.5][:g]
    vals = ctx.reals("v", g, -10, 10)
    x = ctx.reals("x", n, 0, 5)
    b = ic.BaseSingleInterp.__new__(ic.BaseSingleInterp)
    r, l, wr, wl = b._indx_and_weights(ctx.arr(x), ctx.arr(grid))
    for i in range(n):
        ctx.close(wr[i] * vals[int(r[i])] + wl[i] * vals[int(l[i])], line(x[i], grid, vals), "linear between grid points, the edge value off the grid")


@harness(P, [I + "BaseSingleInterp.__init__", I + "BaseSingleInterp.__call__", I + "BaseSingleInterp._weighting", I + "BaseSingleInterp.interp_mag", I + "BaseSingleInterp.interp_spec", I + "ScatteredStar.__init__", I + "MergedSpec.__init__"],
         "1 or 2 points of any airmass (inside and outside the templates), templates at 3 airmasses with any magnitudes or spectra (some of them zero), any selection and order of bands", quick=[{"n": 1, "mags": True}, {"n": 2, "mags": True}, {"n": 1, "mags": False}, {"n": 2, "mags": False}], budget=150)
def single(ctx, n, mags):
    grid = [1.0, 1.5, 2.5]
    m = [[ctx.real("m%d_%d" % (i, j), 15, 25) if j in (1, 4) else 20.0 + i + j for j in range(6)] for i in range(3)]
    f = [[ctx.real("f%d_%d" % (i, j), 0.01, 0.9) if j < 1 else 0.0 for j in range(2)] for i in range(3)]
    spec = {"airmass": ctx.arr(grid), "nightTimes": np.zeros(3), "mags": ctx2d(ctx, m), "spectra": ctx2d(ctx, f)}
    x = ctx.reals("x", n, 0.8, 3)
    for q in x:
        for k in grid:
            ctx.assume(sor(q == k, oabs(q - k) > 1e-6))
    names = ctx.choice("names", [BANDS, ["z", "g"]]) if mags else BANDS
    cls = ctx.choice("cls", [ic.ScatteredStar, ic.MergedSpec])
    with templates(spec, [300.0, 301.0]):
        c = cls(mags=mags)
    out = c(ctx.rec({"airmass": x}), filter_names=names)
    got = out["spec"]
    ctx.check(got.shape == (n, len(names) if mags else 2), "a row for each point")
    for i in range(n):
        inside = bool(x[i] >= 1.0) and bool(x[i] <= 2.5)
        if mags:
            for j, b in enumerate(names):
                k = BANDS.index(b)
                v = line(x[i], grid, [r[k] for r in m]) if inside else None
                ctx.close(got[i, j], ten(-0.4 * (v - math.log10(3631.0))) if inside else 0.0, "flux of the interpolated magnitude, nothing outside the templates", tol=1e-6, relative=True) if False else None
                if inside:
                    ctx.close(log10(got[i, j]), -0.4 * (v - math.log10(3631.0)), "magnitude interpolated in airmass", tol=1e-6)
                else:
                    ctx.close(got[i, j], 0.0, "nothing outside the templates")
        else:
            ctx.close(got[i, 1], 0.0, "no flux where the template has none")
            if inside:
                v = line(x[i], grid, [log10(r[0]) for r in f])
                ctx.close(log10(got[i, 0]), v, "logarithm of the flux interpolated in airmass", tol=1e-6)
            else:
                ctx.close(got[i, 0], 0.0, "nothing outside the templates")


@harness(P, [I + "Airglow._weighting", I + "Airglow.__init__"], "1 or 2 points of any airmass and solar flux (each its own), templates on a 2 by 2 or 3 by 2 grid with any values", quick=[{"na": 2, "n": 1}, {"na": 3, "n": 1}, {"na": 2, "n": 2}], budget=150)
def airglow(ctx, na, n):
    ag, sg = [1.0, 1.5, 2.5][:na], [50.0, 130.0]
    vals = [[ctx.real("v%d_%d" % (i, j), 15, 25) for j in range(2)] for i in range(na)]
    rows = [[vals[i][j]] + [20.0] * 5 for i in range(na) for j in range(2)]
    spec = {"airmass": ctx.arr(list(np.repeat(ag, 2))), "solarFlux": ctx.arr(sg * na), "mags": ctx2d(ctx, rows)}
    x, s = ctx.reals("x", n, 0.8, 3), ctx.reals("s", n, 40, 150)
    with templates(spec, [1.0]):
        c = ic.Airglow(mags=True)
    got = c._weighting(ctx.rec({"airmass": x, "solar_flux": s}), spec["mags"])
    for i in range(n):
        if bool(x[i] >= 1) and bool(x[i] <= ag[-1]) and bool(s[i] >= 50) and bool(s[i] <= 130):
            want = line(s[i], sg, [line(x[i], ag, [vals[a][j] for a in range(na)]) for j in range(2)])
        else:
            want = 0.0
        ctx.close(got[i, 0], want, "bilinear in airmass and solar flux, nothing outside")


@contextlib.contextmanager
def neighbours(pix, w, seen=None):
    def at(nside, theta, phi):
        if seen is not None:
            seen.append((nside, list(theta), list(phi)))
        return np.array(pix), w()

    old = ic.get_neighbours
    ic.get_neighbours = at
    try:
        yield
    finally:
        ic.get_neighbours = old


def share(ctx, known, pix, w):
    """Weights of the pixels that have a template, adding up to one (or nothing)."""
    use = [(p, q) for p, q in zip(pix, w) if p in known]
    tot = sum((q for _, q in use), 0.0)
    return [(p, q / tot) for p, q in use] if use and bool(tot > 0) else []


@harness(P, [I + "MoonInterp._weighting", I + "MoonInterp.__init__"], "1 or 2 points with any weights on four pixels (some without a template), any altitude of the moon and separation from the sun, 2 or 3 templates in each", quick=[{"n": 1}, {"n": 2}], budget=150)
def moon(ctx, n):
    seps, alts, hps = [0.0, 90.0], [-5.0, 30.0, 60.0][:3 if n == 1 else 2], [3, 4, 9]
    vals = {}
    rows = {"moonSunSep": [], "moonAltitude": [], "hpid": [], "mags": []}
    for a in seps:
        for b in alts:
            for c in hps:
                vals[a, b, c] = ctx.real("v%d_%d_%d" % (a, b + 5, c), 15, 25)
                rows["moonSunSep"].append(a), rows["moonAltitude"].append(b), rows["hpid"].append(c), rows["mags"].append([vals[a, b, c]] + [20.0] * 5)
    spec = {k: ctx.arr(v) if k != "hpid" else np.array(v) for k, v in rows.items() if k != "mags"}
    spec["mags"] = ctx2d(ctx, rows["mags"])
    pix = [ctx.choice("pix", [[3, 4, 9, 4], [3, 5, 7, 9], [1, 2, 5, 6]])]
    if n == 2:
        pix.append([9, 4, 5, 3])
    w = [ctx.reals("w%d" % i, 4, 0.1, 1) for i in range(n)]
    alt, sep = ctx.real("alt", -20, 80), ctx.real("sep", 0, 120)
    with templates(spec, [1.0]):
        c = ic.MoonInterp(mags=True)
    pts = ctx.rec({"moonAltitude": [alt] * n, "moonSunSep": [sep] * n, "alt": [0.5 + 0.1 * i for i in range(n)], "azRelMoon": [0.25 + 0.5 * i for i in range(n)]})
    seen = []
    cols = lambda q: [[q[i][k] for i in range(n)] for k in range(4)]
    with neighbours(cols(pix), lambda: ctx2d(ctx, cols(w)), seen):
        got = c._weighting(pts, spec["mags"])
    for _, theta, phi in seen:
        ctx.closes(theta, [math.pi / 2 - 0.5 - 0.1 * i for i in range(n)], "template looked up at the zenith distance of the point")
        ctx.closes(phi, [0.25 + 0.5 * i for i in range(n)], "template looked up at the azimuth from the moon")
    for i in range(n):
        if bool(alt < alts[0]):
            want = 0.0
        else:
            want = sum((q * line(sep, seps, [line(alt, alts, [vals[a, b, p] for b in alts]) for a in seps]) for p, q in share(ctx, hps, pix[i], w[i])), 0.0)
        ctx.close(got[i, 0], want, "interpolated in altitude, separation and position, with the weights of missing pixels given to the others", tol=1e-6)


@harness(P, [I + "ZodiacalInterp._weighting", I + "ZodiacalInterp.__init__"], "1 or 2 points of any airmass with any weights on four pixels, templates of any values at 2 airmasses and 12 pixels", quick=[{"n": 1}, {"n": 2}], budget=150)
def zodiacal(ctx, n):
    ag = [1.0, 2.5]
    v = [[ctx.real("v%d_%d" % (i, p), 15, 25) if p < 5 else 20.0 for p in range(12)] for i in range(2)]
    spec = {"airmass": ctx.arr(list(np.repeat(ag, 12))), "hpid": np.tile(np.arange(12), 2), "mags": ctx2d(ctx, [[v[i][p]] + [20.0] * 5 for i in range(2) for p in range(12)])}
    x = ctx.reals("x", n, 0.8, 3)
    inside = [i for i in range(n) if bool(x[i] >= 1) and bool(x[i] <= 2.5)]
    w = {i: ctx.reals("w%d" % i, 4, 0.1, 1) for i in inside}
    pix = {i: [[0, 1, 2, 3], [4, 2, 11, 0]][i] for i in inside}
    with templates(spec, [1.0]):
        c = ic.ZodiacalInterp(mags=True)
    ctx.check(c.nside == 1, "resolution of the templates")
    pts = ctx.rec({"airmass": x, "altEclip": [0.1 - 0.3 * i for i in range(n)], "azEclipRelSun": [0.2 + 0.5 * i for i in range(n)]})
    seen = []
    if not inside:
        wv = lambda: np.zeros((4, 0))
        pv = np.zeros((4, 0), dtype=int)
    else:
        wv = lambda: ctx2d(ctx, [[w[i][k] for i in inside] for k in range(4)])
        pv = [[pix[i][k] for i in inside] for k in range(4)]
    with neighbours(pv, wv, seen):
        got = c._weighting(pts, spec["mags"])
    for _, theta, phi in seen:
        ctx.closes(theta, [math.pi / 2 - 0.1 + 0.3 * i for i in inside], "template looked up at the ecliptic latitude of the point")
        ctx.closes(phi, [0.2 + 0.5 * i for i in inside], "template looked up at the ecliptic longitude from the sun")
    for i in range(n):
        want = 0.0
        if i in inside:
            t = sum(w[i], 0.0)
            want = sum((q / t * line(x[i], ag, [v[0][p], v[1][p]]) for p, q in zip(pix[i], w[i])), 0.0)
        ctx.close(got[i, 0], want, "interpolated in airmass and position, nothing outside the templates", tol=1e-6)


def twi(ctx, k, alt, am, az, cut=1.0):
    f = k[0] * k[4] * ten(k[1] * (alt + math.radians(12.0)) + k[2] * (am - 1.0))
    if bool(am > cut) and (bool(az < math.pi / 2) or bool(az > 1.5 * math.pi)):
        f = f * ten(k[3] * ouf("cos", az) * (am - 1.0))
    return f


@harness(P, [W + "twilight_func", W + "zenith_twilight"], "1 or 2 points of any airmass and azimuth, any sun altitude and coefficients", quick=[{"n": 1}, {"n": 2}], budget=100)
def twilight(ctx, n):
    args = [ctx.real("r", 0.5, 10), ctx.real("a", 15, 25), ctx.real("b", 0, 0.5), ctx.real("c", 0, 0.5), ctx.real("z", 0.1, 2)]
    alt = ctx.real("alt", -0.35, 0.2)
    am, az = ctx.reals("am", n, 1, 3), ctx.reals("az", n, 0, 6.28)
    pts = ctx.rec({"azRelSun": az, "airmass": am, "sunAlt": [alt] * n})
    got = tf.twilight_func(pts, *args)
    for i in range(n):
        ctx.close(got[i], twi(ctx, args, alt, am[i], az[i]), "fades with the sun and grows with airmass, more towards the sun", tol=1e-6)
    dark = ctx.reals("dark", 2, -0.5, 0.5)
    hpid = [ctx.choice("hp", [0, 1])] + [0] * (n - 1)
    fit = ctx.rec({"azRelSun": az, "airmass": am, "sunAlt": [alt] * n, "hpid": hpid}, {"hpid": "i"})
    both = tf.twilight_func(fit, *(args + dark))
    for i in range(n):
        ctx.close(both[i] - got[i], args[4] * ouf("exp", dark[hpid[i]] * (am[i] - 1.0)), "dark sky of the pixel on top of the twilight", tol=1e-6)
    ctx.close(tf.zenith_twilight(alt, *args), args[0] * args[4] * ten(args[1] * (alt + math.radians(12.0))) + args[4], "zenith twilight over the dark sky", tol=1e-6)


@harness(P, [I + "TwilightInterp.interp_mag", I + "TwilightInterp.__call__"], "1 or 2 points of any airmass and azimuth, any sun altitude, any coefficients of two bands", quick=[{"n": 1}, {"n": 2}], budget=100)
def twilight_bands(ctx, n):
    t = ic.TwilightInterp.__new__(ic.TwilightInterp)
    t.mags, t.filter_name_dict, t.lsst_eff_wave = True, {b: i for i, b in enumerate(BANDS)}, [1, 2, 3, 4, 5, 6]
    eq = [[ctx.real("k%d_%d" % (i, j), 0.1, 2) if i in (1, 4) else 1.0 for j in range(5)] for i in range(6)]
    t.lsst_equations = ctx2d(ctx, eq)
    alt = ctx.real("alt", -0.5, 0.4)
    for lim in (15.0, -20.0):
        ctx.assume(oabs(alt - math.radians(lim)) > 1e-6)
    am, az = ctx.reals("am", n, 0.9, 4), ctx.reals("az", n, 0, 6.28)
    for q in am:
        ctx.assume(sand(oabs(q - 3.0) > 1e-6, oabs(q - 1.0) > 1e-6))
    names = ctx.choice("names", [["g"], ["z", "g"]])
    with quiet():
        got = t(ctx.rec({"azRelSun": az, "airmass": am, "sunAlt": [alt] * n}), filter_names=names)["spec"]
    for i in range(n):
        for j, b in enumerate(names):
            if bool(alt > math.radians(15.0)):
                ctx.check(isnan(got[i, j]), "undefined in daytime")
            elif bool(alt < math.radians(-20.0)) or bool(am[i] > 3) or bool(am[i] < 1):
                ctx.close(got[i, j], 0.0, "no twilight when the sun is far below the horizon or beyond the airmass limit")
            else:
                k = eq[BANDS.index(b)]
                ctx.close(got[i, j], twi(ctx, k, alt, am[i], az[i]), "twilight of the band", tol=1e-6)


@harness(P, [M + "calc_az_rel_moon", M + "inrange", "rubin_sim/skybrightness/utils.py:wrap_ra"], "1 or 2 azimuths and any azimuth of the moon, any values and limits", quick=[{"n": 1}, {"n": 2}], budget=60)
def angles(ctx, n):
    az, moon = ctx.reals("az", n, 0, 6.28), ctx.real("moon", 0, 6.28)
    arr = sm.calc_az_rel_moon(ctx.arr(az), moon)
    for i in range(n):
        d = oabs(az[i] - moon)
        want = 2 * math.pi - d if bool(d > math.pi) else d
        ctx.close(arr[i], want, "angle from the moon, between 0 and pi", tol=1e-6)
        ctx.close(sm.calc_az_rel_moon(az[i], moon), want, "one by one as well", tol=1e-6)
    v = ctx.reals("v", n, -3, 3)
    given = ctx.arr(v)
    out = sm.inrange(given, minimum=-1.0, maximum=0.5)
    for i in range(n):
        ctx.close(out[i], -1.0 if bool(v[i] < -1) else 0.5 if bool(v[i] > 0.5) else v[i], "cut to the limits")
        ctx.close(given[i], v[i], "the values given are not changed")


PARTS = ["moon", "lower_atm", "twilight", "upper_atm", "airglow", "zodiacal", "scattered_star", "merged_spec"]
CLASSES = {"moon": "MoonInterp", "lower_atm": "LowerAtm", "twilight": "TwilightInterp", "upper_atm": "UpperAtm", "airglow": "Airglow", "zodiacal": "ZodiacalInterp", "scattered_star": "ScatteredStar", "merged_spec": "MergedSpec"}


@contextlib.contextmanager
def components(ctx, value, seen=None):
    """Stand-ins for the components: value(part, airmass, band or wavelength index)."""
    old = {c: getattr(sm, c) for c in CLASSES.values()}

    def mk(part):
        class C:
            def __init__(self, mags=False):
                self.mags = mags

            def __call__(self, pts, filter_names=None):
                if seen is not None:
                    seen[part] = pts
                k = len(filter_names) if self.mags else 3
                rows = [[value(part, pts["airmass"][i], filter_names[j] if self.mags else j) for j in range(k)] for i in range(len(pts))]
                return {"spec": ctx2d(ctx, rows), "wave": np.arange(float(k))}
        return C
    for p, c in CLASSES.items():
        setattr(sm, c, mk(p))
    try:
        with quiet():
            yield
    finally:
        for c, v in old.items():
            setattr(sm, c, v)


@harness(P, [M + "SkyModel.__init__", M + "SkyModel.set_params", M + "SkyModel._interp_sky", M + "SkyModel.return_mags", M + "SkyModel.get_computed_vals"], "1 to 3 points, given by airmass (any, in and out of the limit), any values of the components (nothing from one of them at some point), each component on or off, any selection of bands, two airmass limits",
         quick=[{"n": n, "lim": lim} for n, lim in ((1, 3.0), (2, 3.0), (1, 2.0), (2, 2.0))], thorough=[{"n": 3, "lim": 2.0}], budget=150)
def adding(ctx, n, lim):
    on = ctx.choice("on", [("moon", "merged_spec"), ("merged_spec", "airglow", "zodiacal", "twilight", "moon"), ("scattered_star",)])
    names = ctx.choice("names", [["g"], ["y", "u"]])
    am = []
    for i in range(n):
        am.append(ctx.choice("am%d" % i, [1.0, 1.7, 2.2, 4.0, 0.5]))
    f = {}
    dark = ctx.choice("dark", [None, 0]) if "moon" in on else None  # the moon gives nothing at this point
    val = {}
    for p in on:
        for i in range(n):
            for b in names:
                val[p, i, b] = 0.0 if p == "moon" and dark == i else ctx.real("v_%s_%d_%s" % (p, i, b), 0.1, 5)

    def value(p, a, b):
        k = [i for i in range(n) if abs(float(a) - (am[i] + 1e-3 * i)) < 1e-9][0]
        return val[p, k, b]

    x = np.array([a + 1e-3 * i for i, a in enumerate(am)])
    seen = {}
    with components(ctx, value, seen):
        s = sm.SkyModel(mags=True, airmass_limit=lim, **{p: p in on for p in PARTS})
        s.set_params(airmass=x, azs=np.full(n, 90.0), filter_names=names)
        good = [i for i in range(n) if 1.0 <= x[i] <= lim]
        if not good:
            return
        m = s.return_mags()
    ctx.check(sorted(seen) == sorted(on), "the components that are on, and no other")
    ctx.check(sorted(m) == sorted(names), "the bands asked for")
    alone = dark is not None and not any(i != dark for i in good)
    for i in range(n):
        for b in names:
            g = m[b][i]
            if i not in good:
                ctx.check(isnan(g), "undefined outside the airmass limits")
                continue
            tot = sum((val[p, i, b] for p in on), 0.0)
            if lim <= 2.5 and dark == i and not alone:
                # short of a component others have: no sky
                ctx.check(not is_sym(g) and math.isinf(g) and g > 0, "no sky where a component is missing")
            else:
                ctx.close(g, -2.5 * log10(tot) + math.log10(3631.0), "magnitude of the sum of the components at the point", tol=1e-6)


@harness(P, [M + "SkyModel.set_params"], "1 point or 2, given singly or as arrays, by airmass or altitude, in degrees or radians, any azimuths and positions of sun, moon and ecliptic", quick=[{"n": 0}, {"n": 1}, {"n": 2}], budget=100)
def by_hand(ctx, n):
    deg = ctx.bool("deg")
    k = max(n, 1)
    up = 360.0 if deg else 2 * math.pi
    az = ctx.reals("az", k, 0, 0.999 * up)
    maz, saz = ctx.real("maz", 0, 0.999 * up), ctx.real("saz", 0, 0.999 * up)
    malt, salt = ctx.real("malt", -0.2 * up, 0.2 * up), ctx.real("salt", -0.2 * up, 0.2 * up)
    el, eb, sl = ctx.real("el", 0, 0.999 * up), ctx.real("eb", -0.2 * up, 0.2 * up), ctx.real("sl", 0, 0.999 * up)
    phase = ctx.real("phase", 0, 100)
    byalt = ctx.bool("byalt")
    r = math.pi / 180 if deg else 1.0
    alt0 = [0.25 * up / 2, 0.2 * up][:k]  # 45 and 72 degrees
    am0 = [1.0 / math.sin(a * r) for a in alt0]
    one = lambda v: v[0] if n == 0 else (ctx.arr(v) if any(is_sym(q) for q in v) else np.array(v))
    kw = dict(alts=one(alt0)) if byalt else dict(airmass=one(am0))
    with components(ctx, lambda *a: 1.0), flat_haversine(ctx) as hav:
        s = sm.SkyModel(mags=True)
        _, err = ctx.call(s.set_params, azs=one(az), moon_phase=phase, moon_alt=malt, moon_az=maz, sun_alt=salt, sun_az=saz, sun_eclip_lon=sl, eclip_lon=el, eclip_lat=eb, degrees=deg, filter_names=["r"], **kw)
    ctx.check(err is None, "parameters are accepted (%s)" % err)
    wrap = lambda v: v + 2 * math.pi if bool(v < 0) else v - 2 * math.pi if bool(v >= 2 * math.pi) else v
    ctx.check(len(s.points) == k, "points")
    for i in range(k):
        q = lambda c: s.points[c][i]
        ctx.close(q("airmass"), am0[i], "airmass", tol=1e-6)
        ctx.close(q("alt"), alt0[i] * r, "altitude", tol=1e-6)
        ctx.close(q("az"), az[i] * r, "azimuth", tol=1e-6)
        ctx.close(q("sunAlt"), salt * r, "sun altitude", tol=1e-6)
        ctx.close(q("azRelSun"), wrap((az[i] - saz) * r), "azimuth from the sun", tol=1e-6)
        d = oabs(az[i] - maz) * r
        ctx.close(q("azRelMoon"), 2 * math.pi - d if bool(d > math.pi) else d, "azimuth from the moon", tol=1e-6)
        ctx.close(q("moonAltitude"), malt * r * 180 / math.pi, "moon altitude in degrees", tol=1e-5)
        ctx.close(q("moonSunSep"), phase * 1.8, "separation of moon and sun in degrees", tol=1e-6)
        ctx.close(q("altEclip"), eb * r, "ecliptic latitude", tol=1e-6)
        ctx.close(q("azEclipRelSun"), wrap((el - sl) * r), "ecliptic longitude from the sun", tol=1e-6)
        ctx.close(q("solar_flux"), 130.0, "solar flux")
    ctx.close(hav[2], maz * r, "moon distance from the azimuth of the moon in radians", tol=1e-6)


@contextlib.contextmanager
def flat_haversine(ctx):
    got = [None] * 4
    old = sm.haversine

    def hav(a, b, c, d):
        got[:] = [a, b, c, d]
        return a * 0
    sm.haversine = hav
    try:
        yield got
    finally:
        sm.haversine = old


@harness(P, [M + "SkyModel.set_ra_dec_mjd", M + "SkyModel.set_ra_dec_alt_az_mjd", M + "SkyModel._setup_point_grid"], "1 or 2 positions at given times, singly or as arrays, equatorial or horizontal, in degrees or radians, above or below the limit; components of any value", quick=[{"n": 0}, {"n": 1}, {"n": 2}], budget=150)
def at_time(ctx, n):
    k = max(n, 1)
    deg = ctx.bool("deg")
    way = ctx.choice("way", ["azalt", "radec", "both"])
    mjd = ctx.choice("mjd", [60000.1, 60180.3])
    alt = [ctx.choice("alt%d" % i, [78.0, 35.0, 10.0]) + 2.0 * i for i in range(k)]
    az = [20.0, 250.0][:k]
    v = ctx.reals("v", k, 0.1, 5)
    from rubin_scheduler.utils import Site, _approx_alt_az2_ra_dec
    site = Site("LSST")
    ra, dec = _approx_alt_az2_ra_dec(np.radians(alt), np.radians(az), site.latitude_rad, site.longitude_rad, mjd)
    f = (lambda q: np.degrees(q)) if deg else (lambda q: np.asarray(q))
    one = lambda q: float(q[0]) if n == 0 else np.asarray(q)
    seen = {}
    cnt = []

    def value(p, a, b):
        i = [j for j in range(k) if abs(1 / math.sin(math.radians(alt[j])) - float(a)) < 0.003][0]
        return v[i] if p == "merged_spec" else 1.0

    with components(ctx, value, seen):
        s = sm.SkyModel(mags=True)
        if way == "azalt":
            _, err = ctx.call(s.set_ra_dec_mjd, one(f(np.radians(az))), one(f(np.radians(alt))), mjd, degrees=deg, az_alt=True, filter_names=["r"])
        elif way == "radec":
            _, err = ctx.call(s.set_ra_dec_mjd, one(f(ra)), one(f(dec)), mjd, degrees=deg, filter_names=["r"])
        else:
            _, err = ctx.call(s.set_ra_dec_alt_az_mjd, one(f(ra)), one(f(dec)), one(f(np.radians(alt))), one(f(np.radians(az))), mjd, degrees=deg, filter_names=["r"])
        if all(a < 15.0 for a in alt):
            ctx.check(isinstance(err, ValueError), "refused when no point is within the airmass limit")
            return
        ctx.check(err is None, "set (%s)" % err)
        m = s.return_mags()
        vals = s.get_computed_vals()
    for i in range(k):
        ctx.check(abs(float(s.alts[i]) - math.radians(alt[i])) < 1e-3, "altitude")
        d = abs(float(s.azs[i]) - math.radians(az[i]))
        ctx.check(min(d, 2 * math.pi - d) < 1e-2, "azimuth")
        ctx.check(abs(float(s.ra[i] - ra[i])) < 1e-3 and abs(float(s.dec[i] - dec[i])) < 1e-3, "position")
        if alt[i] < 15.0:
            ctx.check(isnan(m["r"][i]), "undefined above the airmass limit")
        else:
            ctx.close(m["r"][i], -2.5 * log10(v[i] + 4.0) + math.log10(3631.0), "sum of the five components at the point", tol=1e-6)
        d = (float(s.azs[i]) - vals["sun_az"]) % (2 * math.pi)
        ctx.check(abs(float(s.points["azRelSun"][i]) - d) < 1e-9, "azimuth from the sun")
    ctx.check(abs(float(s.points["moonSunSep"][0]) - math.degrees(vals["moon_sun_sep"])) < 1e-9 and abs(float(s.points["moonAltitude"][0]) - math.degrees(vals["moon_alt"])) < 1e-9, "moon in degrees")
    ctx.check(abs(vals["moon_phase"] - math.degrees(vals["moon_sun_sep"]) / 1.8) < 1e-9, "phase of the moon")


@harness(P, [M + "SkyModel.return_mags", M + "SkyModel.return_wave_spec"], "1 or 2 points, spectra of 3 wavelengths of any flux, a bandpass of any throughput; before and after anything is set", quick=[{"n": 1}, {"n": 2}], budget=100)
def spectra(ctx, n):
    from rubin_sim.phot_utils import Bandpass
    f = [ctx.reals("f%d_" % i, 3, 0.5, 5) for i in range(n)]
    sb = ctx.reals("sb", 3, 0.1, 1)
    w = [500.0, 501.0, 502.0]
    tr = [0.5, 1.0, 0.5]  # trapezoids
    old = sm.SkyModel._interp_sky

    def interp(self):
        self.wave = np.array(w)
        rows = [f[i] if 1 <= self.airmass[i] <= self.airmass_limit else [math.nan] * 3 for i in range(n)]
        self.spec = ctx2d(ctx, rows)
    sm.SkyModel._interp_sky = interp
    am = [1.2] + [ctx.choice("am", [1.5, 5.0])] * (n - 1)
    try:
        with components(ctx, lambda *a: 1.0):
            s = sm.SkyModel(mags=False)
            _, e1 = ctx.call(s.return_wave_spec)
            _, e2 = ctx.call(s.return_mags)
            ctx.check(isinstance(e1, ValueError) and isinstance(e2, ValueError), "refused before anything is set")
            s.set_params(airmass=np.array(am), azs=np.full(n, 10.0))
            wave, spec = s.return_wave_spec()
            b = Bandpass()
            b.set_bandpass(np.array(w), ctx.arr(sb))
            m, err = ctx.call(s.return_mags, {"x": b})
    finally:
        sm.SkyModel._interp_sky = old
    ctx.check(err is None, "magnitudes of spectra set by hand (%s)" % err)
    for i in range(n):
        if am[i] > 3:
            ctx.check(isnan(m["x"][i]), "undefined above the airmass limit")
            continue
        num = sum((tr[j] * sb[j] * f[i][j] * w[j] for j in range(3)), 0.0)
        den = sum((tr[j] * sb[j] / w[j] for j in range(3)), 0.0)
        flux = num / den / 2.99792458e17 * 1e23  # fnu in Jy: int f lambda S / (c int S/lambda)
        ctx.close(m["x"][i], -2.5 * log10(flux) + 2.5 * math.log10(3631.0), "AB magnitude of the spectrum in the bandpass", tol=1e-3)
        ctx.closes(list(spec[i]), f[i], "spectrum")
    wave[0] = 0
    ctx.check(float(s.wave[0]) == 500.0, "a copy is returned")
