"""Populations of injected events: where, when, how far, and the same for the same seed."""

import contextlib
import types
import warnings

import numpy as np
import rubin_sim.maf.maf_contrib.kne_metrics as kn
import rubin_sim.maf.maf_contrib.microlensing_metric as ml
import rubin_sim.maf.maf_contrib.presto_color_kne_pop_metric as pc
import rubin_sim.maf.maf_contrib.tdes_pop_metric as td
import rubin_sim.maf.maf_contrib.xrb_metrics as xb
from harness.c30 import swapped
from harness.lib import *  # noqa: F401,F403

P = "C34"
K = "rubin_sim/maf/maf_contrib/"
assumptions(P, "random numbers are symbolic reals of the interval the generator promises, drawn in order from a generator that was given the seed; positions on the sphere, the conversion to galactic coordinates and the slicer that holds the points are stand-ins")


class Points:
    """Stands for the slicer: keeps the positions it is given."""

    def __init__(self, ra, dec, **kw):
        self.ra, self.dec, self.kw, self.slice_points = ra, dec, kw, {}


class Draws:
    """The module-level generator and generators made from a seed; every draw must come after the seed."""

    def __init__(self, ctx, gap=0):
        self.ctx, self.n, self.seeds, self.log, self.gap = ctx, 0, [], [], gap

    def one(self, lo, hi):
        # half-open interval, reached by 0 <= u < 1
        self.n += 1
        u = self.ctx.real("u%d" % self.n, 0, 1)
        self.ctx.assume(u <= 1 - self.gap if self.gap else u < 1)
        return lo + (hi - lo) * u, u

    def uniform(self, low=0.0, high=1.0, size=1):
        v = [self.one(low, high) for _ in range(int(size))]
        self.log.append((low, high, [x[1] for x in v], len(self.seeds)))
        return self.ctx.arr([x[0] for x in v])

    def random(self, size=1):
        return self.uniform(0.0, 1.0, size)

    def seed(self, s):
        self.seeds.append(s)

    def choice(self, a, size=1, replace=True):
        v = [a[self.ctx.cint("c%d" % i, 0, len(a) - 1)] for i in range(int(size))]
        self.log.append(("choice", None, v, len(self.seeds)))
        return np.array(v)

    def generator(self, s):
        self.seed(s)
        return self

    @contextlib.contextmanager
    def on(self):
        with swapped(np.random, uniform=self.uniform, random=self.random, seed=self.seed, default_rng=self.generator):
            yield self


def common(ctx, s, d, seed, n, lo, hi, key="peak_time"):
    t = s.slice_points[key]
    ctx.check(len(t) == n, "a time for every event")
    for i in range(n):
        ctx.check(sand(t[i] >= lo, t[i] <= hi), "within the time asked for")
    ctx.check(set(d.seeds) == {seed} and all(x[3] > 0 for x in d.log), "everything random follows from the seed")
    # times fill the interval evenly: some draw of the unit interval gives each
    for i in range(n):
        ctx.check(sor(*[t[i] == lo + (hi - lo) * u for x in d.log if x[0] != "choice" for u in x[2]]), "evenly over that time")


def light_curves(ctx, s, n, n_files):
    f = s.slice_points["file_indx"]
    ctx.check(len(f) == n, "a light curve for every event")
    for i in range(n):
        ctx.check(sand(f[i] >= 0, f[i] <= n_files - 1, f[i] == floor(f[i])), "one of the light curves there are")


def distances(ctx, s, d, n, lo, hi):
    x = s.slice_points["distance"]
    ctx.check(len(x) == n, "a distance for every event")
    unit = [y for y in d.log if y[0] == 0.0 and y[1] == 1.0][-1][2]
    for i in range(n):
        u = unit[i]
        ctx.close(x[i], (lo**4 + (hi**4 - lo**4) * u) ** (1.0 / 4), "distances follow the power law between the limits")


@harness(P, [K + "kne_metrics.py:generate_kn_pop_slicer"], "1 to 3 events, any period, distances and number of light curves, at given positions or anywhere", quick=[{"given": g} for g in (False, True)], budget=120)
def kilonovae(ctx, given):
    n = ctx.choice("n", [1, 2, 3])
    lo = ctx.real("t0", 0, 100)
    hi = lo + ctx.real("dt", 1, 100)
    nf = ctx.choice("nf", [1, 5])
    dlim = ctx.choice("d", [(10, 300), (100, 200)])
    ra, dec = ctx.arr(ctx.reals("ra", n, 0, 360)), ctx.arr(ctx.reals("dec", n, -90, 90))
    d = Draws(ctx)

    def sphere(k, seed=None):
        d.seed(seed)
        ctx.check(k == n, "as many positions as events")
        return ra, dec

    kw = {"ra": ra, "dec": dec} if given else {"n_events": n}
    with swapped(kn, uniform_sphere=sphere, UserPointsSlicer=Points), d.on():
        s = kn.generate_kn_pop_slicer(t_start=lo, t_end=hi, seed=17, n_files=nf, d_min=dlim[0], d_max=dlim[1], **kw)
    ctx.check(len(s.ra) == n and len(s.dec) == n, "every event has a position")
    for i in range(n):
        ctx.eq(s.ra[i], ra[i], "positions")
        ctx.eq(s.dec[i], dec[i], "positions")
    common(ctx, s, d, 17, n, lo, hi)
    light_curves(ctx, s, n, nf)
    distances(ctx, s, d, n, *dlim)


@harness(P, [K + "tdes_pop_metric.py:generate_tde_pop_slicer"], "1 to 3 events, any period and number of light curves", quick=[{}], budget=60)
def tidal(ctx):
    n = ctx.choice("n", [1, 2, 3])
    lo = ctx.real("t0", 0, 100)
    hi = lo + ctx.real("dt", 1, 100)
    nf = ctx.choice("nf", [1, 7])
    ra, dec = ctx.arr(ctx.reals("ra", n, 0, 360)), ctx.arr(ctx.reals("dec", n, -90, 90))
    d = Draws(ctx)

    def sphere(k, seed=None):
        d.seed(seed)
        ctx.check(k == n, "as many positions as events")
        return ra, dec

    with swapped(td, uniform_sphere=sphere), swapped(td.slicers, UserPointsSlicer=Points), d.on():
        s = td.generate_tde_pop_slicer(t_start=lo, t_end=hi, n_events=n, seed=3, n_files=nf)
    for i in range(n):
        ctx.eq(s.ra[i], ra[i], "positions")
        ctx.eq(s.dec[i], dec[i], "positions")
    common(ctx, s, d, 3, n, lo, hi)
    light_curves(ctx, s, n, nf)


@harness(P, [K + "presto_color_kne_pop_metric.py:generate_presto_pop_slicer"], "2 or 3 events at any galactic latitudes, any limit, any of three regions", quick=[{"n": 2}, {"n": 3}], budget=120)
def regions(ctx, n):
    where = ctx.choice("region", ["galactic", "extragalactic", "all"])
    gb = ctx.reals("b", n, -90, 90)
    cut = ctx.real("cut", 0, 60)
    ra, dec = ctx.arr(ctx.reals("ra", n, 0, 360)), ctx.arr(ctx.reals("dec", n, -90, 90))
    d = Draws(ctx)

    def sphere(k, seed=None):
        d.seed(seed)
        ctx.check(k == n, "as many positions as events")
        return ra, dec

    for b in gb:
        ctx.assume(snot(oabs(b) == cut))
    with swapped(pc, uniform_sphere=sphere, radec2gal=lambda a, b: (ctx.arr(gb), ctx.arr(gb))), swapped(pc.slicers, UserPointsSlicer=Points), d.on(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = pc.generate_presto_pop_slicer(skyregion=where, t_start=5.0, t_end=9.0, n_events=n, seed=8, n_files=4, d_min=10, d_max=300, gb_cut=cut)
    keep = [i for i in range(n) if where == "all" or bool(oabs(gb[i]) < cut) == (where == "galactic")]
    ctx.check(len(s.ra) == len(keep) and len(s.dec) == len(keep), "the events of the region")
    for j, i in enumerate(keep):
        ctx.eq(s.ra[j], ra[i], "positions")
        ctx.eq(s.dec[j], dec[i], "positions")
    if keep:
        common(ctx, s, d, 8, len(keep), 5.0, 9.0)
        light_curves(ctx, s, len(keep), 4)
        distances(ctx, s, d, len(keep), 10, 300)


@harness(P, [K + "microlensing_metric.py:generate_microlensing_slicer"], "1 or 2 events of any crossing time and period, over a map of 12 pixels of given star densities in any of 2 orders", quick=[{"n": 1}, {"n": 2}], budget=120)
def lenses(ctx, n):
    lo = ctx.real("t0", 0, 100)
    hi = lo + ctx.real("dt", 1, 100)
    c0 = ctx.real("c0", 1, 10)
    c1 = c0 + ctx.real("dc", 0, 10)
    dens = [5.0, 3.0, 0.0, 1.0, 2.0, 6.0, 2.0, 1.0, 7.0, 4.0, 4.0, 4.0]
    if ctx.bool("turned"):
        dens = dens[::-1]
    dens = np.array(dens)
    table = {"bins": np.array([15.0, 20.0, 22.5, 25.0]), "starDensity": ctx.arr([x for v in dens for x in (7.0, v, 9.0)]).reshape(12, 3)}

    class File(dict):
        def close(self):
            pass

    names, pix = [], []
    d = Draws(ctx)

    class Sky:
        def __init__(self, l, b, frame):
            ctx.check(frame == "galactic", "the map is in galactic coordinates")
            self.l, self.b = l, b

        def transform_to(self, f):
            return types.SimpleNamespace(ra=types.SimpleNamespace(deg=self.l + 1.0), dec=types.SimpleNamespace(deg=self.b + 2.0))

    def where(nside, ids, nest=None):
        ctx.check(nside == 1 and nest is True, "pixels of the map")
        pix.extend(int(i) for i in ids)
        return np.array(ids) * 10.0, np.array(ids) * 5.0

    with swapped(np, load=lambda f: (names.append(f), File(table))[1]), swapped(ml, u=types.SimpleNamespace(deg=1.0), SkyCoord=Sky, hpid2_ra_dec=where, get_data_dir=lambda: "dir"), swapped(ml.slicers, UserPointsSlicer=Points), d.on():
        s = ml.generate_microlensing_slicer(min_crossing_time=c0, max_crossing_time=c1, t_start=lo, t_end=hi, n_events=n, seed=5, nside=1, filtername="i")
    ctx.check(names[0].endswith("TRIstarDensity_i_nside_1.npz"), "the star density of the band")
    common(ctx, s, d, 5, n, lo, hi)
    p = s.slice_points
    ctx.check(len(p["crossing_time"]) == n and len(p["impact_parameter"]) == n and len(pix) == n and len(s.ra) == n, "parameters for every event")
    for i in range(n):
        ctx.check(sand(p["crossing_time"][i] >= c0, p["crossing_time"][i] <= c1), "crossing times within the limits")
        ctx.check(sand(p["impact_parameter"][i] >= 0, p["impact_parameter"][i] <= 1), "impact parameters up to one")
        ctx.check(s.ra[i] == pix[i] * 10.0 + 1.0 and s.dec[i] == pix[i] * 5.0 + 2.0, "at the pixel drawn")


@harness(P, [K + "microlensing_metric.py:generate_microlensing_slicer"], "1 event over a map of 14 pixels of given densities, two of them without stars", quick=[{}], budget=120)
def lens_pixels(ctx):
    head = ctx.choice("head", [(0.0, 0.0, 1.0, 2.0), (0.0, 1.0, 1.0, 3.0), (1.0, 1.0, 2.0, 2.0)])
    tail = [4.0 + i for i in range(10)]
    dens = np.array(tail + list(head)) if ctx.bool("turned") else np.array(list(head) + tail)
    table = {"bins": np.array([15.0, 30.0]), "starDensity": ctx.arr(list(dens)).reshape(14, 1)}
    File = type("File", (dict,), {"close": lambda self: None})
    pix = []
    d = Draws(ctx, 1e-9)

    def where(nside, ids, nest=None):
        pix.extend(int(i) for i in ids)
        return np.array(ids) * 1.0, np.array(ids) * 1.0

    Sky = lambda l, b, frame: types.SimpleNamespace(transform_to=lambda f: types.SimpleNamespace(ra=types.SimpleNamespace(deg=l), dec=types.SimpleNamespace(deg=b)))
    with swapped(np, load=lambda f: File(table)), swapped(ml, u=types.SimpleNamespace(deg=1.0), SkyCoord=Sky, hpid2_ra_dec=where, get_data_dir=lambda: "dir"), swapped(ml.slicers, UserPointsSlicer=Points), d.on():
        ml.generate_microlensing_slicer(n_events=1, seed=5, nside=1)
    top = sorted(dens)[-11]
    w = np.minimum(dens, top) ** 2
    u = d.log[-1][2][0]
    # pixels in order of density take shares of the unit interval proportional to its square
    below = float(sum(w[dens < dens[pix[0]]])) / float(sum(w)) if dens[pix[0]] < top else float(sum(w[dens < top])) / float(sum(w))
    upto = float(sum(w[dens <= dens[pix[0]]])) / float(sum(w)) if dens[pix[0]] < top else 1.0
    ctx.check(sor(sand(u >= below - 1e-9, u <= upto + 1e-9), u == 0), "events fall on pixels in proportion to the square of their star density")


@harness(P, [K + "xrb_metrics.py:generate_xrb_pop_slicer"], "1 or 2 outbursts among a sample of 3 binaries, any period and durations", quick=[{"n": 1}, {"n": 2}], budget=120)
def binaries(ctx, n):
    lo = ctx.real("t0", 0, 100)
    hi = lo + ctx.real("dt", 1, 100)
    sample = np.array([[10.0, -1.0, 8.0, 0.5], [20.0, -2.0, 3.0, 1.5], [30.0, -3.0, 6.0, 2.5]])
    st, en = ctx.reals("s", n, -5, 5), ctx.reals("e", n, 5, 50)
    d = Draws(ctx)
    asked = []

    class Lc:
        def outburst_params(self, size=1):
            return ["p%d" % i for i in range(size)]

        def detectable_duration(self, par, ebv, dist):
            i = len(asked)
            asked.append((par, ebv, dist))
            return st[i], en[i]

    with swapped(np, genfromtxt=lambda *a, **k: sample), swapped(xb, XrbLc=Lc, UserPointsSlicer=Points, get_data_dir=lambda: "dir"), d.on():
        s = xb.generate_xrb_pop_slicer(t_start=lo, t_end=hi, n_events=n, seed=9)
    common(ctx, s, d, 9, n, lo, hi, "start_time")
    pick = [x for x in d.log if x[0] == "choice"][0][2]
    p = s.slice_points
    for i in range(n):
        row = sample[int(pick[i])]
        ctx.check(s.ra[i] == row[0] and s.dec[i] == row[1] and p["distance"][i] == row[2] and p["ebv"][i] == row[3], "each outburst is at its binary, with its distance and dust")
        ctx.check(asked[i] == ("p%d" % i, row[3], row[2]) and p["outburst_params"][i] == "p%d" % i, "its own light curve seen through its dust at its distance")
        ctx.eq(p["visible_start_time"][i], st[i], "when it becomes visible")
        ctx.eq(p["visible_end_time"][i], en[i], "when it fades")
        ctx.close(p["visible_duration"][i], en[i] - st[i], "how long it is visible")
