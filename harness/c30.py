"""Calculations shared by metrics and figures."""

import contextlib
import importlib
import io
import sqlite3
import warnings

import numpy as np

import rubin_sim.maf.batches.common as bc
import rubin_sim.maf.metrics.base_metric as bm
import rubin_sim.maf.stackers.coord_stackers as cs
import rubin_sim.maf.stackers.neo_dist_stacker as nd
import rubin_sim.maf.utils.maf_utils as mu
import rubin_sim.maf.utils.opsim_utils as ou
import rubin_sim.satellite_constellations.basis_function as bf
from harness.lib import *  # noqa: F401,F403
from rubin_sim.maf.metrics.calibration_metrics import calc_dist_cosines
from rubin_sim.maf.plots.plot_handler import apply_zp_norm
from rubin_sim.maf.plots.spatial_plotters import set_color_lims
from rubin_sim.maf.slicers.base_spatial_slicer import rotate
from rubin_sim.maf.stackers import mo_phase
from rubin_sim.maf.utils.output_utils import name_sanitize

ev = importlib.import_module("rubin_sim.maf.maps.ebv_hp")
gp = importlib.import_module("rubin_sim.maf.maps.galactic_plane_priority_maps")
hs = importlib.import_module("rubin_sim.maf.slicers.healpix_subset_slicer")

P = "C30"
R = "rubin_sim/maf/"
assumptions(P, "trigonometric functions, powers and exponentials are abstract functions of their arguments; the pixel a position falls in, the smoothing of maps and the map files are replaced by arbitrary ones")


def pct(v, q):
    """Percentile, interpolated linearly between the sorted values."""
    s = osorted(v)
    x = (len(s) - 1) * q / 100.0
    i = min(int(math.floor(x)), len(s) - 2) if len(s) > 1 else 0
    return s[0] if len(s) == 1 else s[i] + (s[i + 1] - s[i]) * (x - i)


@harness(P, [R + "utils/maf_utils.py:optimal_bins"], "1 to 4 values of any size (masked or not), given or open range, at least 1 to 3 and at most 3 to 200 bins", quick=[{"n": 1}, {"n": 2}, {"n": 3}], thorough=[{"n": 4}], budget=200)
def bins(ctx, n):
    v = ctx.reals("v", n, -10, 10)
    mask = [ctx.bool("m%d" % i) if i < 2 else False for i in range(n)]
    lim = ctx.choice("lim", [None, (-5.0, 5.0), (0.0, None)])
    top, low = ctx.choice("top", [200, 4]), ctx.choice("low", [1, 3])
    data = ctx.arr(v)
    use = v
    if any(mask):
        data = np.ma.MaskedArray(data, mask=mask) if not ctx.symbolic else type("M", (), {"compressed": lambda s: ctx.arr([x for x, m in zip(v, mask) if not m])})()
        use = [x for x, m in zip(v, mask) if not m]
    lo, hi = lim if lim else (None, None)
    if use:
        for x in use:
            for e in (lo, hi):
                if e is not None:
                    ctx.assume(oabs(x - e) > 1e-6)
        a = lo if lo is not None else omin(use)
        b = hi if hi is not None else omax(use)
        inside = [x for x in use if bool(x >= a) and bool(x <= b)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if use and inside:
            w = 2 * (pct(inside, 75) - pct(inside, 25)) * len(inside) ** (-1.0 / 3.0)
            if not bool(w == 0):
                ctx.assume(w > 1e-3)
                if bool(a >= b):
                    ctx.skip()
            q = mu.optimal_bins(data, binmin=lo, binmax=hi, nbin_max=top, nbin_min=low)
        else:
            q = mu.optimal_bins(data, binmin=lo, binmax=hi, nbin_max=top, nbin_min=low)
    if not use or not inside:
        ctx.eq(q, top, "as many as allowed without data")
        return
    if bool(w == 0):
        ctx.eq(q, top, "as many as allowed when half of the data coincide")
        return
    want = (b - a) / w
    ctx.check(sand(q >= low, q <= top), "within the limits on the number of bins")
    if bool(want > top):
        ctx.eq(q, top, "no more than allowed")
    elif bool(want < low):
        ctx.eq(q, low, "no fewer than allowed")
    else:
        ctx.check(sand(q <= want + 1e-6, q > want - 1 - 1e-6), "range over twice the interquartile range times the cube root of the number, rounded down")


class Masked:
    def __init__(self, a):
        self.a = a

    def compressed(self):
        return self.a


@harness(P, [R + "utils/maf_utils.py:percentile_clipping", R + "plots/spatial_plotters.py:set_color_lims", R + "plots/plot_handler.py:apply_zp_norm"], "0 to 4 values of any size, limits given or not, clipping of 0 to 100 per cent, any zeropoint and normalisation", quick=[{"n": n} for n in (0, 1, 2, 3)], thorough=[{"n": 4}], budget=150)
def limits(ctx, n):
    v = ctx.reals("v", n, -10, 10)
    clip = ctx.choice("clip", [None, 95.0, 50.0, 100.0])
    d = {"percentile_clip": clip}
    lo, hi = ctx.real("lo", -20, 20), ctx.real("hi", -20, 20)
    d["color_min"] = lo if ctx.bool("glo") else None
    d["color_max"] = hi if ctx.bool("ghi") else None
    if clip is not None and n:
        a, b = mu.percentile_clipping(ctx.arr(v), percentile=clip)
        ctx.close(a, pct(v, (100 - clip) / 2), "lower end keeps the percentage asked for")
        ctx.close(b, pct(v, 100 - (100 - clip) / 2), "upper end keeps the percentage asked for")
    if n:
        a, b = (omin(v), omax(v)) if clip is None else (pct(v, (100 - clip) / 2), pct(v, 100 - (100 - clip) / 2))
        if n > 1:
            ctx.assume(sor(a == b, b - a > 1e-6))
    got = set_color_lims(Masked(ctx.arr(v)), d)
    if n == 0:
        a, b = 0.0, 1.0
    elif bool(a == b) if n > 1 else True:
        a, b = a - 0.5, b + 0.5
    ctx.close(got[0], lo if d["color_min"] is not None else a, "lower limit, given or of the data")
    ctx.close(got[1], hi if d["color_max"] is not None else b, "upper limit, given or of the data")
    k, z = ctx.real("k", 0.5, 5), ctx.real("z", -5, 5)
    zp, nv = ctx.choice("zp", [0, 1, 2]), ctx.choice("nv", [0, 1, 2])
    pd = {}
    if zp:
        pd["zp"] = z if zp == 2 else None
    if nv:
        pd["norm_val"] = k if nv == 2 else None
    got = apply_zp_norm(ctx.arr(v), pd)
    for i in range(n):
        want = v[i] - (z if zp == 2 else 0)
        ctx.close(got[i] * (k if nv == 2 else 1), want, "less the zeropoint, over the normalisation")


@harness(P, [R + "utils/opsim_utils.py:scale_benchmarks", R + "utils/opsim_utils.py:calc_coadded_depth", R + "utils/maf_utils.py:coadd_m5"], "surveys of any length up to 30 years, any number of visits (none included) and depths in up to two bands", quick=[{}], budget=100)
def benchmarks(ctx):
    which = ctx.choice("which", ["design", "stretch", "odd"])
    length = ctx.choice("years", [10, 10.0, 5.0, 1.0, 12.0, 0.1])
    b, err = ctx.call(ou.scale_benchmarks, length, benchmark=which)
    if which == "odd":
        ctx.check(isinstance(err, ValueError), "unknown benchmark refused")
    else:
        total = {"design": {"u": 56, "g": 80, "r": 184, "i": 184, "z": 160, "y": 160}, "stretch": {"u": 70, "g": 100, "r": 230, "i": 230, "z": 200, "y": 200}}[which]
        ctx.check(dict(b["nvisits"]) == {f: int(total[f] * length / 10 + 1e-9) for f in total}, "visits per band in proportion to the length of the survey, rounded down")
        ten_years = ou.scale_benchmarks(10, benchmark=which)
        ctx.check(all(b[k] == ten_years[k] for k in ("Area", "skybrightness", "seeing", "FWHMeff", "singleVisitDepth")), "everything else as for ten years")
    nv = {"u": ctx.real("nu", 0.5, 1000), "g": ctx.real("ng", 0.5, 1000)}
    m = {"u": ctx.real("mu", 20, 26), "g": ctx.real("mg", 20, 26), "r": 24.0}
    bad = ctx.bool("bad")
    if bad:
        del m["g"]
    if ctx.bool("zero"):
        nv["u"] = 0
    shim = hasattr(ou, "float")
    ou.float = lambda x: x
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            d, err = ctx.call(ou.calc_coadded_depth, nv, m)
    finally:
        if not shim:
            del ou.float
    if bad:
        ctx.check(isinstance(err, ValueError), "a depth is needed for every band")
        return
    ctx.check(err is None and sorted(d) == ["g", "u"], "one depth per band")
    for f in d:
        if f == "u" and not is_sym(nv["u"]) and nv["u"] == 0:
            ctx.close(d[f], m[f], "no visits: the depth of one")
        else:
            ctx.close(ten(0.8 * d[f]), nv[f] * ten(0.8 * m[f]), "signal to noise grows as the square root of the number", tol=1e-6)
    ctx.close(ten(0.8 * mu.coadd_m5(ctx.arr([m["u"], m["g"]]))), ten(0.8 * m["u"]) + ten(0.8 * m["g"]), "depths add in inverse variance", tol=1e-6)


@harness(P, [R + "stackers/mo_phase.py:phase__log_linear", R + "stackers/mo_phase.py:phase_hg", R + "metrics/calibration_metrics.py:calc_dist_cosines", R + "slicers/base_spatial_slicer.py:rotate"], "1 or 2 phase angles, slopes, positions and rotation angles of any size", quick=[{"n": 1}, {"n": 2}], budget=60)
def angles(ctx, n):
    p = ctx.reals("p", n, 1, 170)
    s, g = ctx.real("s", 0, 0.2), ctx.real("g", 0, 1)
    got = mo_phase.phase__log_linear(ctx.arr(p), slope=s)
    for i in range(n):
        ctx.close(got[i], ten(-0.4 * s * p[i]), "linear in magnitudes", tol=1e-6)
    got = mo_phase.phase_hg(ctx.arr(p), G=g)
    for i in range(n):
        t = ouf("tan", p[i] * (math.pi / 180) / 2)
        a, b = ouf("exp", -3.33 * np.power(t, 0.63)), ouf("exp", -1.87 * np.power(t, 1.22))
        ctx.close(got[i], (1 - g) * a + g * b, "HG phase curve", tol=1e-6)
    r, d = ctx.reals("r", 2, 0, 6), ctx.reals("d", 2, -1.5, 1.5)
    got = calc_dist_cosines(ctx.arr([r[0]]), ctx.arr([d[0]]), ctx.arr([r[1]]), ctx.arr([d[1]]))
    sn, co = lambda q: ouf("sin", q), lambda q: ouf("cos", q)
    ctx.close(got[0], ouf("arccos", sn(d[1]) * sn(d[0]) + co(d[0]) * co(d[1]) * co(r[1] - r[0])), "law of cosines on the sphere", tol=1e-6)
    x, y, t = ctx.real("x", -2, 2), ctx.real("y", -2, 2), ctx.choice("t", [0.0, math.pi / 2, math.pi / 6, -math.pi / 2])
    a, b = rotate(x, y, t)
    ctx.close(a, math.cos(t) * x - math.sin(t) * y, "turned about the origin (x)", tol=1e-6)
    ctx.close(b, math.sin(t) * x + math.cos(t) * y, "turned about the origin (y)", tol=1e-6)


@harness(P, [R + "stackers/neo_dist_stacker.py:NEODistStacker._run", R + "stackers/neo_dist_stacker.py:NEODistStacker.__init__"], "1 or 2 visits in any band at 3 elongations with any depth, azimuths and absolute magnitude 20 or 22, 4 distances tried (which side of the sun the object is on left out)", quick=[{"n": 1}, {"n": 2}], budget=150)
def neo(ctx, n):
    H = ctx.choice("H", [22, 20])
    st = nd.NEODistStacker(stepsize=0.5, max_dist=1.8, min_dist=0.3, H=H)
    deltas = [0.3, 0.8, 1.3, 1.8]
    ctx.check(len(st.deltas) >= 4 and np.allclose(st.deltas[:4], deltas), "distances tried")
    deltas = [float(q) for q in st.deltas]
    e = [ctx.choice("e%d" % i, [60.0, 120.0, 150.0]) if i == 0 else 100.0 for i in range(n)]
    band = [ctx.choice("b%d" % i, list("ugrizy") if i == 0 else ["u", "y"]) for i in range(n)]
    m5 = ctx.reals("m", n, 15, 30)
    cols = {"solarElong": e, "filter": band, "sunAz": [0.5] * n, "azimuth": [0.3] * n, "fiveSigmaDepth": m5, "MaxGeoDist": [0.0] * n, "NEOHelioX": [0.0] * n, "NEOHelioY": [0.0] * n}
    adj = {"u": -2.1, "g": -0.5, "r": 0.2, "i": 0.4, "z": 0.6, "y": 0.6}
    want = []
    for i in range(n):
        far = 0.0
        mags = []
        for d in deltas:
            r = math.sqrt(1 + d * d - 2 * d * math.cos(math.radians(e[i])))
            t = math.tan(math.acos((d * d + r * r - 1) / (2 * d * r)) / 2)
            mags.append(H + 5 * math.log10(r * d) - 2.5 * math.log10(0.85 * math.exp(-3.33 * t ** 0.63) + 0.15 * math.exp(-1.87 * t ** 1.22)))
        v = m5[i] + adj[band[i]]
        for q in mags:
            ctx.assume(oabs(q - v) > 1e-6)
        far = 0.0
        for d, q in zip(deltas, mags):
            if bool(v < q):
                far = d
                break
        want.append(far)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = st._run(ctx.rec(cols, {"filter": "U"}))
    for i in range(n):
        ctx.close(out["MaxGeoDist"][i], want[i], "nearest distance at which the object is too faint")
        a = math.radians(e[i])
        ctx.close(oabs(out["NEOHelioX"][i]), want[i] * math.sin(a), "off the line to the sun", tol=1e-6)
        ctx.close(out["NEOHelioY"][i], 1.0 - want[i] * math.cos(a), "along the line to the sun, the Earth at one", tol=1e-6)


@contextlib.contextmanager
def swapped(obj, **kw):
    old = {k: getattr(obj, k) for k in kw}
    for k, v in kw.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


@harness(P, [R + "stackers/coord_stackers.py:HealpixStacker._run", R + "utils/maf_utils.py:radec2pix"], "1 or 2 positions anywhere, 2 resolutions; pixel lookup abstract", quick=[{"n": 1}, {"n": 2}], budget=60)
def pixels(ctx, n):
    ra, dec = ctx.reals("ra", n, 0, 360), ctx.reals("dec", n, -90, 90)
    nside = ctx.choice("nside", [16, 128])
    seen = []

    def look(ns, a, b, nest=False, lonlat=False):
        seen.append((ns, list(a), list(b), nest, lonlat))
        return np.arange(len(list(a))) + (100 if nest else 10)

    ctx.rec({"ra": ra})
    with swapped(cs.hp, ang2pix=look):
        st = cs.HealpixStacker(ra_col="ra", dec_col="dec", nside=nside)
        out = st._run(ctx.rec({"ra": ra, "dec": dec, "ring_healpix": [0.0] * n, "nest_healpix": [0.0] * n}))
        k = len(seen)
        pix = mu.radec2pix(nside, ctx.arr(ra), ctx.arr(dec))
    for i in range(n):
        ctx.eq(out["ring_healpix"][i], 10 + i, "ring pixel")
        ctx.eq(out["nest_healpix"][i], 100 + i, "nested pixel")
        ctx.eq(pix[i], 10 + i, "pixel of a position")

    def same_place(call, r, d, unit):
        ns, a, b, nest, lonlat = call
        ctx.check(ns == nside, "at the resolution asked for")
        f = unit if lonlat else unit * (math.pi / 180)  # radians unless given as longitude and latitude
        for i in range(n):
            if lonlat:
                ctx.close(a[i], r[i] * f, "longitude")
                ctx.close(b[i], d[i] * f, "latitude")
            else:
                ctx.close(a[i], math.pi / 2 - d[i] * f, "colatitude")
                ctx.close(b[i], r[i] * f, "longitude")

    for c in seen[:k]:
        same_place(c, ra, dec, 1.0)
    for c in seen[k:]:
        same_place(c, ra, dec, 180 / math.pi)


@harness(P, [R + "maps/ebv_hp.py:eb_vhp"], "2 requests in a row at any resolutions and places, by pixel or position, from one or two folders; maps of any values", quick=[{}], budget=100)
def dust_lookup(ctx):
    v = {(d, ns): ctx.reals("v%s%d_" % (d, ns), 3, 0, 1) for d in ("a", "b") for ns in (2, 4)}
    opened = []

    def load(path):
        d, f = path.split("/")[-2:]
        opened.append(path)
        return {"ebvMap": ctx.arr(v[d, int(f.split("_")[-1].split(".")[0])])}

    look = []

    def pix(ns, ra, dec):
        look.append((ns, list(ra), list(dec)))
        return np.array([2, 0])

    fn = ev.eb_vhp
    saved = dict(fn.__dict__)
    fn.__dict__.clear()
    try:
        with swapped(ev.np, load=load), swapped(ev, radec2pix=pix):
            bad = ctx.call(fn, 2)[1]
            ctx.check(isinstance(bad, RuntimeError), "a place is needed")
            for step in range(2):
                d = ctx.choice("dir%d" % step, ["a", "b"]) if step == 0 else "a"
                ns = ctx.choice("ns%d" % step, [2, 4])
                if ctx.bool("pix%d" % step):
                    got = fn(ns, pixels=np.array([1, 2, 1]), map_path="/x/" + d)
                    want = [v[d, ns][i] for i in (1, 2, 1)]
                else:
                    ra, dec = ctx.reals("ra%d_" % step, 2, 0, 6), ctx.reals("dec%d_" % step, 2, -1, 1)
                    got = fn(ns, ra=ctx.arr(ra), dec=ctx.arr(dec), map_path="/x/" + d)
                    want = [v[d, ns][i] for i in (2, 0)]
                    ctx.check(look[-1][0] == ns, "pixel at the resolution asked for")
                    ctx.closes(look[-1][1], ra, "right ascension passed on")
                    ctx.closes(look[-1][2], dec, "declination passed on")
                ctx.closes(got, want, "value of the map asked for at each place")
    finally:
        fn.__dict__.clear()
        fn.__dict__.update(saved)


@harness(P, [R + "maps/galactic_plane_priority_maps.py:galplane_priority_map", R + "maps/galactic_plane_priority_maps.py:GalacticPlanePriorityMap.run", R + "maps/galactic_plane_priority_maps.py:gp_priority_map_keys_to_components"],
         "2 requests in a row by pixel or position, default or alternative maps, from one of two folders; maps of any values in 7 bands and 2 sciences", quick=[{}], budget=100)
def priorities(ctx):
    free = {(d, a): ctx.real("v%s%d" % (d, a), 0, 1) for d in ("a", "b") for a in (0, 1)}

    def hash_(k):
        return 10 * ("uvgrizysum".index(k[2]) if k[2] != "sum" else 7) + 100 * (k[3] == "dust") + 1000 * k[1] + 10000 * (k[0] == "b")

    def value(d, alt, f, s, i):
        return free[d, int(alt)] if (f, s, i) == ("r", "dust", 2) else float(hash_((d, alt, f, s)) + i)

    class Table(dict):
        class dtype:
            names = ("dust", "bulge")

    class Hdul:
        def __init__(self, path):
            d, f = path.split("/")[-2:]
            self.t = Table({s: ctx.arr([value(d, "alt" in f, f.split("_")[-1].split(".")[0], s, i) for i in range(3)]) for s in ("dust", "bulge")})

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def __getitem__(self, i):
            return type("H", (), {"data": self.t})

    fn = gp.galplane_priority_map
    saved = dict(fn.__dict__)
    fn.__dict__.clear()
    look = []

    def pix(ns, ra, dec):
        look.append((ns, list(ra), list(dec)))
        return np.array([2, 0])

    try:
        with swapped(gp.fits, open=Hdul), swapped(gp, radec2pix=pix), contextlib.redirect_stdout(io.StringIO()):
            for step in range(2):
                d, alt = ctx.choice("dir%d" % step, ["a", "b"]), ctx.bool("alt%d" % step)
                if ctx.bool("pix%d" % step):
                    got = fn(64, pixels=np.array([1, 2, 1]), map_path="/x/" + d, use_alt_maps=alt)
                    idx = (1, 2, 1)
                else:
                    got = fn(64, ra=ctx.arr([0.5, 1.0]), dec=ctx.arr([0.25, 0.5]), map_path="/x/" + d, use_alt_maps=alt)
                    idx = (2, 0)
                    ctx.check(look[-1] == (64, [0.5, 1.0], [0.25, 0.5]), "pixel of each place")
                ctx.check(len(got) == 14, "every band and science")
                for k in got:
                    f, s = gp.gp_priority_map_keys_to_components(k)
                    ctx.check(gp.gp_priority_map_components_to_keys(f, s) == k, "key of the band and science")
                    ctx.closes(got[k], [value(d, alt, f, s, i) for i in idx], "priority of the map asked for, for its band and science, at each place")
            m = gp.GalacticPlanePriorityMap(map_path="/x/a")
            healpix = ctx.bool("healpix")
            sp = {"nside": 64, "sid": np.array([1, 2, 1])} if healpix else {"ra": ctx.arr([0.5, 1.0]), "dec": ctx.arr([0.25, 0.5])}
            out = m.run(sp)
            for k in m.keynames:
                f, s = gp.gp_priority_map_keys_to_components(k)
                ctx.closes(out[k], [value("a", False, f, s, i) for i in ((1, 2, 1) if healpix else (2, 0))], "priority at the slice points")
    finally:
        fn.__dict__.clear()
        fn.__dict__.update(saved)


@harness(P, [R + "slicers/healpix_subset_slicer.py:make_circle_subset_slicer", R + "slicers/healpix_subset_slicer.py:make_wfd_subset_slicer"], "3 pixels at any distance from the centre, any radius; footprints of 4 pixels with any of 3 labels", quick=[{}], budget=100)
def subsets(ctx):
    d = ctx.reals("d", 3, 0, 10)
    rad = ctx.real("rad", 0, 10)
    for q in d:
        ctx.assume(oabs(q - rad) > 1e-6)
    ra, dec = ctx.real("ra", 0, 360), ctx.real("dec", -90, 90)
    made, asked = [], []

    class Sub:
        def __init__(self, nside, hpid, use_cache=True):
            made.append((nside, list(hpid), use_cache))

    def sep(a, b, c, e):
        asked.append((a, b, list(c), list(e)))
        return ctx.arr(d)

    labels = [ctx.choice("l%d" % i, ["lowdust", "", "nes"]) for i in range(3)] + ["virgo"]
    with swapped(hs, HealpixSubsetSlicer=Sub, get_current_footprint=lambda nside: (None, np.array(labels))), swapped(hs.simsUtils, angular_separation=sep, hpid2_ra_dec=lambda ns, p: (np.arange(3.0), np.arange(3.0) - 1)), swapped(hs.hp, nside2npix=lambda ns: 3):
        _, plot = hs.make_circle_subset_slicer(ra, dec, radius=rad, nside=8)
        hs.make_wfd_subset_slicer(nside=1)
        hs.make_wfd_subset_slicer(nside=1, wfd_labels=["nes"])
    ctx.check(made[0][0] == 8 and made[0][1] == [i for i in range(3) if bool(d[i] <= rad)], "pixels within the radius")
    ctx.check(len(asked) == 1 and sorted(map(tuple, asked[0][2:])) == sorted([(0.0, 1.0, 2.0), (-1.0, 0.0, 1.0)]), "distances to the pixels")
    ctx.close(asked[0][0], ra, "distances from the centre")
    ctx.close(asked[0][1], dec, "distances from the centre (declination)")
    ctx.close(plot["rot"][0], ra, "figure centred")
    ctx.close(plot["rot"][1], dec, "figure centred (declination)")
    ctx.check(made[1][1] == [i for i, q in enumerate(labels) if q in ("lowdust", "virgo")], "pixels with a wide-fast-deep label")
    ctx.check(made[2][1] == [i for i, q in enumerate(labels) if q == "nes"], "pixels with the labels asked for")


@harness(P, ["rubin_sim/satellite_constellations/basis_function.py:SatelliteAvoidBasisFunction._calc_value"], "3 satellite maps of 2 pixels with any values at 3 times, any time and forecast (smoothing abstract)", quick=[{}], budget=100)
def avoid(ctx):
    t = ctx.reals("t", 3, 0, 1)
    ctx.assume(sand(t[0] < t[1], t[1] < t[2]))
    now, ahead = ctx.real("now", -0.5, 1.5), ctx.real("ahead", 0.01, 1)
    for q in t:
        ctx.assume(sand(oabs(q - now) > 1e-6, oabs(q - now - ahead) > 1e-6))
    m = [ctx.reals("m%d_" % i, 2, 0, 3) for i in range(3)]
    sm = ctx.real("sm", -1, 1)
    fwhm = []

    def smooth(x, fwhm=None):
        args.append(fwhm)
        return x - sm

    args = []
    b = bf.SatelliteAvoidBasisFunction.__new__(bf.SatelliteAvoidBasisFunction)
    b.nside, b.forecast_time, b.smooth_fwhm = 1, ahead, 0.06
    rows = np.empty((3, 2), dtype=object)
    for i in range(3):
        rows[i, :] = m[i]
    if ctx.symbolic:
        from symx import symnp
        maps = rows.view(symnp.SymArray)
    else:
        maps = rows.astype(float)
    c = type("C", (), {})()
    c.satellite_mjds, c.satellite_maps, c.mjd = ctx.arr(t), maps, now
    with swapped(bf.hp, smoothing=smooth, ud_grade=lambda x, ns: x):
        got = b._calc_value(c)
    soon = [i for i in range(3) if bool(t[i] > now) and bool(t[i] < now + ahead)]
    if not soon:
        ctx.check(not hasattr(got, "__len__") and got == 0, "nothing to avoid")
        return
    for j in range(2):
        s = osum([m[i][j] for i in soon]) - sm
        ctx.assume(oabs(s) > 1e-6)
        ctx.close(got[j], ite(s > 0, -1.0 * s, 0.0), "less where more satellites will pass before the forecast ends, never more")
    ctx.check(args == [0.06], "smoothed over the length given")
    o = bf.SatelliteAvoidBasisFunction(nside=2, forecast_time=90.0, smooth_fwhm=3.5)
    ctx.check(abs(o.forecast_time - 0.0625) < 1e-12 and abs(o.smooth_fwhm - math.radians(3.5)) < 1e-12, "minutes and degrees")


@harness(P, [R + "batches/common.py:filter_list", R + "batches/common.py:combine_info_labels"], "every band and 'all', with or without an extra constraint (one of three) and label; visits in any band for which the parts of the constraint hold or not", quick=[{}], budget=60)
def band_constraints(ctx):
    extra = ctx.choice("extra", [None, "", "a = 1", "a = 1 or b = 1", "not a = 1 and b = 1"])
    label = ctx.choice("label", [None, "mine"])
    every = ctx.bool("every")
    col = ctx.choice("col", ["band", "filter"])
    names, colors, orders, sqls, info = bc.filter_list(all=every, extra_sql=extra, extra_info_label=label, band_col=col)
    ctx.check(sorted(names) == sorted(list("ugrizy") + (["all"] if every else [])) and set(colors) == set(orders) == set(sqls) == set(info) == set(names), "every band, and all of them when asked for")
    ctx.check(sorted(orders.values()) == sorted(range(0 if every else 1, 7)) and len(set(colors.values())) == len(names), "an order and a colour of its own for each")
    a, b, v = ctx.choice("a", [0, 1]), ctx.choice("b", [0, 1]), ctx.choice("v", ["u", "i", "y"])
    con = sqlite3.connect(":memory:")
    con.execute('create table t (a int, b int, "%s" text)' % col)
    con.execute("insert into t values (?, ?, ?)", (a, b, v))
    ok = {None: True, "": True, "a = 1": a == 1, "a = 1 or b = 1": a == 1 or b == 1, "not a = 1 and b = 1": a != 1 and b == 1}[extra]
    for n in names:
        k = con.execute("select count(*) from t" + (" where " + sqls[n] if sqls[n] else "")).fetchone()[0]
        ctx.check((k == 1) == (ok and n in ("all", v)), "visits in the band that meet the constraint as well")
        ctx.check(info[n].strip() == ((label or extra or "") + (" all bands" if n == "all" else " %s band" % n)).strip(), "label tells the band and the constraint")
    con.close()
    x, y = ctx.choice("x", [None, "p"]), ctx.choice("y", [None, "q"])
    ctx.check(bc.combine_info_labels(x, y) == {(None, None): None, ("p", None): "p", (None, "q"): "q", ("p", "q"): "p q"}[x, y], "labels put together")


@harness(P, [R + "metrics/base_metric.py:ColRegistry.add_cols", R + "stackers/get_col_info.py:ColInfo.get_units", R + "stackers/get_col_info.py:ColInfo.get_data_source"], "any 3 of 5 columns (from the database, from stackers, None), added in two steps", quick=[{}], budget=60)
def column_sources(ctx):
    from rubin_sim.maf import stackers

    src = {"airmass": None, "madeup": None, "normairmass": stackers.NormAirmassStacker, "HA": stackers.HourAngleStacker, None: None}
    pick = [ctx.choice("c%d" % i, list(src)) for i in range(3)]
    r = bm.ColRegistry()
    r.add_cols(pick[:2])
    r.add_cols(pick[2:])
    real = {c for c in pick if c is not None}
    ctx.check(r.col_set == real, "every column asked for")
    ctx.check(r.db_set == {c for c in real if src[c] is None}, "columns read from the database")
    ctx.check(r.stacker_dict == {c: src[c] for c in real if src[c] is not None}, "columns made by stackers")
    r2 = bm.ColRegistry()
    ctx.check(r2.col_set == set() and r2.db_set == set() and r2.stacker_dict == {}, "a registry of its own")
    r.clear_reg()
    ctx.check(r.col_set == set() and r.db_set == set() and r.stacker_dict == {}, "cleared")
    for c, u in (("airmass", "X"), ("normairmass", stackers.NormAirmassStacker().units[0]), ("madeup", ""), (None, "")):
        ctx.check(r.col_info.get_units(c) == u, "units")


@harness(P, [R + "utils/output_utils.py:name_sanitize"], "strings of up to 3 pieces out of letters, digits and every special character handled", quick=[{}], budget=100)
def file_names(ctx):
    pieces = ["a", "Z9", ">", "<=", " ", ".", ",", "/", "\\", "(", ")", ":", ";", "%", "#", "_", "__", "-"]
    s = "".join(ctx.choice("p%d" % i, pieces if i < 2 else ["", "b", " "]) for i in range(3))
    out = name_sanitize(s)
    ctx.check(not set(out) & set("><= .,/\\():;%#"), "no character that a file name or address should not hold")
    ctx.check("__" not in out, "no doubled underscores")
    ctx.check(name_sanitize(out) == out, "a clean name stays as it is")
    keep = [c for c in s if c.isalnum() or c == "-"]
    it = iter(out)
    ctx.check(all(c in it for c in keep), "letters and digits stay in order")
