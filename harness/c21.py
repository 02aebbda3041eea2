"""Chebyshev ephemerides: evaluation, fitting, segments."""

import contextlib
import os
import tempfile
import warnings

import numpy as np
import pandas as pd

import rubin_sim.moving_objects.cheby_fits as cfmod
from harness.lib import *  # noqa: F401,F403
from rubin_sim.moving_objects import ChebyFits, ChebyValues, Orbits
from rubin_sim.moving_objects.chebyshev_utils import chebeval, chebfit, make_cheb_matrix, make_cheb_matrix_only_x

P = "C21"
U = "rubin_sim/moving_objects/chebyshev_utils.py:"
V = "rubin_sim/moving_objects/cheby_values.py:ChebyValues."
F = "rubin_sim/moving_objects/cheby_fits.py:ChebyFits."
assumptions(P, "the ephemeris generator (OpenOrb) is replaced by arbitrary functions of time; cosines are abstract")


def cheb(t, n):
    """T_0..T_{n-1} and derivatives at t, by the explicit polynomials."""
    T = [[1], [0, 1]]
    while len(T) < n:
        a = [0] + [2 * c for c in T[-1]]
        b = T[-2] + [0] * (len(a) - len(T[-2]))
        T.append([x - y for x, y in zip(a, b)])
    pw = [1.0]
    for _ in range(n):
        pw.append(pw[-1] * t)
    val = [osum([c * pw[k] for k, c in enumerate(q) if c]) for q in T[:n]]
    der = [osum([c * k * pw[k - 1] for k, c in enumerate(q) if c and k]) if any(q[1:]) else 0.0 for q in T[:n]]
    return val, der


def series(p, t):
    T, D = cheb(t, len(p))
    return osum([a * b for a, b in zip(p, T)]), osum([a * b for a, b in zip(p, D)])


@harness(P, [U + "chebeval"], "1 to 6 coefficients of any value, any interval and 1 or 2 points inside or outside it, with and without velocity and mask", quick=[{"n": n, "k": k} for n, k in ((1, 1), (2, 2), (3, 1), (4, 2), (5, 1), (6, 1))],
         thorough=[{"n": n, "k": 2} for n in (5, 6, 7, 8)], budget=100)
def evaluate(ctx, n, k):
    p = ctx.reals("p", n, -5, 5)
    a, w = ctx.real("a", -10, 10), ctx.real("w", 0.5, 10)
    x = ctx.reals("x", k, -30, 30)
    mask = ctx.bool("mask")
    arg = ctx.arr(x)
    if k == 1 and ctx.bool("scalar"):
        arg = x[0]
    y, v = chebeval(arg, ctx.arr(p), interval=(a, a + w), mask=mask)
    y2, none = chebeval(arg, ctx.arr(p), interval=[a, a + w], do_velocity=False, mask=mask)
    ctx.check(none is None, "no velocity unless asked")
    y, v, y2 = [list(np.ravel(q)) for q in (y, v, y2)]
    ctx.check(len(y) == len(v) == len(y2) == k, "one value per point")
    for i in range(k):
        if mask and (bool(x[i] < a) or bool(x[i] > a + w)):
            ctx.check(isnan(y[i]) and isnan(v[i]) and isnan(y2[i]), "undefined outside the interval when masked")
            continue
        t = (2 * x[i] - 2 * a - w) / w
        ey, ev = series(p, t)
        ctx.close(y[i], ey, "value of the series")
        ctx.close(y2[i], ey, "value of the series (no velocity)")
        ctx.close(v[i], ev * 2 / w, "derivative of the series")
    _, e = ctx.call(chebeval, arg, ctx.arr(p), interval=(1.0, 2.0, 3.0))
    ctx.check(isinstance(e, RuntimeError), "an interval has two ends")


@harness(P, [U + "chebfit", U + "make_cheb_matrix", U + "make_cheb_matrix_only_x"], "4 to 7 evenly spaced points with any values and slopes, any start and spacing, 2 to 6 terms, multipliers given, missing or of another shape",
         quick=[{"m": m, "n": n, "vel": v} for m, n, v in ((4, 2, False), (5, 3, False), (6, 4, False), (5, 5, False), (4, 4, True), (5, 5, True), (6, 6, True))],
         thorough=[{"m": 8, "n": 6, "vel": False}, {"m": 8, "n": 7, "vel": True}, {"m": 4, "n": 8, "vel": True}], budget=150)
def fit(ctx, m, n, vel):
    x = ctx.reals("x", m, -5, 5)
    dt, t0 = ctx.real("dt", 0.5, 2) if m == 4 or not vel else 1.5, ctx.real("t0", 0, 100)
    d = ctx.reals("d", m, -5, 5) if vel else None
    mult = ctx.choice("mult", ["none", "given", "other"])
    xm = dm = None
    if mult != "none":
        k = m + (mult == "other")
        if vel:
            xm, dm = make_cheb_matrix(k, n)
        else:
            xm = make_cheb_matrix_only_x(k, n)
    # slopes per scaled time, so that the arithmetic stays in the values
    half = dt * (m - 1) / 2
    dx = None if d is None else ctx.arr([q / half for q in d])
    t = ctx.arr([t0 + dt * i for i in range(m)])
    a, res, rms, mx = chebfit(t, ctx.arr(x), dxdt=dx, x_multiplier=xm, dx_multiplier=dm, n_poly=n)
    a, res = list(a), list(res)
    ctx.check(len(a) == n and len(res) == m, "one coefficient per term, one residual per point")
    s = [-1 + 2.0 * i / (m - 1) for i in range(m)]
    vals = [series(a, q) for q in s]
    r = [x[i] - vals[i][0] for i in range(m)]
    for i in range(m):
        ctx.close(res[i], r[i], "residual at each point", tol=1e-6)
    for i in (0, m - 1):
        ctx.close(vals[i][0], x[i], "ends are matched", tol=1e-6)
        if vel:
            ctx.close(vals[i][1], d[i], "slopes at the ends are matched", tol=1e-6)
    # best fit: residuals are orthogonal to every polynomial that keeps the ends
    for k in range(n - (4 if vel else 2)):
        tot = 0.0
        for i in range(m):
            q = s[i]
            if vel:
                g = (1 - q * q) ** 2 * q ** k
                dg = -4 * q * (1 - q * q) * q ** k + (k * q ** (k - 1) * (1 - q * q) ** 2 if k else 0.0)
                tot = tot + g * r[i] + 0.16 * dg * (d[i] - vals[i][1])
            else:
                tot = tot + (1 - q * q) * q ** k * r[i]
        ctx.close(tot, 0.0, "no other polynomial through the ends fits better", tol=1e-5)
    ctx.close(rms, osqrt(osum([q * q for q in res]) / (m - 1)), "rms of the residuals", tol=1e-6)
    ctx.check(mx >= omax([oabs(q) for q in res]) - 1e-9, "largest residual (at least)")
    ctx.check(mx <= omax([oabs(q) for q in res]) + 1e-9, "largest residual (at most)")


@harness(P, [U + "chebfit"], "any number of terms from 1 to 12 for 5 points, any data", quick=[{}], budget=60)
def fit_limits(ctx):
    n, vel = ctx.choice("n", list(range(1, 13))), ctx.bool("vel")
    x = ctx.reals("x", 5, 0, 1)
    _, e = ctx.call(chebfit, np.arange(5.0), ctx.arr(x), dxdt=ctx.arr(x) if vel else None, n_poly=n)
    ok = (4 <= n <= 10) if vel else (2 <= n <= 5)
    ctx.check((e is None) if ok else isinstance(e, RuntimeError), "the number of terms must suit the data")
    _, e = ctx.call(chebfit, np.arange(4.0), ctx.arr(x), n_poly=3)
    ctx.check(isinstance(e, ValueError), "one value per time")


class Fits:
    def __init__(self, coeffs):
        self.coeffs = coeffs


KEYS = ("ra", "dec", "geo_dist", "vmag", "elongation")


def segments(ctx, objs, edges, n=2):
    """Coefficients of two terms (value at mid-segment, half change) for each object and segment."""
    c = {k: [] for k in ("obj_id", "t_start", "t_end") + KEYS}
    rows = []
    for j, o in enumerate(objs):
        for i in range(len(edges[j]) - 1):
            c["obj_id"].append(o)
            c["t_start"].append(edges[j][i])
            c["t_end"].append(edges[j][i + 1])
            row = {}
            for k in KEYS:
                row[k] = ctx.reals("%s_%d_%d_" % (k, j, i), n, -5, 5)
                c[k].append(ctx.arr(row[k]))
            rows.append((o, edges[j][i], edges[j][i + 1], row))
    return c, rows


@harness(P, [V + "set_coefficients", V + "get_ephemerides", V + "_eval_segment"], "1 or 2 objects with 1 or 2 segments each (boundaries may differ between the objects), any coefficients, 1 or 2 times anywhere, any selection and order of the objects, extrapolating or not",
         quick=[{"segs": s, "k": k} for s, k in (((1,), 1), ((2,), 1), ((2,), 2), ((1, 2), 1), ((2, 2), 1))], thorough=[{"segs": (2, 2), "k": 2}, {"segs": (2, 1, 2), "k": 1}], budget=150)
def values(ctx, segs, k):
    objs = [7, 3, 5][: len(segs)]
    edges = []
    for j, s in enumerate(segs):
        edges.append([60000.0] + ([60000.0 + ctx.real("cut%d" % j, 1, 3)] if s == 2 else []) + [60004.0])
    c, rows = segments(ctx, objs, edges)
    cv = ChebyValues()
    cv.set_coefficients(Fits(c))
    t = [60000.0 + q for q in ctx.reals("t", k, -2, 6)]
    extra = ctx.bool("extrapolate")
    which = ctx.choice("which", ["all"] + (["one", "reversed"] if len(objs) > 1 else ["one"]))
    ids = {"all": None, "one": np.array([objs[-1]]), "reversed": np.array(objs[::-1])}[which]
    scalar = k == 1 and not ctx.symbolic and False
    eph = cv.get_ephemerides(ctx.arr(t), obj_ids=ids, extrapolate=extra)
    if ids is not None:
        ctx.check(list(ids) == ([objs[-1]] if which == "one" else objs[::-1]), "the list of objects asked for is not changed")
    want = sorted(objs) if which == "all" else sorted(int(i) for i in ids)
    got = [int(o) for o in eph["obj_id"]]
    for i in range(k):
        outside = bool(t[i] < 60000.0) or bool(t[i] > 60004.0)
        if outside and not extra:
            for key in ("ra", "dec", "dradt", "ddecdt", "geo_dist", "vmag", "elongation"):
                for j in range(len(got)):
                    ctx.check(isnan(eph[key][j][i]), "undefined outside the fitted time (%s)" % key)
            continue
        ctx.check(sorted(got) == want, "one row per object asked for")
        for j, o in enumerate(got):
            ctx.close(eph["time"][j][i], t[i], "time of the row")
            mine = [r for r in rows if r[0] == o]
            seg = mine[0]
            for r in mine:
                if bool(t[i] >= r[1]):
                    seg = r
            _, s, e, row = seg
            x = (2 * t[i] - s - e) / (e - s)
            for key in KEYS:
                ctx.close(eph[key][j][i], row[key][0] + row[key][1] * x, "the object's own segment (%s)" % key)
            ctx.close(eph["ddecdt"][j][i], row["dec"][1] * 2 / (e - s), "rate in declination")
            cosd = np.cos(np.radians(row["dec"][0] + row["dec"][1] * x)) if not ctx.symbolic else symcos(row["dec"][0] + row["dec"][1] * x)
            ctx.close(eph["dradt"][j][i], row["ra"][1] * 2 / (e - s) * cosd, "rate on the sky in right ascension", tol=1e-6)


def symcos(x):
    from symx import symnp
    return symnp.NP.cos(symnp.NP.radians(x))


@harness(P, [V + "get_ephemerides", V + "set_coefficients"], "2 objects, requests with unknown objects, missing coefficients", quick=[{}], budget=60)
def unknown(ctx):
    c, rows = segments(ctx, [7, 3], [[60000.0, 60004.0]] * 2)
    t = 60000.0 + ctx.real("t", 0, 4)
    cv = ChebyValues()
    cv.set_coefficients(Fits(c))
    ids = ctx.choice("ids", [[7, 9], [9], [9, 3], [3], [7], [3, 7]])
    eph, e = ctx.call(cv.get_ephemerides, ctx.arr([t]), obj_ids=np.array(ids))
    ok = 9 not in ids
    ctx.check((e is None) if ok else isinstance(e, ValueError), "objects without coefficients are refused")
    if ok:
        ctx.check(sorted(int(i) for i in eph["obj_id"]) == sorted(ids), "objects asked for")
    drop = ctx.choice("drop", ["ra", "t_end", "vmag"])
    c2, _ = segments(ctx, [7], [[60000.0, 60004.0]])
    del c2[drop]
    _, e = ctx.call(cv.set_coefficients, Fits(c2))
    ctx.check(isinstance(e, ValueError), "missing coefficients are refused")


class StubEph:
    """Stands for OpenOrb: arbitrary functions of time per object (FUNCS[obj_id](t) -> dict)."""

    FUNCS = {}
    CTX = None

    def __init__(self, ephfile=None):
        pass

    def set_orbits(self, orbits):
        self.ids = list(orbits.orbits["obj_id"])

    def generate_ephemerides(self, times, obscode=None, eph_mode=None, eph_type=None, time_scale=None, by_object=True):
        assert by_object
        out = []
        for o in self.ids:
            rows = [StubEph.FUNCS[o](float(t)) for t in times]
            cols = {"time": [float(t) for t in times]}
            for k in ("ra", "dec", "dradt", "ddecdt", "geo_dist", "magV", "solarelon"):
                cols[k] = [r[k] for r in rows]
            out.append(StubEph.CTX.rec(cols))
        return out


@contextlib.contextmanager
def stub(ctx, funcs):
    old, oldd = cfmod.PyOrbEphemerides, cfmod.get_oorb_data_dir
    StubEph.FUNCS, StubEph.CTX = funcs, ctx
    cfmod.PyOrbEphemerides, cfmod.get_oorb_data_dir = StubEph, lambda: "/nowhere"
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        cfmod.PyOrbEphemerides, cfmod.get_oorb_data_dir = old, oldd


def orbits(ids):
    o = Orbits()
    n = len(ids)
    o.set_orbits(pd.DataFrame({"obj_id": ids, "a": [2.5] * n, "e": [0.1] * n, "inc": [1.0] * n, "Omega": [0.0] * n, "argPeri": [0.0] * n, "meanAnomaly": [0.0] * n, "epoch": [60000.0] * n}))
    return o


def motion(ctx, tag, bend, moving=True):
    """Any linear motion in right ascension, along the equator."""
    r0, r1 = (150.0, ctx.real(tag + "r1", -1, 1)) if moving else (0.0, 0.0)
    g, m, s = ctx.reals(tag + "o", 3, 1, 20), None, None

    def f(t):
        x = t - 60000.0
        return {"ra": r0 + r1 * x + bend * x ** 4, "dec": 0.0, "dradt": r1 + 4 * bend * x ** 3, "ddecdt": 0.0, "geo_dist": g[0], "magV": g[1] + 0.1 * x, "solarelon": g[2]}
    return f, r0, r1, g


@harness(P, [F + "__init__", F + "calc_segment_length", F + "calc_segments", F + "calc_one_segment", F + "make_all_times", F + "_round_length", F + "_test_residuals", F + "_get_coeffs_position", F + "_get_coeffs_other"],
         "1 or 2 objects, spans and segment lengths from a list (dividing the span or not), any linear motion",
         quick=[{"n": n, "span": s, "length": l} for n, s, l in ((1, 4.0, 2.0), (1, 3.0, 2.0), (2, 2.0, 1.0), (1, 5.0, 1.7), (1, 1.0, 1.0))], budget=120)
def cover(ctx, n, span, length):
    ids = [4, 9][:n]
    fs = {}
    info = {}
    for i in ids:
        f, r0, r1, g = motion(ctx, "m%d" % i, 0.0)
        fs[i], info[i] = f, (r0, r1, g)
    with stub(ctx, fs):
        c = ChebyFits(orbits(ids), 60000.0, span, ngran=4, n_coeff_position=4, n_coeff_vmag=3, n_coeff_delta=2, n_coeff_elongation=2, sky_tolerance=2.5)
        c.calc_segment_length(length=length)
        ctx.check(0 < c.length <= length + 1e-9, "segments are no longer than asked for")
        k = span / c.length
        ctx.check(abs(k - round(k)) < 1e-6, "segments fit into the span a whole number of times")
        c.calc_segments()
        co = c.coeffs
        ctx.check(len({len(co[q]) for q in co}) == 1 and len({len(c.resids[q]) for q in c.resids}) == 1 and len(c.resids["pos"]) == len(co["ra"]), "one entry per segment")
        for i in ids:
            mine = [j for j, o in enumerate(co["obj_id"]) if o == i]
            ctx.check(len(mine) == round(k), "every segment of the span is fitted")
            ends = [(float(co["t_start"][j]), float(co["t_end"][j])) for j in mine]
            ctx.check(abs(ends[0][0] - 60000.0) < 1e-6 and abs(ends[-1][1] - 60000.0 - span) < 1e-6, "from the start to the end")
            for a, b in zip(ends, ends[1:]):
                ctx.check(abs(a[1] - b[0]) < 1e-6, "each segment starts where the one before ends")
            r0, r1, g = info[i]
            for j, (a, b) in zip(mine, ends):
                for t in (a, a + 0.3 * (b - a), b):
                    x = (2 * t - a - b) / (b - a)
                    ctx.close(series(list(co["ra"][j]), x)[0], r0 + r1 * (t - 60000.0), "linear motion is reproduced", tol=1e-6)
                    ctx.close(series(list(co["vmag"][j]), x)[0], g[1] + 0.1 * (t - 60000.0), "magnitude is reproduced", tol=1e-6)
                    ctx.close(series(list(co["geo_dist"][j]), x)[0], g[0], "distance is reproduced", tol=1e-6)
                    ctx.close(series(list(co["elongation"][j]), x)[0], g[2], "elongation is reproduced", tol=1e-6)
        ctx.check(c.failed == [], "nothing failed")


@harness(P, [F + "_get_coeffs_position", F + "_get_coeffs_other", F + "calc_one_segment"], "one segment of 5 ephemeris points of any distance, magnitude and elongation, right ascension crossing zero or not", quick=[{}, {"dec": 60.0}], budget=100)
def one_segment(ctx, dec=0.0):
    d, m, s = ctx.reals("d", 5, 1, 10), ctx.reals("m", 5, 15, 25), ctx.reals("s", 5, 10, 170)
    cross = ctx.bool("cross")
    r0, r1 = (ctx.real("r0", 359.1, 359.9), ctx.real("r1", 0.01, 1.0)) if cross else (ctx.real("r0", 10, 300), ctx.real("r1", -1, 1))
    time = [60000.0 + i for i in range(5)]
    ra = []
    for i in range(5):
        q = r0 + r1 * i
        if cross and bool(q >= 360):
            q = q - 360
        ra.append(q)
    eph = ctx.rec({"time": time, "ra": ra, "dec": [dec] * 5, "dradt": [r1 * math.cos(math.radians(dec))] * 5, "ddecdt": [0.0] * 5, "geo_dist": d, "magV": m, "solarelon": s})
    with stub(ctx, {4: None}):
        c = ChebyFits(orbits([4]), 60000.0, 4.0, ngran=4, n_coeff_position=4, n_coeff_vmag=3, n_coeff_delta=2, n_coeff_elongation=4)
        c.calc_one_segment(c.orbits_obj, eph)
    ctx.check(c.coeffs["obj_id"] == [4] and c.resids["obj_id"] == [4], "segment recorded")
    for x, t in ((-1.0, 0), (-0.5, 1), (0.0, 2), (0.5, 3), (1.0, 4)):
        v = series(list(c.coeffs["ra"][0]), x)[0]
        want = r0 + r1 * t
        crossed = cross and bool(r0 + r1 * 4 >= 360)
        ctx.close(v, want - 360 if crossed else want, "right ascension runs through zero smoothly", tol=1e-6)
    for key, q in (("geo_dist", d), ("vmag", m), ("elongation", s)):
        res = omax([oabs(q[i] - series(list(c.coeffs[key][0]), -1 + 0.5 * i)[0]) for i in range(5)])
        ctx.close(c.resids[key][0], res, "residual of its own quantity (%s)" % key, tol=1e-6)
        ctx.close(series(list(c.coeffs[key][0]), 1.0)[0], q[4], "end matched", tol=1e-6)


@harness(P, [F + "_get_coeffs_position"], "one segment of 2 ephemeris points at declination 0, 60 or -75 degrees with any position, rates and residuals of the two fits (the fit itself is the fit harness's matter)", quick=[{}], budget=100)
def position_residual(ctx):
    dec = ctx.choice("dec", [[0.0, 0.0], [60.0, 60.0], [-75.0, -75.0], [60.0, 0.0]])
    ra = ctx.reals("ra", 2, 100, 250)
    dr, dd = ctx.reals("dr", 2, -1, 1), ctx.reals("dd", 2, -1, 1)
    res = {"ra": ctx.reals("er", 2, -1, 1), "dec": ctx.reals("ed", 2, -1, 1)}
    eph = ctx.rec({"time": [60000.0, 60001.0], "ra": ra, "dec": dec, "dradt": dr, "ddecdt": dd})
    seen = []

    def fake(t, x, dxdt=None, x_multiplier=None, dx_multiplier=None, n_poly=7):
        which = "ra" if not seen else "dec"
        seen.append((list(x), list(dxdt), n_poly))
        return which, ctx.arr(res[which]), 0.0, 0.0

    with stub(ctx, {4: None}):
        c = ChebyFits(orbits([4]), 60000.0, 4.0, ngran=4, n_coeff_position=4, n_coeff_vmag=3, n_coeff_delta=2, n_coeff_elongation=4)
    old = cfmod.chebfit
    cfmod.chebfit = fake
    try:
        a, b, worst = c._get_coeffs_position(eph)
    finally:
        cfmod.chebfit = old
    ctx.check(len(seen) == 2, "two fits")
    if bool(seen[0][0][0] == dec[0]):
        ctx.skip()  # fitted in the other order: the residuals above would be swapped
    cos = [math.cos(math.radians(q)) for q in dec]
    ctx.check((a, b) == ("ra", "dec"), "coefficients of right ascension and declination")
    ctx.closes(seen[0][0], ra, "right ascension is fitted")
    ctx.closes(seen[1][0], dec, "declination is fitted")
    for i in range(2):
        ctx.close(seen[0][1][i] * cos[i], dr[i], "rate in right ascension is the rate on the sky over the cosine of the declination")
        ctx.close(seen[1][1][i], dd[i], "rate in declination")
    sq = [res["dec"][i] * res["dec"][i] + (res["ra"][i] * cos[i]) * (res["ra"][i] * cos[i]) for i in range(2)]
    big = ite(sq[0] > sq[1], sq[0], sq[1])
    ctx.check(worst >= 0, "residual is a distance")
    ctx.close(worst / 3.6e6 * (worst / 3.6e6), big, "largest distance on the sky between the fit and the ephemeris, in mas", tol=1e-6)


@harness(P, [F + "_subdivide_segment", F + "calc_one_segment", F + "calc_segment_length", F + "_round_length"], "one object whose motion bends by any amount that a few subdivisions can follow, tolerance 2.5 mas", quick=[{}], budget=150)
def subdivide(ctx):
    # t^4 with 4 coefficients: the residual scales with the fourth power of the length
    bend = ctx.real("bend", 0, 400) * 1e-8
    f, r0, r1, g = motion(ctx, "m", bend, False)
    with stub(ctx, {4: f}):
        c = ChebyFits(orbits([4]), 60000.0, 4.0, ngran=4, n_coeff_position=4, n_coeff_vmag=3, n_coeff_delta=2, n_coeff_elongation=2, sky_tolerance=2.5)
        c.length = 2.0
        c.calc_segments()
    ctx.check(c.failed == [], "a short enough segment is found")
    ends = [(float(a), float(b)) for a, b in zip(c.coeffs["t_start"], c.coeffs["t_end"])]
    ctx.check(abs(ends[0][0] - 60000.0) < 1e-6 and abs(ends[-1][1] - 60004.0) < 1e-6, "from the start to the end")
    for a, b in zip(ends, ends[1:]):
        ctx.check(abs(a[1] - b[0]) < 1e-6, "each segment starts where the one before ends")
    for j, (a, b) in enumerate(ends):
        for i in range(5):
            t = a + (b - a) * i / 4
            x = t - 60000.0
            v = series(list(c.coeffs["ra"][j]), -1 + 0.5 * i)[0]
            ctx.check(oabs(v - r0 - r1 * x - bend * x ** 4) * 3.6e6 <= 2.5 + 1e-5, "positions within the tolerance")
        ctx.check(c.resids["pos"][j] <= 2.5 + 1e-9, "residual within the tolerance")
        ctx.check(c.resids["t_start"][j] == c.coeffs["t_start"][j], "residual of the same segment")


@harness(P, [F + "write", V + "read_coefficients"], "two batches of 1 or 2 segments, with string or integer names, written together or appended, read back", quick=[{}], budget=60)
def files(ctx):
    names = ctx.choice("names", [[4, 9], ["a", "b"]])
    k = ctx.choice("k", [1, 2])
    append = ctx.bool("append")
    fail = ctx.bool("fail")
    n = {"ra": 4, "dec": 4, "geo_dist": 2, "vmag": 3, "elongation": 2}
    with tempfile.TemporaryDirectory() as d, stub(ctx, {}):
        paths = [os.path.join(d, q) for q in ("c", "r", "f")]
        rows = []
        for b in range(2):
            c = ChebyFits(orbits([4]), 60000.0, 4.0, ngran=4, n_coeff_position=4, n_coeff_vmag=3, n_coeff_delta=2, n_coeff_elongation=2)
            for i in range(k):
                row = {q: [round(10 * b + i + 0.125 * j + 0.5 * len(q), 4) for j in range(n[q])] for q in n}
                rows.append((names[b], 60000.0 + i, 60001.0 + i, row))
                c.coeffs["obj_id"].append(names[b])
                c.coeffs["t_start"].append(60000.0 + i)
                c.coeffs["t_end"].append(60001.0 + i)
                for q in n:
                    c.coeffs[q].append(np.array(row[q]))
                c.resids["obj_id"].append(names[b])
                c.resids["t_start"].append(60000.0 + i)
                c.resids["t_end"].append(60001.0 + i)
                for q in ("pos", "geo_dist", "vmag", "elongation"):
                    c.resids[q].append(0.25 * i + b)
            if fail:
                c.failed.append((names[b], 1.0, 2.0))
            _, e = ctx.call(c.write, *paths, append=append)
            ctx.check(e is None, "written")
        if not append:
            rows = rows[k:]
        cv = ChebyValues()
        cv.read_coefficients(paths[0])
        ctx.check([str(o) for o in cv.coeffs["obj_id"]] == [str(r[0]) for r in rows], "objects")
        ctx.check(list(cv.coeffs["t_start"]) == [r[1] for r in rows] and list(cv.coeffs["t_end"]) == [r[2] for r in rows], "times")
        for q in n:
            for j, r in enumerate(rows):
                ctx.check(bool(np.allclose(np.array(cv.coeffs[q][j], float), r[3][q], rtol=1e-6, atol=0)), "coefficients (%s)" % q)
        ctx.check(list(cv.coeffs["meanRA"]) == [r[3]["ra"][0] for r in rows], "mean right ascension")
        with open(paths[1]) as fh:
            lines = fh.read().split("\n")
        ctx.check(len(lines) == len(rows) + 2, "one residual line per segment and one header")
        if fail:
            with open(paths[2]) as fh:
                ctx.check(len(fh.read().split("\n")) == (3 if append else 2), "failed fits listed")
