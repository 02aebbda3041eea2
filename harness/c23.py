"""Self-calibration: simulated catalogues, what is kept for the solution, and the system that is solved."""

import contextlib
import sys
import warnings

import numpy as np

import rubin_sim.selfcal.offsets as of
import rubin_sim.selfcal.solver as so
import rubin_sim.selfcal.star_tools as st
from harness.lib import *  # noqa: F401,F403
from rubin_sim.selfcal import LsqrSolver, NoOffset, OffsetSNR

gc = sys.modules["rubin_sim.selfcal.generate_catalog"]
P = "C23"
S = "rubin_sim/selfcal/solver.py:LsqrSolver."
O = "rubin_sim/selfcal/offsets.py:"
T = "rubin_sim/selfcal/star_tools.py:"
G = "rubin_sim/selfcal/generate_catalog.py:"
assumptions(P, "the sparse least-squares routine (scipy lsqr) is taken as given: the system handed to it is checked; random draws are arbitrary numbers; star and field positions are concrete (projection and tree are trigonometric), magnitudes, depths and offsets are not")


@contextlib.contextmanager
def linear(solve):
    """Record the linear system; `solve` gives the solution of the stand-in."""
    seen = {}

    class Coo:
        def __init__(self, arg, shape=None):
            seen["data"], (seen["row"], seen["col"]) = arg[0], arg[1]
            seen["shape"] = shape

        def tocsr(self):
            return self

    def lsqr(a, b, **kw):
        seen["b"] = b
        return [solve(seen["shape"][1])]

    old = so.coo_matrix, so.lsqr
    so.coo_matrix, so.lsqr = Coo, lsqr
    try:
        yield seen
    finally:
        so.coo_matrix, so.lsqr = old


def kept(rows):
    """Rows (star, patch) left when stars and patches with a single observation are dropped until none is."""
    rows = list(range(len(rows))), rows
    idx = rows[0]
    rows = rows[1]
    while True:
        n = len(idx)
        idx = [i for i in idx if sum(1 for j in idx if rows[j][0] == rows[i][0]) > 1]
        idx = [i for i in idx if sum(1 for j in idx if rows[j][1] == rows[i][1]) > 1]
        if len(idx) == n:
            return idx


@harness(P, [S + "clean_data", S + "solve_matrix", S + "return_solution", S + "run"], "2 to 5 observations of any of 2 or 3 stars in any of 2 patches, in any order, with any magnitudes and uncertainties; any solution",
         quick=[{"n": n, "k": k} for n, k in ((2, 2), (3, 2), (4, 2))], thorough=[{"n": 4, "k": 3}, {"n": 5, "k": 2}], budget=200)
def solver(ctx, n, k):
    ids, pids = [30, 7, 12][:k], [5, 64]
    rows = [(ctx.choice("s%d" % i, ids), ctx.choice("p%d" % i, pids)) for i in range(n)]
    up = ctx.choice("up", [1, -1])
    mag = [20 + up * i + d for i, d in enumerate(ctx.reals("m", n, -0.4, 0.4))]  # told apart (and put in order) by the unit part
    err = ctx.reals("e", n, 0.001, 1)
    keep = kept(rows)
    if not keep:
        ctx.skip()
    stars = sorted({rows[i][0] for i in keep})
    patches = sorted({rows[i][1] for i in keep})
    obs = ctx.rec({"id": [r[0] for r in rows], "patch_id": [r[1] for r in rows], "observed_mag": mag, "mag_uncert": err}, kinds={"id": "i", "patch_id": "i"})
    x = ctx.reals("x", len(stars) + len(patches), -10, 30)
    with linear(lambda m: ctx.arr(x)) as seen:
        s = LsqrSolver(obs)
        s.run()
        p, q = s.return_solution()
    ctx.check(seen["shape"] == (len(keep), len(patches) + len(stars)), "one equation for each observation kept, one unknown for each patch and star")
    eq = {}
    for d, r, c in zip(list(seen["data"]), list(seen["row"]), list(seen["col"])):
        eq.setdefault(int(r), []).append((int(c), d))
    left = list(keep)
    for r in range(len(keep)):
        cs = sorted(c for c, _ in eq[r])
        ctx.check(len(cs) == 2 and 0 <= cs[0] < len(patches) <= cs[1] < len(patches) + len(stars), "a patch and a star in each equation")
        pair = (stars[cs[1] - len(patches)], patches[cs[0]])
        hit = None
        for i in left:
            if rows[i] == pair and bool(oabs(seen["b"][r] / eq[r][0][1] - mag[i]) < 0.1):
                hit = i
                break
        ctx.check(hit is not None, "the equation of an observation that was kept: patch zeropoint plus star magnitude, weighted")
        for _, d in eq[r]:
            ctx.close(d * err[hit], 1.0, "weight of the observation")
        ctx.close(seen["b"][r] * err[hit], mag[hit], "magnitude of the observation")
        left.remove(hit)
    ctx.check([int(v) for v in p["patch_id"]] == patches and [int(v) for v in q["id"]] == stars, "zeropoints and magnitudes under their own names")
    ctx.closes(list(p["zp"]), x[:len(patches)], "patch zeropoints")
    ctx.closes(list(q["fit_mag"]), x[len(patches):], "star magnitudes")


@harness(P, [O + "NoOffset.__call__", O + "OffsetSys.__call__", O + "OffsetSNR.__call__", O + "OffsetSNR.calc_mag_errors"], "1 to 3 stars of any magnitude, any depth, any earlier offsets, any random numbers", quick=[{"n": n} for n in (1, 2, 3)], budget=100)
def offsets(ctx, n):
    mag, m5 = ctx.reals("m", n, 15, 25), ctx.real("m5", 20, 26)
    u = ctx.reals("u", n, -4, 4)
    stars = ctx.rec({"rmag": mag})
    d1, d2 = ctx.reals("d1", n, -0.5, 0.5), ctx.reals("d2", n, -0.5, 0.5)
    earlier = ctx.choice("earlier", [None, 1, 2])
    dm = None if earlier is None else {"a": ctx.arr(d1)} if earlier == 1 else {"a": ctx.arr(d1), "b": ctx.arr(d2)}
    visit = {"fiveSigmaDepth": m5}
    with randoms(lambda k: ctx.arr(u[:k])):
        z = NoOffset()(stars, visit, dmags=dm)
        s = of.OffsetSys(error_sys=0.01)(stars, visit, dmags=dm)
        o = OffsetSNR("r")
        g = o(stars, visit, dmags=dm)
        e = o.calc_mag_errors(stars["rmag"], m5, err_only=True)
    ctx.check(len(z) == n and len(s) == n and len(g) == n, "an offset for each star")
    for i in range(n):
        ctx.close(0.0 + z[i], 0.0, "no offset")
        ctx.close(s[i], 0.01 * u[i], "systematic offset")
        seen = mag[i] + (d1[i] if earlier else 0) + (d2[i] if earlier == 2 else 0)
        snr = lambda m: 5 * ten(-0.4 * (m - m5))
        ctx.close(g[i], u[i] * 2.5 * log10(1 + 1 / snr(seen)), "noise of the magnitude that reaches the detector", tol=1e-6)
        ctx.close(e[i], 2.5 * log10(1 + 1 / snr(mag[i])), "expected error", tol=1e-6)
        ctx.close(stars["rmag"][i], mag[i], "the stars are not changed")


@contextlib.contextmanager
def randoms(f):
    old = np.random.randn
    np.random.randn = lambda k: f(k)
    try:
        yield
    finally:
        np.random.randn = old


@harness(P, [T + "assign_patches"], "1 or 2 stars anywhere in the field, any visit number, 1 to 16 patches, any size of the field from a list", quick=[{"n": 1}], thorough=[{"n": 2}], budget=100)
def patches(ctx, n):
    side = ctx.choice("side", [1, 2, 4])
    r = ctx.choice("r", [1.8, 1.0])
    m = math.tan(math.radians(r))
    fx, fy = ctx.reals("fx", n, 0.0001, 0.9999), ctx.reals("fy", n, 0.0001, 0.9999)
    for f in fx + fy:
        for k in range(1, side):
            ctx.assume(oabs(f * side - k) > 1e-6)
    v = ctx.choice("visit", [0, 3, 1000])
    stars = ctx.rec({"x": [(2 * f - 1) * m for f in fx], "y": [(2 * f - 1) * m for f in fy], "sub_patch": [0] * n, "patch_id": [0] * n}, kinds={"sub_patch": "i", "patch_id": "i"})
    out = st.assign_patches(stars, {"observationId": v}, n_patches=side * side, radius_fov=r)
    cell = lambda f: sum(1 for k in range(1, side) if bool(f * side > k))
    for i in range(n):
        want = cell(fx[i]) + side * cell(fy[i])
        ctx.check(int(out["sub_patch"][i]) == want, "patch of the field")
        ctx.check(int(out["patch_id"][i]) == want + side * side * v, "patches of different visits differ")


@harness(P, [T + "stars_project"], "one star, pointings and rotations from a list (compared with the projection of the scheduler turned by the rotation), any offset of the star drawn from a list", quick=[{}], budget=60)
def projection(ctx):
    from rubin_scheduler.utils import gnomonic_project_toxy
    ra, dec = ctx.choice("ra", [0.0, 10.0, 359.5]), ctx.choice("dec", [-30.0, 0.0, 60.0])
    dra, ddec = ctx.choice("dra", [-1.0, 0.0, 0.7]), ctx.choice("ddec", [-0.5, 0.0, 1.0])
    rot = ctx.choice("rot", [0.0, 90.0, 180.0, 33.0])
    stars = np.zeros(1, dtype=[(c, float) for c in ("ra", "decl", "x", "y", "radius")])
    stars["ra"], stars["decl"] = (ra + dra) % 360, dec + ddec
    out = st.stars_project(stars, {"ra": ra, "dec": dec, "rotSkyPos": rot})
    x, y = gnomonic_project_toxy(math.radians((ra + dra) % 360), math.radians(dec + ddec), math.radians(ra), math.radians(dec))
    c, s = math.cos(math.radians(rot)), math.sin(math.radians(rot))
    ctx.close(float(out["x"][0]), c * x + s * y, "x of the turned field")
    ctx.close(float(out["y"][0]), c * y - s * x, "y of the turned field")
    ctx.close(float(out["radius"][0]), math.hypot(x, y), "distance from the centre is not changed by the rotation")


@harness(P, [G + "generate_catalog", G + "build_tree", G + "treexyz"], "2 or 3 stars at given positions in or out of 1 or 2 visits of given pointings, any magnitudes, depths, offsets, uncertainty floor and random numbers", quick=[{"n": n, "v": v} for n, v in ((2, 1), (2, 2), (3, 2))], budget=150)
def catalog(ctx, n, v):
    pos = [ctx.choice("pos%d" % i, ["centre", "edge", "out"]) for i in range(n)]
    off = {"centre": 0.3, "edge": 1.7, "out": 1.9}
    mag = ctx.reals("m", n, 15, 25)
    m5 = ctx.reals("m5", v, 20, 26)
    shift = ctx.reals("shift", v * n, -0.3, 0.3)
    floor = ctx.real("floor", 0, 0.1)
    point = [(10.0, -5.0), (10.0, 20.0)][:v]
    stars = ctx.rec({"id": [40 - i for i in range(n)], "ra": [10.0] * n, "decl": [-5.0 + off[p] * (1 if i % 2 else -1) for i, p in enumerate(pos)], "rmag": mag}, kinds={"id": "i"})
    if v == 2:
        point[1] = (10.0, -3.5)
    vis = ctx.rec({"ra": [p[0] for p in point], "dec": [p[1] for p in point], "rotSkyPos": [0.0] * v, "fiveSigmaDepth": m5, "observationId": [3, 8][:v]}, kinds={"observationId": "i"})
    calls = []

    class Shift(of.BaseOffset):
        newkey = "dmag_shift"

        def __call__(self, s, visit, dmags=None, **kw):
            j = len(calls)
            calls.append([int(q) for q in s["id"]])
            return ctx.arr([shift[j * n + 40 - int(q)] for q in s["id"]])

    with warnings.catch_warnings(), np_seed():
        warnings.simplefilter("ignore")
        out = gc.generate_catalog(vis, stars, offsets=[Shift()] + ([NoOffset()] if ctx.bool("zero") else []), n_patches=4, uncert_floor=floor, verbose=False)
    want = []
    for j in range(v):
        for i in range(n):
            d = abs(float(np.asarray(stars["decl"])[i]) - point[j][1]) if not ctx.symbolic else abs(-5.0 + off[pos[i]] * (1 if i % 2 else -1) - point[j][1])
            if d < 1.8:
                want.append((j, i))
    rows = []
    for r in range(len(out)):
        rows.append((int(out["id"][r]), int(out["patch_id"][r]) // 4))
    ctx.check(sorted(rows) == sorted((40 - i, [3, 8][j]) for j, i in want), "every star in the field of each visit, once, and no other")
    for r, (sid, visit) in enumerate(rows):
        i, j = 40 - sid, [3, 8].index(visit)
        ob = mag[i] + shift[j * n + i]
        ctx.close(out["observed_mag"][r], ob, "magnitude of the star in this visit with its offset")
        ctx.close(out["rmag"][r], mag[i], "true magnitude")
        e = 2.5 * log10(1 + 1 / (5 * ten(-0.4 * (ob - m5[j]))))
        ctx.close(out["mag_uncert"][r], osqrt(e * e + floor * floor), "uncertainty of the observed magnitude and the floor", tol=1e-6)


@contextlib.contextmanager
def np_seed():
    s = np.random.get_state()
    try:
        yield
    finally:
        np.random.set_state(s)
