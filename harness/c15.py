"""Slicing on the sky: which visits are at each point, and what describes the point."""

import healpy as hp
import numpy as np

import rubin_sim.maf.slicers as slicers
from harness.lib import *  # noqa: F401,F403
from symx import run as _run

_run.EXTRA_MODULES += ["rubin_scheduler.utils.tree_utils", "rubin_scheduler.utils.coordinate_transformations"]
P = "C15"
SL = "rubin_sim/maf/slicers/"
assumptions(P, "scipy's k-d tree is modelled by its documented result (all points within the radius); sine and cosine are abstract functions with "
               "the facts that matter (range, sum of squares); the camera footprint of rubin_scheduler is a stand-in that picks the visits with a rotation below any limit; "
               "visits closer than 1e-6 to the edge of the circle are left out")


class Camera:
    def __init__(self, limit):
        self.limit, self.calls = limit, []

    def __call__(self, ra, dec, dra, ddec, drot):
        self.calls.append((ra, dec, dra, ddec, drot))
        return np.array([i for i in range(len(dra)) if drot[i] <= self.limit], dtype=int)


class Backwards:
    """A k-d tree that returns the points it finds in another order (scipy documents none)."""

    def __init__(self, tree):
        self.tree = tree

    def query_ball_point(self, *a, **k):
        out = self.tree.query_ball_point(*a, **k)
        return list(out)[::-1]


def vec(ra, dec):
    c = ouf("cos", dec)
    return [ouf("cos", ra) * c, ouf("sin", ra) * c, ouf("sin", dec)]


def near(ctx, p, q, rad):
    """Whether two directions are within rad degrees (chord form)."""
    d2 = osum([(a - b) * (a - b) for a, b in zip(p, q)])
    r2 = 4 * np.sin(np.radians(rad) / 2) ** 2
    ctx.assume(sor(d2 - r2 > 1e-7, r2 - d2 > 1e-7))
    return bool(d2 <= r2)


PTS = [(10.0, -30.0), (200.0, 5.0)]


class UserCam(slicers.UserPointsSlicer):
    cam = None

    def _setupLSSTCamera(self):
        self.camera = self.cam


class HealCam(slicers.HealpixSlicer):
    cam = None

    def _setupLSSTCamera(self):
        self.camera = self.cam


class SubCam(slicers.HealpixSubsetSlicer):
    cam = None

    def _setupLSSTCamera(self):
        self.camera = self.cam


@harness(P, [SL + "base_spatial_slicer.py:BaseSpatialSlicer.setup_slicer", SL + "base_spatial_slicer.py:BaseSpatialSlicer._set_rad",
             SL + "base_spatial_slicer.py:BaseSpatialSlicer._build_tree", SL + "user_points_slicer.py:UserPointsSlicer.__init__", SL + "healpix_slicer.py:HealpixSlicer.__init__",
             SL + "healpix_subset_slicer.py:HealpixSubsetSlicer.setup_slicer", SL + "healpix_subset_slicer.py:HealpixSubsetSlicer.__next__"],
         "1 or 2 visits at any right ascension (two declinations) or any declination (two right ascensions), in degrees or radians; given points, a HEALPix grid or a subset of it; circle of any of two radii or camera footprint",
         quick=[{"kind": k, "n": 1, "vary": w} for k in ("user", "heal", "subset") for w in ("ra", "dec")] + [{"kind": "user", "n": 2, "vary": w} for w in ("ra", "dec")], budget=300)
def sky(ctx, kind, n, vary):
    deg, usecam = (ctx.bool("deg"), ctx.bool("cam")) if n == 1 else (True, True)
    rad = ctx.choice("rad", [1.75, 40.0]) if n == 1 else 40.0
    unit = 1.0 if deg else np.pi / 180
    if vary == "ra":
        ra, dec = [ctx.real("ra%d" % i, 0, 359) for i in range(n)], [ctx.choice("dec%d" % i, [-32.0, 40.0]) for i in range(n)]
    else:
        ra, dec = [ctx.choice("ra%d" % i, [12.0, 359.0]) for i in range(n)], [ctx.real("dec%d" % i, -90, 90) for i in range(n)]
    rot = [ctx.real("rot%d" % i, 0, 360) for i in range(n)]
    cols = ("fieldRA", "fieldDec", "rotSkyPos") if ctx.bool("default") or n > 1 else ("aa", "bb", "cc")
    kw = dict(lon_col=cols[0], lat_col=cols[1], rot_sky_pos_col_name=cols[2], lat_lon_deg=deg, radius=rad, use_camera=usecam, verbose=False)
    limit = ctx.real("limit", 0, 360)
    ctx.assume(sand(*[sor(x - limit > 1e-6, limit - x > 1e-6) for x in rot]))
    cam = Camera(np.radians(limit))
    if kind == "user":
        s = UserCam(ra=np.array([p[0] for p in PTS]), dec=np.array([p[1] for p in PTS]), **kw)
        pts = [(np.radians(a), np.radians(b)) for a, b in PTS]
        sids = [0, 1]
    elif kind == "heal":
        s = HealCam(nside=1, use_cache=False, **kw)
        th, ph = hp.pix2ang(1, np.arange(12))
        pts = list(zip(ph, np.pi / 2 - th))
        sids = [0, 11]
    else:
        s = SubCam(nside=1, hpid=np.array([7, 2]), use_cache=False, **kw)
        th, ph = hp.pix2ang(1, np.arange(12))
        pts = list(zip(ph, np.pi / 2 - th))
        sids = [7, 2]
    s.cam = cam
    d = ctx.rec({cols[0]: [x * unit for x in ra], cols[1]: [x * unit for x in dec], cols[2]: [x * unit for x in rot]})
    s.setup_slicer(d)
    if hasattr(s, "opsimtree"):
        s.opsimtree = Backwards(s.opsimtree)
    rr, dd = [np.radians(x) for x in ra], [np.radians(x) for x in dec]
    if kind == "subset":
        it = list(s)
        ctx.check([x["slice_point"]["sid"] for x in it] == sids, "only the pixels of the subset, in the order given")
        out = s._slice_sim_data(3)
        ctx.check(len(out["idxs"]) == 0, "no visits at pixels outside the subset")
    else:
        it = [s._slice_sim_data(i) for i in sids]
    for sid, x in zip(sids, it):
        want = [i for i in range(n) if near(ctx, vec(rr[i], dd[i]), [float(q) for q in (np.cos(pts[sid][0]) * np.cos(pts[sid][1]),
                                                                                       np.sin(pts[sid][0]) * np.cos(pts[sid][1]), np.sin(pts[sid][1]))], rad)]
        inside = list(want)
        if usecam and want:
            want = [w for w in want if bool(rot[w] <= limit)]
            c = [q for q in cam.calls if abs(float(q[0]) - pts[sid][0]) < 1e-9 and abs(float(q[1]) - pts[sid][1]) < 1e-9]
            ctx.check(len(c) == 1, "the camera is asked about the point")
            ctx.check(len(c[0][2]) == len(inside), "the camera is asked about the visits in the circle")
            for w in inside:
                ctx.check(sor(*[sand(abs(c[0][2][j] - rr[w]) < 1e-9, abs(c[0][3][j] - dd[w]) < 1e-9, abs(c[0][4][j] - np.radians(rot[w])) < 1e-9)
                                for j in range(len(inside))]), "the camera is asked about each visit's position and rotation, in radians")
        ctx.check(sorted(int(i) for i in x["idxs"]) == want, "exactly the visits whose circle, and camera, covers the point")
        sp = x["slice_point"]
        ctx.check(sp["sid"] == sid, "point number")
        ctx.close(sp["ra"], float(pts[sid][0]), "point right ascension in radians")
        ctx.close(sp["dec"], float(pts[sid][1]), "point declination in radians")


class TwoMaps:
    def __init__(self, per, whole):
        self.per, self.whole = per, whole

    def run(self, sp):
        sp["per"] = np.array(self.per)
        sp["whole"] = np.array(self.whole)
        sp["two"] = np.array([self.per, self.per]).T
        return sp


@harness(P, [SL + "base_spatial_slicer.py:BaseSpatialSlicer.setup_slicer", SL + "user_points_slicer.py:UserPointsSlicer.__init__"], "2 points, maps with any values for each point or for all points",
         quick=[{}], budget=60)
def described(ctx):
    per, whole = ctx.reals("p", 2, -4, 4), ctx.reals("w", 3, -4, 4)
    s = slicers.UserPointsSlicer(ra=[10.0, 200.0], dec=[0.0, 5.0], use_camera=False, verbose=False, lat_lon_deg=False)
    s.setup_slicer(ctx.rec({"fieldRA": [0.0], "fieldDec": [0.0], "rotSkyPos": [0.0]}), maps=[TwoMaps(per, whole)])
    for i in range(2):
        sp = s._slice_sim_data(i)["slice_point"]
        ctx.close(sp["per"], per[i], "the value of a map at the point")
        ctx.closes(sp["two"], [per[i], per[i]], "the row of a map at the point")
        ctx.closes(sp["whole"], whole, "information that is not for each point is passed whole")


@harness(P, [SL + "healpix_slicer.py:HealpixSlicer.__eq__", SL + "healpix_subset_slicer.py:HealpixSubsetSlicer.__eq__", SL + "user_points_slicer.py:UserPointsSlicer.__eq__"],
         "2 slicers of the same kind, any radii, any of two column names, camera choices and grids or subsets", quick=[{"kind": k} for k in ("heal", "subset", "user")], budget=200)
def equality(ctx, kind):
    kws, grids = [], []
    for i in range(2):
        kws.append(dict(radius=ctx.real("r%d" % i, 1, 3), use_camera=ctx.bool("c%d" % i) if i else True, verbose=False,
                        **dict([ctx.choice("col%d" % i, [("lon_col", "fieldRA"), ("lon_col", "x"), ("lat_col", "x"), ("rot_sky_pos_col_name", "x")]) if i else ("lon_col", "fieldRA")])))
        grids.append(ctx.cint("g%d" % i, 0, 1))
    if kind == "heal":
        s = [slicers.HealpixSlicer(nside=1 + g, **k) for g, k in zip(grids, kws)]
    elif kind == "subset":
        s = [slicers.HealpixSubsetSlicer(nside=1, hpid=np.array([1, 2 + g]), **k) for g, k in zip(grids, kws)]
    else:
        s = [slicers.UserPointsSlicer(ra=[10.0, 20.0 + g], dec=[0.0, 1.0], **k) for g, k in zip(grids, kws)]
    same = sand(kws[0]["radius"] == kws[1]["radius"], kws[1]["use_camera"] and grids[0] == grids[1] and kws[1].get("lon_col") == "fieldRA")
    ctx.eq(bool(s[0] == s[1]), bool(same), "equal exactly when they slice the same columns at the same points with the same footprint")
    ctx.eq(bool(s[0] != s[1]), not bool(same), "different otherwise")
