"""Orbits, orbit formats and simulated observations of moving objects."""

import contextlib
import os
import tempfile
import types
import warnings

import numpy as np
import pandas as pd

import rubin_sim.moving_objects.base_obs as bo
import rubin_sim.moving_objects.direct_obs as do
import rubin_sim.moving_objects.ooephemerides as oe
from harness.lib import *  # noqa: F401,F403
from rubin_sim.moving_objects import BaseObs, DirectObs, Orbits, PyOrbEphemerides

P = "C22"
O = "rubin_sim/moving_objects/orbits.py:Orbits."
B = "rubin_sim/moving_objects/base_obs.py:BaseObs."
D = "rubin_sim/moving_objects/direct_obs.py:DirectObs."
E = "rubin_sim/moving_objects/ooephemerides.py:PyOrbEphemerides."
assumptions(P, "OpenOrb is replaced by arbitrary functions of time; separations are exact along a meridian (all right ascensions equal) and otherwise not covered for circular fields; the camera footprint itself (rubin_scheduler) is not covered; cosines of constant angles only")

ELS = {"KEP": ["a", "e", "inc", "Omega", "argPeri", "meanAnomaly"], "COM": ["q", "e", "inc", "Omega", "argPeri", "tPeri"], "CAR": ["x", "y", "z", "xdot", "ydot", "zdot"]}
ANGLES = {"inc", "Omega", "argPeri", "meanAnomaly"}


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def col(ctx, vals):
    return ctx.arr(vals)


def frame(cols):
    """A DataFrame whose columns may hold symbolic numbers."""
    return pd.DataFrame({k: pd.Series([x for x in v], dtype=object if any(is_sym(x) for x in v) else None) for k, v in cols.items()})


def elements(ctx, fmt, n, tag=""):
    c = {k: ctx.reals("%s%s" % (tag, k), n, 0.1, 0.9) for k in ELS[fmt]}
    c["epoch"] = [60000.0 + i for i in range(n)]
    return c


def val(df, c, i):
    return df[c].iloc[i]


@harness(P, [O + "__eq__", O + "__ne__", O + "set_orbits"], "two sets of 1 or 2 orbits, any format, any elements, magnitudes and names", quick=[{"n": 1, "fmt": "KEP"}, {"n": 2, "fmt": "COM"}, {"n": 1, "fmt": "CAR"}], budget=100)
def equality(ctx, n, fmt):
    a, b = elements(ctx, fmt, n), elements(ctx, fmt, n)  # same symbols
    which = ctx.choice("which", ["same"] + ELS[fmt][1:4] + [ELS[fmt][-1], "epoch", "H", "g", "sed_filename", "obj_id", "format"])
    at = ctx.choice("at", list(range(n)))
    for c in (a, b):
        c["obj_id"] = list(range(5, 5 + n))
        c["H"], c["g"], c["sed_filename"] = [20.0] * n, [0.15] * n, ["C.dat"] * n
    other = ctx.real("other", 0.1, 0.9)
    fmt2 = fmt
    if which in ELS[fmt]:
        b[which] = list(b[which])
        b[which][at] = other
        same = bool(other == a[which][at])
    elif which == "format":
        fmt2 = {"KEP": "COM", "COM": "CAR", "CAR": "KEP"}[fmt]
        b.update({k: [0.5] * n for k in ELS[fmt2]})
        for k in ELS[fmt]:
            if k not in ELS[fmt2]:
                b.pop(k)
        same = False
    elif which != "same":
        b[which] = list(b[which])
        b[which][at] = {"epoch": 60100.0, "H": 21.0, "g": 0.2, "sed_filename": "S.dat", "obj_id": 99}[which]
        same = False
    else:
        same = True
    x, y = Orbits(), Orbits()
    with quiet():
        x.set_orbits(frame(a))
        y.set_orbits(frame(b))
    ctx.check(x.orb_format == fmt and y.orb_format == fmt2, "format found from the columns")
    ctx.check(bool(x == y) == same, "equal exactly when every element is")
    ctx.check(bool(y == x) == same, "either way round")
    ctx.check(bool(x != y) == (not same), "different exactly when not equal")
    ctx.check(not (x == 3) and x != 3, "not equal to something else")


@harness(P, [O + "set_orbits", O + "assign_sed", O + "__len__", O + "__getitem__", O + "__iter__"], "1 to 3 orbits with any elements; each optional column given or not; format stated, found or wrong; epochs in days or not; given as frame, series or record array", quick=[{"n": 1}, {"n": 2}], thorough=[{"n": 3}], budget=150)
def setting(ctx, n):
    fmt = ctx.choice("fmt", ["KEP", "COM", "CAR"])
    c = elements(ctx, fmt, n)
    stated = ctx.choice("stated", ["no", "yes", "other"])
    opt = ctx.choice("opt", ["none", "all", "obj_id", "sed_filename"])
    drop = ctx.choice("drop", ["no", ELS[fmt][1], ELS[fmt][5]])
    if opt in ("all", "obj_id"):
        c["obj_id"] = [50 + i for i in range(n)]
    if opt == "all":
        c["H"], c["g"] = ctx.reals("H", n, 10, 25), ctx.reals("g", n, 0, 1)
    if opt in ("all", "sed_filename"):
        c["sed_filename"] = ["X%d.dat" % i for i in range(n)]
    if stated != "no":
        f = fmt if stated == "yes" else {"KEP": "COM", "COM": "CAR", "CAR": "KEP"}[fmt]
        c["FORMAT"] = [("CART" if f == "CAR" else f)] * n
    if drop != "no":
        if fmt != "KEP" and opt != "all":
            ctx.skip()
        del c[drop]
    df = frame(c)
    df.index = [10 + i for i in range(n)]
    o = Orbits()
    with quiet():
        _, err = ctx.call(o.set_orbits, df)
    ctx.check(list(df.columns) == list(c) and list(df.index) == [10 + i for i in range(n)], "the table given is not changed")
    if stated == "other" or drop != "no":
        ctx.check(isinstance(err, ValueError), "incomplete or misnamed elements are refused")
        return
    ctx.check(err is None, "complete elements are accepted")
    ctx.check(o.orb_format == fmt and len(o) == n, "format and number")
    for i in range(n):
        for k in ELS[fmt]:
            ctx.close(val(o.orbits, k, i), c[k][i], "elements as given (%s)" % k)
        ctx.check(int(val(o.orbits, "obj_id", i)) == (50 + i if "obj_id" in c else i), "name given or number in the list")
        ctx.close(val(o.orbits, "H", i), c["H"][i] if "H" in c else 20.0, "magnitude given or 20")
        ctx.close(val(o.orbits, "g", i), c["g"][i] if "g" in c else 0.15, "slope given or 0.15")
        if "sed_filename" in c:
            ctx.check(val(o.orbits, "sed_filename", i) == "X%d.dat" % i, "spectrum given")
        else:
            ctx.check(val(o.orbits, "sed_filename", i) in ("C.dat", "S.dat"), "spectrum assigned")
    ones = list(o)
    ctx.check(len(ones) == n, "one by one")
    for i, one in enumerate(ones):
        ctx.check(len(one) == 1 and one.orb_format == fmt, "a single orbit")
        ctx.close(val(one.orbits, ELS[fmt][2], 0), c[ELS[fmt][2]][i], "the orbit itself")
        ctx.check(int(val(one.orbits, "obj_id", 0)) == int(val(o.orbits, "obj_id", i)), "its own name")
        with quiet():
            ctx.check(int(val(o[i].orbits, "obj_id", 0)) == int(val(o.orbits, "obj_id", i)), "picked by number")


@harness(P, [O + "set_orbits", O + "assign_sed"], "any epoch between 1800 and 2200 and five outside; any size of orbit; any random number", quick=[{}], budget=60)
def sanity(ctx):
    ep = ctx.choice("epoch?", [None, -21503.5, -21503.0001, 124594.0001, 124595.0, 2460000.5])  # refused ones are printed, hence numbers
    if ep is None:
        ep = ctx.real("epoch", -21503.0, 124594.0)
    c = {k: [0.5] for k in ELS["KEP"]}
    c["epoch"] = [ep]
    o = Orbits()
    _, err = ctx.call(o.set_orbits, frame(c))
    ok = bool(ep >= -21503.0) and bool(ep <= 124594.0)
    ctx.check((err is None) if ok else isinstance(err, ValueError), "epochs outside 1800 to 2200 (Julian dates, say) are refused")
    fmt = ctx.choice("fmt", ["KEP", "COM", "CAR"])
    a, e, u = ctx.real("a", 0.5, 6), ctx.real("e", 0, 0.9), ctx.real("u", 0.001, 0.999)
    c = {"KEP": {"a": [a]}, "COM": {"q": [a * (1 - e)], "e": [e]}, "CAR": {"x": [a], "y": [0.0], "z": [0.0]}}[fmt]
    o2 = Orbits()
    o2._rng = types.SimpleNamespace(random_sample=lambda n: ctx.arr([u] * n))
    got = list(o2.assign_sed(frame(c)))
    p = a / 2 - 1
    ctx.assume(oabs(p - u) > 1e-6)
    ctx.check(str(got[0]) == ("C.dat" if bool(u <= p) else "S.dat"), "chance of a C type grows from 0 at 2 au to 1 at 4 au")


ALT = {
    "obj_id": ["obj_id", "objid", "!!ObjID", "!!OID", "!!S3MID", "OID", "S3MID", "objid(int)", "full_name", "#name"],
    "e": ["e", "ecc"], "inc": ["inc", "i", "i(deg)", "incl"], "Omega": ["Omega", "omega", "node", "om", "node(deg)", "BigOmega", "Omega/node", "longNode"],
    "argPeri": ["argPeri", "argperi", "omega/argperi", "w", "argperi(deg)", "peri"], "tPeri": ["tPeri", "t_p", "timeperi", "t_peri", "T_peri"], "epoch": ["epoch", "t_0", "Epoch", "epoch_mjd"],
    "H": ["H", "magH", "magHv", "Hv", "H_v"], "g": ["g", "phaseV", "phase", "gV", "phase_g", "G"], "meanAnomaly": ["meanAnomaly", "meanAnom", "M", "ma"], "sed_filename": ["sed_filename", "sed"],
    "xdot": ["xdot", "xDot"], "ydot": ["ydot", "yDot"], "zdot": ["zdot", "zDot"],
}


@harness(P, [O + "read_orbits"], "files of 2 orbits of each format; every known spelling of every column (one at a time), with comment lines, comment marks, separators, or no header at all; any sign of the inclination", quick=[{"fmt": f} for f in ELS], budget=150)
def reading(ctx, fmt):
    cols = ["obj_id"] + ELS[fmt] + ["H", "epoch", "g", "sed_filename"]
    which = ctx.choice("which", [c for c in cols if c in ALT])
    alt = ctx.choice("alt", ALT[which])
    style = ctx.choice("style", ["plain", "comment", "hash", "comma"]) if alt == which or which == "inc" else "plain"
    neg = ctx.bool("neg") if which == "inc" and alt == "inc" and fmt != "CAR" else False
    vals = {c: [round(0.1 * (j + 1) + 0.01 * i, 3) for i in range(2)] for j, c in enumerate(cols)}
    vals.update(obj_id=[11, 12], epoch=[60000.0, 60001.0], H=[20.5, 21.5], sed_filename=["C.dat", "S.dat"])
    if neg:
        vals["inc"] = [1.0, -2.0]
    names = [alt if c == which else c for c in cols]
    sep = "," if style == "comma" else " "
    lines = ["# made by hand"] if style == "comment" else []
    lines.append(("# " if style == "hash" else "") + sep.join(names))
    lines += [sep.join(str(vals[c][i]) for c in cols) for i in range(2)]
    with tempfile.TemporaryDirectory() as d, quiet():
        path = os.path.join(d, "o")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        o = Orbits()
        _, err = ctx.call(o.read_orbits, path, **({"delim": ","} if style == "comma" else {}))
    if neg:
        ctx.check(isinstance(err, ValueError), "negative inclinations are refused")
        return
    ctx.check(err is None, "read (%s)" % err)
    ctx.check(o.orb_format == fmt and len(o) == 2, "format and number")
    for c in cols:
        for i in range(2):
            ctx.check(val(o.orbits, c, i) == vals[c][i], "column %s under the name %s" % (c, alt))


@harness(P, [O + "read_orbits"], "files of 2 orbits without a header, each format", quick=[{}], budget=60)
def headerless(ctx):
    fmt = ctx.choice("fmt", list(ELS))
    rows = []
    for i in range(2):
        rows.append(["obj%d" % i, fmt] + ["%.3f" % (0.1 * (j + 1) + 0.01 * i) for j in range(6)] + ["%.1f" % (20 + i), "%.1f" % (60000 + i), "1", "6", "-1", "CODE"])
    with tempfile.TemporaryDirectory() as d, quiet():
        path = os.path.join(d, "o")
        with open(path, "w") as f:
            f.write("\n".join(" ".join(r) for r in rows) + "\n")
        o = Orbits()
        o.read_orbits(path)
    ctx.check(o.orb_format == fmt and len(o) == 2, "format and number")
    for i in range(2):
        for j, c in enumerate(ELS[fmt]):
            ctx.check(abs(val(o.orbits, c, i) - float(rows[i][2 + j])) < 1e-9, "element %s" % c)
        ctx.check(val(o.orbits, "obj_id", i) == "obj%d" % i and val(o.orbits, "H", i) == 20 + i and val(o.orbits, "epoch", i) == 60000 + i, "name, magnitude and epoch")


class OO:
    """OpenOrb stand-in: records what it is given and returns what it is told to."""

    def __init__(self):
        self.out, self.err, self.got = None, 0, {}
        self.pyoorb = self

    def oorb_init(self, **kw):
        pass

    def _do(self, **kw):
        self.got = kw
        return self.out, self.err

    oorb_ephemeris_basic = oorb_ephemeris_full = oorb_element_transformation = oorb_propagation = _do


@contextlib.contextmanager
def openorb():
    had, old = hasattr(oe, "oo"), getattr(oe, "oo", None)
    present = oe.PYOORB_PRESENT
    oe.oo, oe.PYOORB_PRESENT = OO(), True
    try:
        with quiet():
            yield oe.oo
    finally:
        oe.PYOORB_PRESENT = present
        if had:
            oe.oo = old
        else:
            del oe.oo


@harness(P, [E + "set_orbits", E + "_convert_to_oorb_elem", E + "convert_from_oorb_elem", O + "update_orbits"], "1 or 2 orbits of any format with any elements", quick=[{"n": 1}, {"n": 2}], budget=100)
def packing(ctx, n):
    fmt = ctx.choice("fmt", list(ELS))
    c = elements(ctx, fmt, n)
    c.update(obj_id=["x%d" % i for i in range(n)], H=ctx.reals("H", n, 10, 25), g=ctx.reals("g", n, 0, 1), sed_filename=["s%d" % i for i in range(n)])
    o = Orbits()
    with openorb():
        o.set_orbits(frame(c))
        p = PyOrbEphemerides(ephfile="none")
        p.set_orbits(o)
    m = p.oorb_elem
    r = math.pi / 180
    for i in range(n):
        for j, k in enumerate(ELS[fmt]):
            ctx.close(m[i, 1 + j], c[k][i] * (r if k in ANGLES else 1), "element %s, angles in radians" % k)
        ctx.close(m[i, 0], i + 1, "number")
        ctx.close(m[i, 7], {"CAR": 1, "COM": 2, "KEP": 3}[fmt], "type code")
        ctx.close(m[i, 8], c["epoch"][i], "epoch")
        ctx.close(m[i, 9], 3, "time scale TT")
        ctx.close(m[i, 10], c["H"][i], "magnitude")
        ctx.close(m[i, 11], c["g"][i], "slope")
    later = ctx.real("later", 0, 100)
    for i in range(n):
        p.oorb_elem[i, 8] = p.oorb_elem[i, 8] + later
        p.oorb_elem[i, 1] = p.oorb_elem[i, 1] + 0.125
    back = p.convert_from_oorb_elem()
    for i in range(n):
        ctx.assume(c["epoch"][i] + later < 70000)
    with quiet():
        o.update_orbits(back)
    for i in range(n):
        for k in ELS[fmt] + ["epoch", "H", "g"]:
            ctx.close(val(o.orbits, k, i), c[k][i] + (later if k == "epoch" else 0.125 if k == ELS[fmt][0] else 0), "there and back, with the new values (%s)" % k)
        ctx.check(val(o.orbits, "obj_id", i) == "x%d" % i and val(o.orbits, "sed_filename", i) == "s%d" % i, "names and spectra stay")


@harness(P, [E + "generate_ephemerides", E + "_convert_times", E + "_convert_oorb_ephs_basic", E + "_convert_oorb_ephs_full", E + "propagate_orbits", E + "convert_orbit_format"], "1 or 2 objects at 1 or 2 times with any ephemeris, by object or by time, basic or full, any time scale, with or without an error of the generator", quick=[{"n": 1, "k": 2}, {"n": 2, "k": 2}], budget=100)
def unpacking(ctx, n, k):
    full = ctx.bool("full")
    byobj = ctx.bool("byobj")
    scale = ctx.choice("scale", ["UTC", "TAI", "TT"])
    mode = ctx.choice("mode", ["nbody", "2body", "N", "2", "odd"])
    err = ctx.bool("err")
    ne = 34 if full else 11
    raw = np.zeros((n, k, ne), dtype=object)
    for i in range(n):
        for j in range(k):
            for e in range(ne):
                raw[i, j, e] = 100.0 * i + 10.0 * j + 0.1 * e
            for e in (1, 2, 3, 4, 9):
                raw[i, j, e] = ctx.real("v%d_%d_%d" % (i, j, e), -5, 5)
    if ctx.symbolic:
        from symx import symnp
        arr = raw.view(symnp.SymArray)
    else:
        arr = raw.astype(float)
    times = np.array([60000.0 + j for j in range(k)])
    with openorb() as oo:
        p = PyOrbEphemerides(ephfile="none")
        p.oorb_elem, p.orb_format = "elements", "KEP"
        oo.out, oo.err = arr, 5 if err else 0
        eph, ex = ctx.call(p.generate_ephemerides, times, time_scale=scale, by_object=byobj, eph_mode=mode, eph_type="full" if full else "basic")
        got = oo.got
        if mode == "odd":
            ctx.check(isinstance(ex, ValueError), "unknown dynamical model refused")
            return
        if err:
            ctx.check(isinstance(ex, RuntimeError), "an error of the generator is reported")
            return
        ctx.check(ex is None, "generated")
        ctx.check(got["in_orbits"] == "elements" and got["in_dynmodel"] == mode[0].upper(), "orbits and dynamical model passed on")
        t = got["in_date_ephems"]
        for j in range(k):
            ctx.close(t[j][0], times[j], "time")
            ctx.close(t[j][1], {"UTC": 1, "TT": 3, "TAI": 4}[scale], "time scale")
    names = ["time", "ra", "dec", "dradt", "ddecdt", "phase", "solarelon", "helio_dist", "geo_dist", "magV"]
    for i in range(n):
        for j in range(k):
            for e, q in enumerate(names):
                v = eph[q][i][j] if byobj else eph[q][j][i]
                ctx.close(v, raw[i, j, e], "column %s of each object and time" % q)
            v = eph["velocity"][i][j] if byobj else eph["velocity"][j][i]
            ctx.close(v, osqrt(raw[i, j, 3] * raw[i, j, 3] + raw[i, j, 4] * raw[i, j, 4]), "speed on the sky")


@harness(P, [E + "propagate_orbits", E + "convert_orbit_format", E + "_convert_times"], "any new epoch or epochs, every spelling of the dynamical model and one unknown, formats KEP, COM and CAR, success or failure of the propagator (its arithmetic abstract)", quick=[{}], budget=60)
def passing_on(ctx):
    mode = ctx.choice("mode", ["nbody", "N", "n", "2body", "2", "odd"])
    fmt = ctx.choice("fmt", ["KEP", "CAR", "COM"])
    bad = ctx.bool("bad")
    t = ctx.real("t", 50000, 70000)
    with openorb() as oo:
        p = PyOrbEphemerides(ephfile="none")
        p.oorb_elem, p.orb_format = "old", "KEP"
        oo.out, oo.err = "new", 3 if bad else 0
        _, ex = ctx.call(p.propagate_orbits, ctx.arr([t]), eph_mode=mode)
        if mode == "odd":
            ctx.check(isinstance(ex, ValueError) and p.oorb_elem == "old", "unknown dynamical model refused, orbits as they were")
        elif bad:
            ctx.check(isinstance(ex, RuntimeError) and p.oorb_elem == "old", "an error of the propagator is reported, orbits as they were")
        else:
            ctx.check(ex is None and p.oorb_elem == "new", "propagated")
            ctx.check(oo.got["in_orbits"] == "old" and oo.got["in_dynmodel"] == ("N" if mode[0].lower() == "n" else "2"), "orbits and dynamical model passed on")
            e = np.asarray(oo.got["in_epoch"]).ravel()
            ctx.check(len(e) == 2, "one epoch")
            ctx.close(e[0], t, "epoch")
            ctx.close(e[1], 3, "time scale TT")
        p.oorb_elem, p.orb_format = "old", "KEP"
        _, ex = ctx.call(p.convert_orbit_format, fmt)
        if bad:
            ctx.check(isinstance(ex, RuntimeError) and p.oorb_elem == "old" and p.orb_format == "KEP", "an error of the conversion is reported, orbits as they were")
        else:
            ctx.check(ex is None and p.oorb_elem == "new" and p.orb_format == fmt, "converted to the format asked for")
            ctx.check(oo.got["in_orbits"] == "old" and oo.got["in_element_type"] == {"CAR": 1, "COM": 2, "KEP": 3}[fmt], "orbits and format passed on")


@harness(P, [B + "sso_in_rectangle_fov", B + "_sso_in_rectangle_fov", B + "sso_in_fov"], "1 or 2 visits at any right ascension and one of three declinations, any object nearby or on the other side of zero, columns in degrees or radians, any field size", quick=[{"n": 1}, {"n": 2}], budget=100)
def rectangle(ctx, n):
    deg = ctx.bool("degrees")
    xt, yt = ctx.real("x_tol", 0.5, 6), ctx.real("y_tol", 0.5, 6)
    dec = ctx.choice("dec", [0.0, 60.0, -30.0])
    ra = ctx.reals("ra", n, 0, 359)
    dx, dy = ctx.reals("dx", n, -20, 20), ctx.reals("dy", n, -8, 8)
    obj = []
    for i in range(n):
        q = ra[i] + dx[i]
        if bool(q < 0):
            q = q + 360
        elif bool(q >= 360):
            q = q - 360
        obj.append(q)
    with quiet():
        b = BaseObs(footprint="rectangle", x_tol=xt, y_tol=yt, obs_degrees=deg, eph_type="basic")
    f = 1.0 if deg else math.pi / 180
    obs = ctx.rec({"fieldRA": [q * f for q in ra], "fieldDec": [dec * f] * n})
    eph = ctx.rec({"ra": obj, "dec": [dec + q for q in dy]})
    got = [int(i) for i in b.sso_in_fov(eph, obs)]
    cosd = math.cos(math.radians(dec))
    for i in range(n):
        ctx.assume(oabs(oabs(dx[i]) * cosd - xt) > 1e-6)
        ctx.assume(oabs(oabs(dy[i]) - yt) > 1e-6)
    want = [i for i in range(n) if bool(oabs(dx[i]) * cosd <= xt) and bool(oabs(dy[i]) <= yt)]
    ctx.check(got == want, "objects inside the field, across right ascension zero too")


@contextlib.contextmanager
def meridian(ctx):
    """Separations along one meridian (all right ascensions equal)."""
    if not ctx.symbolic:
        yield
        return
    old = bo.angular_separation, do.angular_separation
    bo.angular_separation = do.angular_separation = lambda a, b, c, d: abs(b - d)
    try:
        yield
    finally:
        bo.angular_separation, do.angular_separation = old


@harness(P, [B + "sso_in_circle_fov", B + "_sso_in_circle_fov", B + "sso_in_fov"], "1 or 2 visits and objects anywhere along a meridian, columns in degrees or radians, any field radius", quick=[{"n": 1}, {"n": 2}], budget=100)
def circle(ctx, n):
    deg = ctx.bool("degrees")
    r = ctx.real("r_fov", 0.5, 6)
    dec, d = ctx.reals("dec", n, -60, 60), ctx.reals("d", n, -10, 10)
    with quiet():
        b = BaseObs(footprint=ctx.choice("foot", ["circle", "CIRCLE"]), r_fov=r, obs_degrees=deg)
    f = 1.0 if deg else math.pi / 180
    obs = ctx.rec({"fieldRA": [10.0 * f] * n, "fieldDec": [q * f for q in dec]})
    eph = ctx.rec({"ra": [10.0] * n, "dec": [q + e for q, e in zip(dec, d)]})
    with meridian(ctx):
        got = [int(i) for i in b.sso_in_fov(eph, obs)]
    for e in d:
        ctx.assume(oabs(oabs(e) - r) > 1e-6)
    ctx.check(got == [i for i in range(n) if bool(oabs(d[i]) <= r)], "objects inside the field")


@harness(P, [B + "calc_trailing_losses", B + "calc_colors"], "any speed, seeing and exposure; spectra and filters of any magnitudes", quick=[{}], budget=60)
def losses(ctx):
    v, s, t = ctx.real("v", 0, 50), ctx.real("s", 0.3, 3), ctx.real("t", 1, 300)
    with quiet():
        b = BaseObs(footprint="circle")
    how = ctx.bool("default")
    a, d = b.calc_trailing_losses(v, s) if how else b.calc_trailing_losses(v, s, t)
    x = v * (30.0 if how else t) / s / 24
    ctx.close(a, 1.25 * log10(1 + 0.761 * x * x / (1 + 1.162 * x)), "loss of signal to noise", tol=1e-6)
    ctx.close(d, 1.25 * log10(1 + 0.42 * x * x / (1 + 0.003 * x)), "loss of detection", tol=1e-6)
    mags = {k: ctx.real("m" + k, 10, 20) for k in "vgr"}
    reads = []

    class FakeSed:
        def read_sed_flambda(self, name):
            reads.append(os.path.basename(name))

        def calc_mag(self, band):
            return mags[band] + (1.0 if reads[-1] == "S.dat" and band == "g" else 0.0)

    old = bo.Sed
    bo.Sed = FakeSed
    try:
        b.vband, b.lsst, b.filterlist = "v", {"g": "g", "r": "r"}, ("g", "r")
        for name, extra in (("C.dat", 0.0), ("S.dat", 1.0), ("C.dat", 0.0)):
            c = b.calc_colors(name, sed_dir="/d")
            ctx.check(sorted(c) == ["g", "r"], "every filter")
            ctx.close(c["g"], mags["g"] + extra - mags["v"], "colour of this spectrum")
            ctx.close(c["r"], mags["r"] - mags["v"], "colour of this spectrum")
    finally:
        bo.Sed = old
    ctx.check(reads == ["C.dat", "S.dat"], "each spectrum is read once")


def place(m, t):
    """Declination of an object that moves at one rate before MJD 60001 and at another after."""
    d0, d1, d2, _ = m
    return d0 + (d1 if t < 60001.0 else d2) * (t - 60001.0)


class Moving:
    """Ephemerides of objects that move along a meridian at any constant rate, or two."""

    def __init__(self, ctx, motion):
        self.ctx, self.motion = ctx, motion

    def set_orbits(self, sso):
        self.ids = [int(i) for i in sso.orbits["obj_id"]]

    def generate_ephemerides(self, times, time_scale=None, obscode=None, eph_mode=None, eph_type=None, by_object=True):
        out = []
        for o in self.ids:
            mag = self.motion[o][3]
            ts = [float(t) for t in times]
            n = len(ts)
            d1 = self.motion[o][1]
            cols = {"time": ts, "ra": [10.0] * n, "dec": [place(self.motion[o], t) for t in ts], "dradt": [0.0] * n, "ddecdt": [d1] * n, "phase": [1.0] * n, "solarelon": [2.0] * n, "helio_dist": [3.0] * n,
                    "geo_dist": [4.0] * n, "magV": [mag] * n, "trueAnomaly": [5.0] * n, "velocity": [abs(d1)] * n}
            out.append(self.ctx.rec(cols))
        return out


@harness(P, [D + "run", B + "generate_ephemerides"], "1 or 2 objects (of two spectral types) moving at any rate below 4 deg/day along a meridian (with precomputed positions: below 15 deg/day, changing its rate), 2 visits anywhere along it in two bands with any seeing and exposure (two given ones for 2 objects), circular field of any radius, with or without precomputed positions",
         quick=[{"n": 1, "pre": False}, {"n": 2, "pre": False}, {"n": 1, "pre": True}], budget=200)
def observations(ctx, n, pre):
    motion = {}
    for i in range(n):
        rate = ctx.real("rate%d" % i, -15, 15) if pre else ctx.real("rate%d" % i, -4, 4)
        motion[i + 7] = (ctx.real("d%d" % i, -10, 10), rate, ctx.real("later%d" % i, -15, 15) if pre else rate, 20.0 + i)
    r = ctx.real("r_fov", 1, 2)
    t = [60000.6, 60001.4] if pre else [60000.3, 60001.6]
    dec = ctx.reals("dec", 2, -20, 20)
    see, exp = (ctx.reals("see", 2, 0.5, 2), ctx.reals("exp", 2, 10, 60)) if n == 1 else ([0.75, 1.5], [30.0, 15.0])
    bands = ["g", "r"]
    cols = {"observationStartMJD": t, "fieldRA": [10.0, 10.0], "fieldDec": dec, "seeingFwhmGeom": see, "visitExposureTime": exp, "fiveSigmaDepth": [24.0, 23.5], "night": [1, 2], "band": bands, "observationId": [31, 32]}
    obs = ctx.rec(cols, kinds={"night": "i", "observationId": "i", "band": "U"})
    o = Orbits()
    k = {q: [0.5] * n for q in ELS["KEP"]}
    k.update(epoch=[60000.0] * n, obj_id=[i + 7 for i in range(n)], sed_filename=["C.dat", "S.dat"][:n])
    with quiet():
        o.set_orbits(frame(k))
        d = DirectObs(footprint="circle", r_fov=r)
    d.ephems = Moving(ctx, motion)
    d.colors = {"C.dat": {"g": 0.4, "r": -0.2}, "S.dat": {"g": 0.6, "r": -0.3}}
    kw = {}
    if pre:
        mjds = np.arange(59999.0, 60004.0, 1.0)
        pos = ctx.rec({"ra": [10.0] * len(mjds), "dec": [place(motion[7], x) for x in mjds]})
        kw = dict(object_positions=pos.reshape(1, len(mjds)) if hasattr(pos, "reshape") else pos, object_mjds=mjds)
    with meridian(ctx), quiet():
        got = d.run(o, obs, **kw)
    want = []
    for i in range(n):
        d1, mag = motion[i + 7][1], motion[i + 7][3]
        for j in range(2):
            here = place(motion[i + 7], t[j])
            ctx.assume(oabs(oabs(here - dec[j]) - r) > 1e-6)
            if bool(oabs(here - dec[j]) <= r):
                want.append((i, j, here, d1, mag))
    ctx.check(len(got) == len(want), "every visit that shows the object, and no other")
    for row, (i, j, here, d1, mag) in enumerate(want):
        g = lambda c: got[c][row]
        ctx.check(int(g("obj_id")) == i + 7 and int(g("observationId")) == 31 + j, "object and visit")
        ctx.check(str(g("sedname")) == ["C.dat", "S.dat"][i] and str(g("band")) == bands[j] and int(g("night")) == j + 1, "spectrum, band and night")
        ctx.close(g("dec"), here, "position at the time of the visit")
        ctx.close(g("time"), t[j], "time")
        ctx.close(g("observationStartMJD"), t[j], "time of the visit")
        ctx.close(g("magV"), mag, "magnitude")
        ctx.close(g("fiveSigmaDepth"), 24.0 - 0.5 * j, "depth of the visit")
        ctx.close(g("seeingFwhmGeom"), see[j], "seeing of the visit")
        ctx.close(g("visitExposureTime"), exp[j], "exposure of the visit")
        ctx.close(g("dmag_color"), d.colors[["C.dat", "S.dat"][i]][bands[j]], "colour of the spectrum in the band of the visit")
        x = oabs(d1) * exp[j] / see[j] / 24
        ctx.close(g("dmag_trail"), 1.25 * log10(1 + 0.761 * x * x / (1 + 1.162 * x)), "trailing loss of the visit", tol=1e-6)
        ctx.close(g("dmag_detect"), 1.25 * log10(1 + 0.42 * x * x / (1 + 0.003 * x)), "detection loss of the visit", tol=1e-6)
