"""Simulated nights: overheads, start and end, nightly statistics, the simulation chosen for a night, satellites."""

import contextlib
import datetime
import sys
import warnings

import numpy as np
import pandas as pd
from astropy.time import Time

import rubin_sim.satellite_constellations.basis_function as bf
import rubin_sim.satellite_constellations.model_observatory as mo
import rubin_sim.satellite_constellations.sat_utils as su
import rubin_sim.sim_archive.prenight as pn
import rubin_sim.sim_archive.prenightindex as pi
import rubin_sim.sim_archive.util as ut
import rubin_sim.sim_archive.vseqarchive as va
from harness.lib import *  # noqa: F401,F403

sa = sys.modules["rubin_sim.sim_archive.sim_archive"]
P = "C27"
A = "rubin_sim/sim_archive/"
S = "rubin_sim/satellite_constellations/"
assumptions(P, "random draws are any numbers; the almanac's times, the satellites' paths and the length of a streak in the field are any values; the databases and web indexes of simulations are replaced by tables")


class Floats(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, np.floating)) or is_sym(x)

    def __call__(cls, x=0.0):
        return x if is_sym(x) else float(x)


@contextlib.contextmanager
def floats():
    """Symbolic numbers pass for floats in the module."""
    pn.float = Floats("float", (), {})
    try:
        yield
    finally:
        del pn.float


@harness(P, [A + "prenight.py:AnomalousOverheadFunc.__init__", A + "prenight.py:AnomalousOverheadFunc.__call__"], "any slew, visit and exposure times, any draws, any minimum overhead, scatter of the slew switched on by its scale or by its location (either sign) or off, observation given or only the slew time", quick=[{}], budget=100)
def overhead(ctx):
    how = ctx.choice("how", ["scale", "later", "earlier", "off"])
    what = ctx.choice("what", ["obs", "slew"])
    slew, visit, exp, lo = ctx.real("slew", 0, 300), ctx.real("visit", 0, 60), ctx.real("exp", 0, 60), ctx.real("min", 0, 20)
    z, scat = ctx.real("z", -3, 3), ctx.real("scat", -50, 50)
    ctx.assume(visit >= exp)
    scale, loc = {"scale": (0.5, 0.0), "later": (0.0, 0.25), "earlier": (0.0, -0.25), "off": (0.0, 0.0)}[how]
    draws = []

    class Dist:
        def rvs(self, **k):
            draws.append(("rvs", k.get("scale")))
            return scat

    class Rng:
        def normal(self, loc, scale):
            draws.append(("normal", loc, scale))
            return loc + scale * z

    with floats(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = pn.AnomalousOverheadFunc(seed=1, slew_scale=scale, slew_loc=loc, min_overhead=lo, scatter_distribution=Dist(), scatter_kwargs={"scale": 7.0})
        f.rng = Rng()
        got = f(obs={"slewtime": slew, "visittime": visit, "exptime": exp}) if what == "obs" else f(slewtime=slew)
    off = slew * (loc + scale * z)
    if bool(slew + off < 0):
        off = -slew
    want = off + scat
    if what == "obs":
        model = slew + visit - exp
        want = omax([want, lo - model])
    ctx.check(("rvs", 7.0) in draws, "scatter is drawn with its own arguments")
    ctx.close(got, want, "slew and scatter offsets, no less than the minimum overhead")


def omax(v):
    m = v[0]
    for x in v[1:]:
        m = x if bool(x > m) else m
    return m


@harness(P, [A + "prenight.py:compute_sim_start_and_end", A + "util.py:dayobs_to_date"], "any of 4 first days of an almanac of 5 nights whose sunsets and sunrises are at any time of the evening and morning, 1 or 2 nights, any delay", quick=[{}], budget=100)
def span(ctx):
    first, nights = ctx.cint("first", 0, 3), ctx.cint("nights", 1, 2)
    if first + nights > 5:
        ctx.skip()
    delay = ctx.real("delay", 0, 600)
    d0 = datetime.date(2026, 2, 27)
    # local noon (UTC-12 days begin at 12 UT) of the first day
    mjd0 = (d0 - datetime.date(1858, 11, 17)).days + 0.5
    ss, tw, sr = ctx.reals("ss", 5, 0.4, 0.5), ctx.reals("tw", 5, 0.5, 0.6), ctx.reals("sr", 5, 0.9, 0.999)
    col = lambda v: [mjd0 + k + x for k, x in enumerate(v)]
    table = ctx.rec({"sunset": col(ss), "sun_n12_setting": col(tw), "sunrise": col(sr)})
    ctx.assume(tw[first] + delay / 1440.0 < 0.9)  # before any sunrise
    old = pn.Almanac
    pn.Almanac = lambda *a, **k: type("A", (), {"sunsets": table})()
    day = d0 + datetime.timedelta(days=first)
    num = day.year * 10000 + day.month * 100 + day.day
    try:
        start, dur = pn.compute_sim_start_and_end(num, nights, delay)
    finally:
        pn.Almanac = old
    ctx.close(start, mjd0 + first + tw[first] + delay / 1440.0, "begins at twilight of the first night, delayed", tol=1e-7)
    ctx.close(start + dur, mjd0 + first + nights - 1 + sr[first + nights - 1], "ends at sunrise of the last night", tol=1e-7)
    for q in (num, day.isoformat(), day, datetime.datetime(day.year, day.month, day.day, 23), Time(mjd0 + first + 0.001, format="mjd"), Time(mjd0 + first + 0.999, format="mjd")):
        ctx.check(ut.dayobs_to_date(q) == day, "the same day, however it is given")


@harness(P, [A + "vseqarchive.py:compute_nightly_stats"], "2 to 4 visits on any of two days of observation (by day or by time), any values", quick=[{"n": 2}, {"n": 3}, {"n": 4}], budget=60)
def nightly(ctx, n):
    # numbers of quantiles are pandas' own; days and counts are decided here
    day = [ctx.cint("d%d" % i, 0, 1) for i in range(n)]
    late = [ctx.cint("l%d" % i, 0, 1) for i in range(n)]
    mjd = [60000.5 + d + (0.01 if not l else 0.99) for d, l in zip(day, late)]
    how = ctx.choice("how", ["observationStartMJD", "obs_start_mjd", "day_obs"])
    vals = [1.0 + 2.0 * k for k in range(n)]
    dates = [datetime.date(2023, 2, 25) + datetime.timedelta(days=d) for d in day]
    v = pd.DataFrame({how: dates if how == "day_obs" else mjd, "altitude": vals, "azimuth": [100.0 - x for x in vals]})
    keep = v.copy()
    got = va.compute_nightly_stats(v)
    ctx.check(v.equals(keep), "visits are left alone")
    rows = {(r["day_obs"], r["value_name"]): r for _, r in got.iterrows()}
    ctx.check(sorted(rows) == sorted((d, q) for d in set(dates) for q in ("altitude", "azimuth")) and len(got) == len(rows), "one row for each night and quantity")
    for (d, q), r in rows.items():
        x = sorted(v[q][i] for i in range(n) if dates[i] == d)
        ctx.check(r["count"] == len(x) and abs(r["mean"] - np.mean(x)) < 1e-9 and r["min"] == x[0] and r["max"] == x[-1] and abs(r["median"] - np.median(x)) < 1e-9, "of that night's visits")
        ctx.check(all(abs(r[k] - np.percentile(x, p)) < 1e-9 for k, p in (("p05", 5), ("q1", 25), ("q3", 75), ("p95", 95))), "quantiles under their own names")


@harness(P, [A + "prenightindex.py:select_latest_prenight_sim", A + "sim_archive.py:find_latest_prenight_sim_for_nights"], "2 or 3 simulations of either night or both, with or without the tags, of any age from a list", quick=[{"n": 2}, {"n": 3}], budget=150)
def latest(ctx, n):
    now = pd.Timestamp.now(tz="UTC")
    ages = [ctx.choice("age%d" % i, [1, 30, 60, 90] if n == 2 else [1, 60, 90]) + i * 0.1 for i in range(n)]
    tags = [ctx.choice("tag%d" % i, [["ideal", "nominal", "more"], ["ideal"]]) for i in range(n)]
    cover = [ctx.choice("cover%d" % i, ["first", "both"] if n == 3 else ["first", "both", "last"]) for i in range(n)]
    two = bool(ctx.bool("two"))

    def index(which):
        k = [i for i in range(n) if cover[i] in (which, "both")]
        return pd.DataFrame({"creation_time": pd.Series([now - pd.Timedelta(hours=float(ages[i])) for i in k], dtype=object), "tags": pd.Series([tags[i] for i in k], dtype=object), "visitseq_url": ["u%d" % i for i in k]}).set_index(pd.Index(["id%d" % i for i in k], name="visitseq_uuid"))

    old = sa.get_prenight_index
    sa.get_prenight_index = lambda day, telescope, **k: index({"2026-01-01": "first", "2026-01-02": "last"}[day])
    try:
        got = sa.find_latest_prenight_sim_for_nights("2026-01-01", "2026-01-02" if two else None, max_simulation_age=2)
    except sa.NoMatchingSimulationsFoundError:
        got = None
    finally:
        sa.get_prenight_index = old
    ok = [i for i in range(n) if "nominal" in tags[i] and ages[i] < 72 and (cover[i] == "both" or (cover[i] == "first" and not two))]
    if not ok:
        ctx.check(got is None, "none when none qualifies")
    else:
        best = min(ok, key=lambda i: ages[i])
        ctx.check(got is not None and got["visitseq_url"] == "u%d" % best, "the latest of the simulations that qualify")


@harness(P, [A + "sim_archive.py:fetch_sim_for_nights"], "3 visits on any of three days, any first and last day, asked for twice with the same arguments", quick=[{}], budget=100)
def fetch(ctx):
    day = [ctx.cint("d%d" % i, 1, 3) for i in range(3)]
    a, b = ctx.cint("a", 1, 3), ctx.cint("b", 1, 3)
    want_col = bool(ctx.bool("col"))
    import rubin_sim.maf as maf
    iso = lambda d: "2026-01-%02d" % d

    def visits(rp, stackers=None, **k):
        t = pd.DataFrame({"observationId": [10, 11, 12], "v": [0.5, 1.5, 2.5]})
        if any(isinstance(s, maf.DayObsISOStacker) for s in stackers or []):
            t["day_obs_iso8601"] = [iso(d) for d in day]
        return t

    old = sa.get_visits, sa.get_sim_data
    sa.get_visits, sa.get_sim_data = visits, lambda rp, **k: visits(rp, **k).to_records(index=False)
    stackers = [maf.DayObsISOStacker()] if want_col else [maf.HourAngleStacker()]
    kw = {}
    n0 = len(stackers)
    ext = ctx.choice("ext", [".h5", ".db"])
    try:
        for _ in range(2):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = sa.fetch_sim_for_nights(iso(a), iso(b), which_sim="/tmp/none" + ext, stackers=stackers, get_sim_data_kwargs=kw)
            ctx.check(list(got["observationId"]) == [10 + i for i in range(3) if a <= day[i] <= b], "the visits of the nights asked for")
            ctx.check(("day_obs_iso8601" in got.columns) == want_col, "with the columns asked for")
    finally:
        sa.get_visits, sa.get_sim_data = old
    ctx.check(len(stackers) == n0 and kw == {}, "the list of stackers is left alone")


@harness(P, [S + "sat_utils.py:Constellation.check_pointings"], "1 or 2 visits and 1 or 2 satellites at any altitudes, lit or not at either end, any distance from the pointing and any length of streak", quick=[{"n": 1, "m": 1}, {"n": 2, "m": 1}, {"n": 1, "m": 2}], thorough=[{"n": 2, "m": 2}], budget=150)
def streaks(ctx, n, m):
    alt = [[[ctx.real("alt%d_%d_%d" % (e, s, i), -0.5, 1.5) for i in range(n)] for s in range(m)] for e in range(2)]
    lit = [[[bool(ctx.bool("lit%d_%d_%d" % (e, s, i))) for i in range(n)] for s in range(m)] for e in range(2)]
    dist = [[ctx.real("dist%d_%d" % (s, i), 0, 0.5) for i in range(n)] for s in range(m)]
    ln = [[ctx.real("len%d_%d" % (s, i), 0, 0.05) for i in range(n)] for s in range(m)]
    c = su.Constellation.__new__(su.Constellation)
    c.alt_limit_rad = 0.25
    mjds, vt = [60000.1, 60000.2][:n], [30.0, 15.0][:n]
    seen = []

    class Topo:
        def __init__(self, s, t):
            self.s, self.t = s, t

        def radec(self):
            a = type("Ang", (), {"radians": (self.s, self.t)})
            return a, a, None

    class At:
        def __init__(self, s, t):
            self.s, self.t = s, t

        def __sub__(self, o):
            return Topo(self.s, self.t)

    c.sat_list = [type("Sat", (), {"at": (lambda self, t, s=s: At(s, t))})() for s in range(m)]
    c.ts = type("Ts", (), {"ut1_jd": staticmethod(lambda jd: jd)})
    c.observatory_site = type("Site", (), {"at": staticmethod(lambda t: 0)})
    calls = []

    def paths(t):
        e = len(calls)
        calls.append(list(t))
        two = lambda f: symarr(ctx, [[f(s, i) for i in range(n)] for s in range(m)])
        return two(lambda s, i: 100.0 * s + i), two(lambda s, i: 10.0 * s + i), two(lambda s, i: alt[e][s][i]), np.array(lit[e])

    def distance(ra1, dec1, ra2, dec2, pra, pdec):
        out = []
        for k in range(len(pra)):
            s, i = int(round(float(ra1[k]) // 100)), int(round(float(ra1[k]) % 100))
            ctx.check(abs(float(pra[k]) - np.radians(10.0 + i)) < 1e-9 and abs(float(pdec[k]) + np.radians(20.0 + i)) < 1e-9, "distance of the visit's own pointing")
            out.append(dist[s][i])
        return ctx.arr(out)

    def length(ra, dec, pra, pdec, radius):
        s, t = ra
        i = [k for k in range(n) if abs(float(pra) - np.radians(10.0 + k)) < 1e-9][0]
        t = np.asarray(t, dtype=float) - 2400000.5
        ctx.check(abs(t[0] - mjds[i]) < 1e-7 and abs(t[-1] - mjds[i] - vt[i] / 86400.0) < 1e-7 and len(t) == round(vt[i] / 2.0), "along the whole visit")
        ctx.check(abs(radius - np.radians(1.75)) < 1e-9, "in the field of view")
        seen.append((s, i))
        return ln[s][i]

    c.paths_array = paths
    old = su.point_to_line_distance, su._streak_length
    su.point_to_line_distance, su._streak_length = distance, length
    try:
        got, num = c.check_pointings(ctx.arr([10.0 + i for i in range(n)]), ctx.arr([-20.0 - i for i in range(n)]), np.array(mjds), np.array(vt), test_radius=10.0)
    finally:
        su.point_to_line_distance, su._streak_length = old
    ctx.check(len(calls) == 2 and abs(calls[0][0] - mjds[0]) < 1e-9 and abs(calls[1][0] - mjds[0] - vt[0] / 86400) < 1e-8, "satellites at both ends of the visit")
    for i in range(n):
        tot, k = 0.0, 0
        for s in range(m):
            up = bool(alt[0][s][i] > 0.25) or bool(alt[1][s][i] > 0.25)
            if up and (lit[0][s][i] or lit[1][s][i]) and bool(dist[s][i] < np.radians(10.0)):
                tot = tot + ln[s][i]
                k += 1 if bool(ln[s][i] > 0) else 0
        ctx.close(got[i], tot * (180 / np.pi), "total length of the streaks of the visit", tol=1e-6)
        ctx.check(int(num[i]) == k, "number of streaks of the visit")


def symarr(ctx, rows):
    a = ctx.arr([x for r in rows for x in r])
    return a.reshape(len(rows), len(rows[0]))


@harness(P, [S + "model_observatory.py:ModelObservatory._update_satellite_maps"], "3 satellites at 2 times, at any altitudes, lit or not, two of them in the same place", quick=[{}], budget=60)
def maps(ctx):
    o = mo.ModelObservatory.__new__(mo.ModelObservatory)
    o.alt_limit, o.satelite_dt, o.sat_nside, o.almanac_indx = 0.25, 0.25, 1, 1
    o.almanac = type("A", (), {"sunsets": {"sun_n12_setting": np.array([0.0, 100.0]), "sun_n12_rising": np.array([0.0, 100.5])}})
    alt = [[ctx.real("alt%d_%d" % (s, t), -0.5, 1.5) for t in range(2)] for s in range(3)]
    lit = [[bool(ctx.bool("lit%d_%d" % (s, t))) for t in range(2)] for s in range(3)]
    place = [4, 4, 6]
    times = []

    def paths(mjds):
        times.append(list(mjds))
        return np.array([[float(p)] * 2 for p in place]), np.zeros((3, 2)), symarr(ctx, alt), np.array(lit)

    o.constellation = type("C", (), {"paths_array": staticmethod(paths)})

    def healbin(ra, dec, values, nside, reduce_func=None, dtype=None, fill_val=None):
        out = [fill_val] * 12
        for p in sorted(set(int(r) for r in ra)):
            out[p] = reduce_func(values[np.array([int(r) == p for r in ra])])
        return np.array([int(x) for x in out])

    old = mo._healbin
    mo._healbin = healbin
    try:
        o._update_satellite_maps()
    finally:
        mo._healbin = old
    ctx.check(times == [[100.0, 100.25]] and list(o.sat_mjds) == [100.0, 100.25], "through the night of the almanac")
    for t in range(2):
        for p in range(12):
            want = sum(1 for s in range(3) if place[s] == p and lit[s][t] and bool(alt[s][t] >= 0.25))
            ctx.check(int(o.satellite_maps[t][p]) == want, "number of lit satellites above the limit in each place")
