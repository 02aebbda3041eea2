"""Columns added to the visits (stackers)."""

import numpy as np

import rubin_sim.maf.stackers as st
import rubin_sim.maf.stackers.coord_stackers as coord_mod
import rubin_sim.maf.stackers.general_stackers as gen_mod
from harness.lib import *  # noqa: F401,F403

P = "C17"
S = "rubin_sim/maf/stackers/"
assumptions(P, "rubin_scheduler's sidereal time is a linear stand-in, its depth formula is a recording stand-in, and astropy's coordinate frames are a stand-in that "
               "records what it is given; system zeropoints are fixed stand-in numbers (the data files are not installed); sine, cosine, tangent and powers of ten are abstract functions")
DEG = np.pi / 180


def run(ctx, s, cols, kinds=None, new=(), **kw):
    """Run a stacker; the given columns must be unchanged."""
    d = ctx.rec(cols, kinds or {})
    out = s.run(d, **kw)
    n = len(next(iter(cols.values())))
    ctx.check(len(out) == n, "one row for each visit")
    for c in s.cols_added:
        ctx.check(c in out.dtype.names, "adds its columns")
    for c, v in cols.items():
        if c in s.cols_added:
            continue
        for i in range(n):
            if (kinds or {}).get(c) == "U":
                ctx.check(str(out[c][i]) == v[i], "columns that were there are unchanged")
            else:
                ctx.close(out[c][i], v[i], "columns that were there are unchanged")
    return out


@harness(P, [S + "general_stackers.py:NormAirmassStacker._run", S + "general_stackers.py:ZenithDistStacker._run", S + "general_stackers.py:HourAngleStacker._run", S + "base_stacker.py:BaseStacker._add_stacker_cols",
             S + "base_stacker.py:BaseStacker.run"], "1 to 3 visits with any airmass, declination, altitude, sidereal time and right ascension, in degrees or radians", quick=[{"n": n, "deg": d} for n in (1, 3) for d in (True, False)], budget=120)
def angles(ctx, n, deg):
    unit = 1.0 if deg else DEG
    dec, x, alt = ctx.reals("dec", n, -80, 10), ctx.reals("x", n, 1, 3), ctx.reals("alt", n, 0, 90)
    s = st.NormAirmassStacker(degrees=deg, dec_col="d", airmass_col="a", telescope_lat=-30.0)
    out = run(ctx, s, {"d": [q * unit for q in dec], "a": x})
    for i in range(n):
        ctx.close(out["normairmass"][i], x[i] * ouf("cos", abs(dec[i] * DEG + 30 * DEG)), "airmass over the least possible for the declination")
    s = st.ZenithDistStacker(degrees=deg, alt_col="h")
    out = run(ctx, s, {"h": [q * unit for q in alt]})
    ctx.check(list(s.units) == ["degrees" if deg else "radians"], "units")
    for i in range(n):
        ctx.close(out["zenithDistance"][i], (90.0 - alt[i]) * unit, "distance from the zenith")


@harness(P, [S + "general_stackers.py:HourAngleStacker._run"], "1 or 2 visits with any sidereal time and right ascension, in degrees or radians", quick=[{"n": n, "deg": d} for n in (1, 2) for d in (True, False)], budget=120)
def hour_angle(ctx, n, deg):
    unit = 1.0 if deg else DEG
    lst, ra = ctx.reals("lst", n, 0, 359), ctx.reals("ra", n, 0, 359)
    for a, b in zip(lst, ra):
        ctx.assume(sor(a - b > 180.001, a - b < 179.999))
        ctx.assume(sor(a - b > -179.999, a - b < -180.001))
    out = run(ctx, st.HourAngleStacker(lst_col="l", ra_col="r", degrees=deg), {"l": [q * unit for q in lst], "r": [q * unit for q in ra]})
    for i in range(n):
        h = (lst[i] - ra[i]) / 15.0
        ctx.close(out["HA"][i], ite(h > 12, h - 24, ite(h < -12, h + 24, h)), "sidereal time minus right ascension, in hours between -12 and 12")


@harness(P, [S + "general_stackers.py:ParallacticAngleStacker._run", S + "general_stackers.py:DcrStacker._run", S + "general_stackers.py:Dcr2Stacker._run"],
         "1 or 2 visits with any hour angle and declination, zenith distance and parallactic angle computed or given, any refraction per band", quick=[{"n": n, "kind": k, "deg": d} for n, k in ((1, "pa"), (1, "dcr"), (2, "dcr"), (1, "dcr2"), (2, "dcr2")) for d in (True, False)], budget=120)
def refraction(ctx, n, kind, deg):
    unit = 1.0 if deg else DEG
    dec, alt = ctx.reals("dec", n, -80, 10), ctx.reals("alt", n, 20, 88)
    band = [ctx.choice("b%d" % i, ["u", "r"]) for i in range(n)]
    lst, ra = ctx.reals("lst", n, 100, 250), ctx.reals("ra", n, 100, 250)
    lat = gen_mod.Site(name="LSST").latitude_rad
    cols = {"fieldDec": [q * unit for q in dec], "altitude": [q * unit for q in alt], "band": band, "observationStartLST": [q * unit for q in lst], "fieldRA": [q * unit for q in ra],
            "observationStartMJD": [1.0] * n}
    given = kind != "pa" and (n > 1 or ctx.bool("given"))
    if given:
        zd, pa = ctx.reals("zd", n, 1, 70), ctx.reals("pa", n, -180, 180)
        cols.update({"zenithDistance": [q * unit for q in zd], "PA": [q * unit for q in pa], "HA": [1.0] * n})
    else:
        ha = [(a - b) / 15.0 for a, b in zip(lst, ra)]
        pa = [atan2(ouf("sin", h * np.pi / 12), ouf("cos", q * DEG) * np.tan(lat) - ouf("sin", q * DEG) * ouf("cos", h * np.pi / 12)) / DEG for h, q in zip(ha, dec)]
        zd = [90.0 - q for q in alt]
    kinds = {"band": "U"}
    amp = {"u": ctx.real("au", 0.01, 1), "r": ctx.real("ar", 0.01, 1)}
    if kind == "pa":
        out = run(ctx, st.ParallacticAngleStacker(degrees=deg), cols, kinds)
        for i in range(n):
            ctx.close(out["PA"][i], pa[i] * unit, "parallactic angle", tol=1e-7)
        return
    if kind == "dcr":
        s = st.DcrStacker(degrees=deg, dcr_magnitudes=amp)
    else:
        kw = {}
        if ctx.bool("own"):
            kw = dict(zstacker=st.ZenithDistStacker(degrees=deg), pastacker=st.ParallacticAngleStacker(degrees=deg))
        s = gen_mod.Dcr2Stacker(degrees=deg, dcr2_magnitudes=amp, **kw)
    out = run(ctx, s, cols, kinds)
    for i in range(n):
        t, a = ouf("tan", zd[i] * DEG), amp[band[i]]
        sp, cp = ouf("sin", pa[i] * DEG), ouf("cos", pa[i] * DEG)
        if kind == "dcr":
            ctx.close(out["ra_dcr_amp"][i], a * t * sp, "offset in right ascension of the visit's band", tol=1e-7)
            ctx.close(out["dec_dcr_amp"][i], a * t * cp, "offset in declination of the visit's band", tol=1e-7)
        else:
            ctx.close(out["dcr_var"][i], a * t * t, "spread along the zenith", tol=1e-7)
            ctx.close(out["ra_dcr_var"][i], a * t * t * sp * sp, "spread in right ascension", tol=1e-7)
            ctx.close(out["dec_dcr_var"][i], a * t * t * cp * cp, "spread in declination", tol=1e-7)
            ctx.close(out["ra_dec_dcr_cov"][i], a * t * t * sp * cp, "covariance", tol=1e-7)


@harness(P, [S + "general_stackers.py:OverheadStacker._run"], "1 to 4 visits with increasing start times within two days, any visit and exposure times, any longest gap or none", quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": 4}], budget=120)
def overhead(ctx, n):
    t = ctx.reals("t", n, 60000, 60002)
    for a, b in zip(t, t[1:]):
        ctx.assume(a <= b)
    vt, et = ctx.reals("v", n, 0, 40), ctx.reals("e", n, 0, 30)
    gap = ctx.real("gap", 0.5, 3000) if ctx.bool("limit") else np.inf
    s = st.OverheadStacker(max_gap=gap, mjd_col="t", visit_time_col="v", exposure_time_col="e")
    want = [None]
    night = [floor(q - 0.5) for q in t]
    for i in range(1, n):
        o = ((t[i] + vt[i] / 86400) - (t[i - 1] + vt[i - 1] / 86400)) * 86400 - et[i]
        if gap is not np.inf:
            ctx.assume(sor(o - gap * 60 > 0.01, o - gap * 60 < -0.01))
        ok = bool(night[i] == night[i - 1]) and (gap is np.inf or bool(o <= gap * 60))
        want.append(o if ok else None)
    out = run(ctx, s, {"t": t, "v": vt, "e": et})
    for i in range(n):
        got = out["overhead"][i]
        if want[i] is None:
            ctx.check(isnan(got), "no overhead for the first visit of a night, or after a gap beyond the limit")
        else:
            ctx.close(got, want[i], "time from the end of the previous visit to the end of this one, less the exposure", tol=1e-4)


ZP = {"u": 26.5, "r": 28.25}
KM = {"u": 0.5, "r": 0.125}


@harness(P, [S + "general_stackers.py:SaturationStacker._run"], "1 to 3 visits in up to two bands, any seeing, sky, exposure, number of exposures, airmass, saturation level and zeropoints given or not (sky within 1 electron of saturation left out)",
         quick=[{"n": n} for n in (1, 2, 3)], budget=150)
def saturation(ctx, n):
    see, sky, ex, x = ctx.reals("s", n, 0.5, 2), ctx.reals("m", n, 12, 24), ctx.reals("e", n, 10, 60), ctx.reals("x", n, 1, 2)
    nexp = [ctx.choice("n%d" % i, [1, 2]) if i == 0 else 1 for i in range(n)]
    b = [ctx.choice("b%d" % i, ["u", "r"]) for i in range(n)]
    lev = ctx.real("lev", 50000, 200000)
    zp, km = {"u": ctx.real("zu", 25, 28), "r": 28.0}, {"u": 0.25, "r": 0.375}
    which = ctx.choice("given", ["both", "zp", "km", "none"])
    saved = gen_mod.load_inst_zeropoints
    gen_mod.load_inst_zeropoints = lambda: (dict(ZP), dict(KM))
    try:
        s = st.SaturationStacker(saturation_e=lev, zeropoints=zp if which in ("both", "zp") else None, km=km if which in ("both", "km") else None, pixscale=0.25)
        z, k = (zp if which in ("both", "zp") else ZP), (km if which in ("both", "km") else KM)
        want = []
        for i in range(n):
            t = ex[i] / nexp[i]
            left = lev - ten(0.4 * (z[b[i]] - sky[i])) * 0.0625 * t
            ctx.assume(sor(left > 1, left < -1))
            if bool(left > 0):
                src = left * 2.0 * np.pi * (see[i] / 2.354 / 0.25) ** 2
                want.append(-2.5 * log10(src / t) + z[b[i]] - k[b[i]] * (x[i] - 1))
            else:
                want.append(None)
        out = run(ctx, s, {"seeingFwhmEff": see, "skyBrightness": sky, "visitExposureTime": ex, "numExposures": nexp, "airmass": x, "band": b}, {"band": "U"})
    finally:
        gen_mod.load_inst_zeropoints = saved
    for i in range(n):
        got = out["saturation_mag"][i]
        if want[i] is None:
            ctx.check(isnan(got), "undefined exactly where the sky saturates")
        else:
            ctx.check(not isnan(got), "defined where the sky does not saturate")
            ctx.close(got, want[i], "magnitude at which the peak reaches saturation", tol=1e-6)


@harness(P, [S + "general_stackers.py:FiveSigmaStacker._run"], "1 to 3 visits in up to three bands, any conditions", quick=[{"n": n} for n in (1, 2, 3)])
def five_sigma(ctx, n):
    cols = {k: ctx.reals(k, n, 1, 3) for k in ("sky", "see", "exp", "air")}
    b = [ctx.choice("b%d" % i, ["u", "g", "r"]) for i in range(n)]
    off = {"u": 1.0, "g": 2.0, "r": 5.0}
    saved = gen_mod.m5_flat_sed
    gen_mod.m5_flat_sed = lambda f, musky, fwhm, t, airmass, nexp=1, tau_cloud=0: off[f] + musky * 10 + fwhm * 100 + t * 1000 + airmass * 10000
    try:
        s = st.FiveSigmaStacker(airmass_col="air", seeing_col="see", skybrightness_col="sky", filter_col="bb", exptime_col="exp")
        out = run(ctx, s, dict(cols, bb=b), {"bb": "U"})
    finally:
        gen_mod.m5_flat_sed = saved
    for i in range(n):
        ctx.close(out["m5_simsUtils"][i], off[b[i]] + cols["sky"][i] * 10 + cols["see"][i] * 100 + cols["exp"][i] * 1000 + cols["air"][i] * 10000, "depth in the visit's own conditions and band")


@harness(P, [S + "teff_stacker.py:compute_teff", S + "teff_stacker.py:TeffStacker._run"], "1 to 3 visits in up to three bands (one unknown), any depth, exposure and reference", quick=[{"n": n} for n in (1, 2, 3)])
def teff(ctx, n):
    m, e = ctx.reals("m", n, 20, 26), ctx.reals("e", n, 1, 60)
    b = [ctx.choice("b%d" % i, ["u", "y", "?"]) for i in range(n)]
    normed, given = ctx.bool("normed"), ctx.bool("given")
    ref = {"u": ctx.real("ru", 22, 25), "y": 22.5, "?": 20.0} if given else None
    base = ctx.real("base", 10, 40) if given else None
    s = st.TeffStacker(m5_col="m", filter_col="b", exptime_col="e", normed=normed, fiducial_depth=ref, fiducial_exptime=base)
    out = run(ctx, s, {"m": m, "b": b, "e": e}, {"b": "U"})
    ctx.check(list(s.units) == ["" if normed else "seconds"], "units")
    from rubin_sim.maf.stackers.teff_stacker import TEFF_FIDUCIAL_DEPTH, TEFF_FIDUCIAL_EXPTIME, compute_teff
    for i in range(n):
        d0 = ref[b[i]] if given else dict(TEFF_FIDUCIAL_DEPTH).get(b[i])
        if d0 is None:
            ctx.check(isnan(out["t_eff"][i]), "undefined for an unknown band")
            continue
        w = (base if given else TEFF_FIDUCIAL_EXPTIME) * ten(0.8 * (m[i] - d0))
        ctx.close(out["t_eff"][i], w / e[i] if normed else w, "exposure that reaches the depth in reference conditions", tol=1e-6)
        one = compute_teff(m[i], b[i], exptime=e[i], fiducial_depth=ref, teff_base=base, normed=normed)
        ctx.close(one, w / e[i] if normed else w, "the same for a single visit", tol=1e-6)


SLOPE = {"g": -0.52611780327408397, "r": -0.61378749766766827}
KATM = {"g": 0.21, "r": 0.13}


@harness(P, [S + "m5_optimal_stacker.py:M5OptimalStacker._run"], "1 to 3 visits in up to two bands, any declination, airmass, depth, moon and sun altitude", quick=[{"n": n} for n in (1, 2)], thorough=[{"n": 3}], budget=120)
def optimal(ctx, n):
    dec, x, m5 = ctx.reals("dec", n, -80, 10), ctx.reals("x", n, 1, 2.5), ctx.reals("m5", n, 20, 26)
    moon, sun = ctx.reals("moon", n, -1, 1), ctx.reals("sun", n, -1, 0)
    b = [ctx.choice("b%d" % i, ["g", "r"]) for i in range(n)]
    for s in sun:
        ctx.assume(sor(s > -np.pi / 10 + 1e-6, s < -np.pi / 10 - 1e-6))
    s = st.M5OptimalStacker(filter_col="band")
    ctx.check({"airmass", "fieldDec", "fiveSigmaDepth", "band", "moonAlt", "sunAlt"} <= set(s.cols_req), "asks for the columns it uses")
    lat = s.site.latitude_rad
    out = run(ctx, s, {"fieldDec": dec, "airmass": x, "fiveSigmaDepth": m5, "moonAlt": moon, "sunAlt": sun, "band": b, "skyBrightness": [21.0] * n, "seeingFwhmEff": [1.0] * n}, {"band": "U"})
    for i in range(n):
        xm = 1.0 / ouf("cos", abs(dec[i] * DEG - lat))
        sky = ite(sor(moon[i] > 0, sun[i] > -np.pi / 10), 0.0, SLOPE[b[i]] * (x[i] - xm))
        w = m5[i] - 0.5 * sky - 1.5 * log10(xm / x[i]) - KATM[b[i]] * (xm - x[i])
        ctx.close(out["m5_optimal"][i], w, "depth as if on the meridian (sky, seeing and extinction terms of the depth)", tol=1e-6)


@harness(P, [S + "n_follow_stacker.py:NFollowStacker._run", S + "n_follow_stacker.py:find_telescopes", S + "coord_stackers.py:ra_dec2_alt_az"],
         "1 or 2 visits at any right ascension (two declinations), three large telescopes at two places or one of them, one or two follow-up times, two airmass limits (airmass within 1e-6 of the limit left out)",
         quick=[{"n": n, "k": k, "size": z} for n, k, z in ((1, 1, 10.0), (1, 2, 10.2), (2, 1, 10.2))], budget=150)
def follow(ctx, n, k, size):
    ra = ctx.reals("ra", n, 0, 359)
    dec = [ctx.choice("dec%d" % i, [-20.0, 5.0]) for i in range(n)]
    mjd = ctx.reals("mjd", n, 60000, 60001)
    lim = ctx.choice("lim", [1.5, 2.5])
    deg = ctx.bool("deg") if n == 1 else True
    steps = [0.5, 3.5][:k]
    u = 1.0 if deg else DEG
    saved = coord_mod.calc_lmst
    coord_mod.calc_lmst = lambda m, lon: (m - 60000.0) * 25.0 + lon * 12 / np.pi
    try:
        s = st.NFollowStacker(min_size=size, airmass_limit=lim, time_steps=steps, degrees=deg)
        sites = [(28 + 46 / 60.0, -(17 + 53 / 60.0)), (19 + 50 / 60.0, -(155 + 28 / 60.0)), (19 + 50 / 60.0, -(155 + 28 / 60.0))][:3 if size <= 10 else 1]
        out = run(ctx, s, {"fieldRA": [q * u for q in ra], "fieldDec": [q * u for q in dec], "observationStartMJD": mjd})
    finally:
        coord_mod.calc_lmst = saved
    for i in range(n):
        tot = 0
        for la, lo in sites:
            hit = False
            for dt in steps:
                ha = ((mjd[i] + dt / 24.0) - 60000.0) * 25.0 / 12 * np.pi + lo * DEG - ra[i] * DEG
                sa = np.sin(dec[i] * DEG) * np.sin(la * DEG) + np.cos(dec[i] * DEG) * np.cos(la * DEG) * ouf("cos", ha)
                ctx.assume(sor(sa - 1.0 / lim > 1e-6, 1.0 / lim - sa > 1e-6))
                hit = hit or bool(sa >= 1.0 / lim)
            tot += hit
        ctx.check(out["nObservatories"][i] == tot, "number of large telescopes that can see the field at any of the times")


@harness(P, [S + "coord_stackers.py:ra_dec2_alt_az"], "any sidereal time, two fields from two sites", quick=[{}], budget=60)
def horizon(ctx):
    t = ctx.real("t", 0, 1)
    ra, dec = ctx.choice("f", [(0.5, -0.25), (4.0, 0.125)])
    lat, lon = ctx.choice("site", [(-0.5, -1.25), (0.75, 2.0)])
    saved = coord_mod.calc_lmst
    coord_mod.calc_lmst = lambda m, lo: m * 24.0 + lo * 12 / np.pi
    try:
        only, no = coord_mod.ra_dec2_alt_az(ra, dec, lat, lon, ctx.arr([t]), altonly=True)
        alt, az = coord_mod.ra_dec2_alt_az(ra, dec, lat, lon, ctx.arr([t]))
    finally:
        coord_mod.calc_lmst = saved
    ha = t * 24.0 / 12 * np.pi + lon - ra
    sa = np.sin(dec) * np.sin(lat) + np.cos(dec) * np.cos(lat) * ouf("cos", ha)
    ctx.check(no is None, "no azimuth when only the altitude is asked for")
    ctx.close(ouf("sin", alt[0]), sa, "altitude", tol=1e-6)
    ctx.close(ouf("sin", only[0]), sa, "altitude alone", tol=1e-6)
    west = ouf("sin", ha) > 0
    ctx.assume(sor(oabs(ouf("sin", ha)) > 1e-3))
    ctx.check(ite(west, az[0] >= math.pi - 1e-6, az[0] <= math.pi + 1e-6), "fields past the meridian are in the west")
    ctx.close(ouf("cos", az[0]) * ouf("cos", alt[0]) * np.cos(lat), np.sin(dec) - ouf("sin", alt[0]) * np.sin(lat), "azimuth from the north", tol=1e-6)


@harness(P, [S + "date_stackers.py:DayObsMJDStacker._run", S + "date_stackers.py:_compute_day_obs_mjd", S + "date_stackers.py:DayObsStacker._run", S + "date_stackers.py:DayObsISOStacker._run"],
         "1 to 3 visits at any time within three days", quick=[{"n": n} for n in (1, 2, 3)])
def dayobs(ctx, n):
    t = ctx.reals("t", n, 60000, 60003)
    out = run(ctx, st.DayObsMJDStacker(mjd_col="t"), {"t": t})
    for i in range(n):
        g = out["day_obs_mjd"][i]
        ctx.check(sand(g <= t[i] - 0.5, t[i] - 0.5 < g + 1), "the local day that started at noon UTC")
    if n == 1:
        import rubin_sim.maf.stackers.date_stackers as dm
        real = dm.Time

        def time(v, *a, **k):  # the calendar for each of the whole days the solver allows
            v = v if np.ndim(v) == 0 else [pick(q) for q in np.asarray(v).tolist()]
            return real(v, *a, **k)

        def pick(q):
            return next((float(c) for c in range(59998, 60005) if bool(q == c)), q)

        day = [q for q in range(59999, 60003) if bool(t[0] - 0.5 >= q) and bool(t[0] - 0.5 < q + 1)]
        want = {59999: "2023-02-24", 60000: "2023-02-25", 60001: "2023-02-26", 60002: "2023-02-27"}[day[0]]
        dm.Time = time if ctx.symbolic else real
        try:
            iso = run(ctx, st.DayObsISOStacker(mjd_col="t"), {"t": t})
            out = run(ctx, st.DayObsStacker(mjd_col="t"), {"t": t})
        finally:
            dm.Time = real
        ctx.check(str(iso["day_obs_iso8601"][0]) == want, "date of the night")
        ctx.check(int(out["dayObs"][0]) == int(want.replace("-", "")), "date of the night as a whole number")


@harness(P, [S + "sdss_stackers.py:SdssRADecStacker._run", S + "general_stackers.py:NoteRootStacker._run", S + "label_stackers.py:WFDlabelStacker._run"], "1 or 2 visits, any footprint values around them, threshold and note", quick=[{}], budget=120)
def labels(ctx):
    p = ctx.reals("p", 8, -300, 700)
    s = st.SdssRADecStacker()
    out = run(ctx, s, {"p%d" % (i + 1): [p[i]] for i in range(8)})
    for i in range(8):
        c = ["RA1", "Dec1", "RA2", "Dec2", "RA3", "Dec3", "RA4", "Dec4"][i]
        w = p[i] * DEG
        if i % 2 == 0:
            g = out[c][0]
            ctx.check(sand(g >= -1e-9, g <= 2 * np.pi + 1e-9), "wrapped to one turn")
            ctx.check(sor(*[abs(g - (w - k * 2 * np.pi)) < 1e-6 for k in (-1, 0, 1, 2)]), "the same direction")
        else:
            ctx.close(out[c][0], w, "in radians")
    note = ctx.choice("note", ["abc, d, e", "abc", "", ",x"])
    out = run(ctx, gen_mod.NoteRootStacker(note_col="n"), {"n": [note], "x": [1.0]}, {"n": "U"})
    ctx.check(str(out["scheduler_note_root"][0]) == note.split(",")[0], "note up to the first comma")


@harness(P, [S + "label_stackers.py:WFDlabelStacker._run"], "2 visits, any footprint value in two regions, any threshold, four notes, deep-drilling visits excluded or not", quick=[{}], budget=120)
def footprint(ctx):
    import healpy as hp

    nside = 32
    lon, lat = hp.pix2ang(nside, np.arange(hp.nside2npix(nside)), lonlat=True)
    a, b = ctx.real("a", 0, 1), ctx.real("b", 0, 1)
    fp = np.zeros(len(lon), dtype=object if ctx.symbolic else float)
    east = lon < 180
    fp[east] = a
    fp[~east] = b
    thr, dd = ctx.real("thr", 0, 1), ctx.bool("dd")
    for q in (a, b):
        ctx.assume(sor(q - thr > 1e-6, thr - q > 1e-6))
    notes = [ctx.choice("n%d" % i, ["blob, x", "DD:COSMOS, 1", "DD:u,ECDFS", "xDD"][:4 if i == 0 else 2]) for i in range(2)]
    s = st.WFDlabelStacker(footprint=ctx.arr(list(fp)), fp_threshold=thr, area_id_name="WFD", exclude_dd=dd)
    out = run(ctx, s, {"fieldRA": [90.0, 270.0], "fieldDec": [-30.0, 10.0], "scheduler_note": notes}, {"scheduler_note": "U"})
    name = {"DD:COSMOS, 1": "DD:COSMOS", "DD:u,ECDFS": "DD:ECDFS"}
    for i, q in enumerate((a, b)):
        w = name[notes[i]] if dd and notes[i] in name else ("WFD" if bool(q >= thr) else "NULL")
        ctx.check(str(out["area_id"][i]) == w, "label of the visit's field, from the fraction of the footprint it covers")


class Frames:
    """Stand-in for astropy coordinates: known linear maps between frames."""

    def __init__(self, ra=None, dec=None, **k):
        self.r, self.d = ra.rad(), dec.rad()

    def transform_to(self, f):
        assert f == "galactic"
        return Frames.Out(l=self.r * 2 + 1, b=self.d * 3 + 2)

    @property
    def geocentricmeanecliptic(self):
        return Frames.Out(lon=self.r * 0.5 + 1, lat=self.d * 0.25 + 2)

    class Out:
        def __init__(self, **k):
            for a, v in k.items():
                setattr(self, a, Frames.Val(v))

    class Val:
        def __init__(self, v):
            self.rad = v
            self.deg = v / DEG


class Unit:
    def __init__(self, f):
        self.f = f

    def __rmul__(self, x):
        q = Unit(self.f)
        q.x = x
        return q

    __array_ufunc__ = None

    def rad(self):
        return self.x * self.f


class U:
    deg = degree = Unit(DEG)
    rad = radian = Unit(1.0)


class Sun:
    def __init__(self, lon):
        self.geocentricmeanecliptic = Frames.Out(lon=lon, lat=0 * lon)


@harness(P, [S + "coord_stackers.py:GalacticStacker._run", S + "coord_stackers.py:EclipticStacker._run", S + "coord_stackers.py:wrap_ra"], "1 or 2 visits at any position and time, in degrees or radians, with or without the sun subtracted",
         quick=[{"n": 1}, {"n": 2}], budget=100)
def frames(ctx, n):
    deg, sub = ctx.bool("deg"), ctx.bool("sun")
    u = 1.0 if deg else DEG
    ra, dec, t = ctx.reals("ra", n, 0, 359), ctx.reals("dec", n, -90, 90), ctx.reals("t", n, 0, 3)
    saved = coord_mod.SkyCoord, coord_mod.u, coord_mod.get_sun, coord_mod.Time

    def time(v, format=None, **k):
        if format != "mjd":
            raise ValueError("No time format was given")
        return v

    coord_mod.SkyCoord, coord_mod.u, coord_mod.get_sun, coord_mod.Time = Frames, U, lambda tt: Sun(tt * 0.5 + 0.25), time
    try:
        cols = {"fieldRA": [q * u for q in ra], "fieldDec": [q * u for q in dec], "observationStartMJD": t}
        s = st.GalacticStacker(degrees=deg)
        g = run(ctx, s, cols)
        ctx.check(list(s.units) == ["radians", "radians"], "units of galactic coordinates")
        e = run(ctx, st.EclipticStacker(degrees=deg, subtract_sun_lon=sub), cols)
    finally:
        coord_mod.SkyCoord, coord_mod.u, coord_mod.get_sun, coord_mod.Time = saved
    for i in range(n):
        ctx.close(g["gall"][i], ra[i] * DEG * 2 + 1, "galactic longitude")
        ctx.close(g["galb"][i], dec[i] * DEG * 3 + 2, "galactic latitude")
        ctx.close(e["eclipLat"][i], (dec[i] * DEG * 0.25 + 2) / (DEG if deg else 1.0), "ecliptic latitude", tol=1e-7)
        lon = ra[i] * DEG * 0.5 + 1
        got = e["eclipLon"][i] * (DEG if deg else 1.0)
        if sub:
            lon = lon - (t[i] * 0.5 + 0.25)
            ctx.check(sand(got >= -1e-9, got <= 2 * np.pi + 1e-9), "wrapped to one turn")
            ctx.check(sor(*[abs(got - lon - k * 2 * np.pi) < 1e-6 for k in (-1, 0, 1)]), "ecliptic longitude from the sun")
        else:
            ctx.close(got, lon, "ecliptic longitude", tol=1e-7)


@harness(P, [S + "base_stacker.py:BaseStacker.run", S + "base_stacker.py:BaseStacker._add_stacker_cols"], "1 or 2 visits with any values, the column present or not, recalculation asked for or not", quick=[{"n": 0}, {"n": 1}, {"n": 2}])
def present(ctx, n):
    alt, old = ctx.reals("a", n, 0, 90), ctx.reals("o", n, 0, 90)
    there, over = ctx.bool("there"), ctx.bool("over")
    s = st.ZenithDistStacker(alt_col="h")
    cols = {"h": alt}
    if there:
        cols["zenithDistance"] = old
    if n == 0:
        out = s.run(ctx.rec(cols), override=over)
        ctx.check(len(out) == 0, "no visits stay no visits")
        return
    out = run(ctx, s, cols, override=over)
    for i in range(n):
        ctx.close(out["zenithDistance"][i], old[i] if there and not over else 90.0 - alt[i], "a column that is there is kept unless recalculation is asked for")


@harness(P, [S + "base_stacker.py:BaseStacker.__eq__", S + "base_stacker.py:BaseStacker.__ne__"], "2 stackers of the same or different kinds with any settings", quick=[{}], budget=100)
def equality(ctx):
    a, b = ctx.real("a", 0, 1), ctx.real("b", 0, 1)
    kind = ctx.choice("kind", ["air", "wfd", "coadd", "dcr", "mixed", "follow"])
    if kind == "air":
        c, d = ctx.choice("c", ["x", "y"]), ctx.bool("d")
        x, y = st.NormAirmassStacker(telescope_lat=a, dec_col="x"), st.NormAirmassStacker(telescope_lat=b, dec_col=c, degrees=d)
        same = sand(a == b, c == "x" and d)
    elif kind == "wfd":
        x, y = (st.WFDlabelStacker(footprint=ctx.arr([q] * 12), fp_threshold=0.5) for q in (a, b))
        same = a == b
    elif kind == "coadd":
        c = ctx.choice("c", ["night", "n2"])
        x, y = st.CoaddStacker(), st.CoaddStacker(night_col=c)
        same = c == "night"
    elif kind == "dcr":
        x, y = st.DcrStacker(dcr_magnitudes={"u": a}), st.DcrStacker(dcr_magnitudes={"u": b})
        same = a == b
    elif kind == "follow":
        x, y = st.NFollowStacker(time_steps=np.array([a, 2.0])), st.NFollowStacker(time_steps=np.array([b, 2.0]))
        same = a == b
    else:
        x, y = st.NormAirmassStacker(), st.ZenithDistStacker()
        same = False
    same = bool(same)
    ctx.check(bool(x == y) == same, "equal exactly when of one kind with the same settings")
    ctx.check(bool(x != y) == (not same), "different otherwise")


@harness(P, [S + "sn_stacker.py:CoaddStacker._run", S + "sn_stacker.py:CoaddStacker.fill", S + "sn_stacker.py:CoaddStacker.m5_coadd"], "1 to 3 visits of up to two fields, bands and nights, any depth, exposures and times",
         quick=[{"n": n} for n in (1, 2, 3)], budget=150)
def coadd(ctx, n):
    f = [ctx.choice("f%d" % i, [10.0, 20.0][:2 if i else 1]) for i in range(n)]
    b = [ctx.choice("b%d" % i, ["r", "g"]) for i in range(n)]
    nt = [ctx.choice("n%d" % i, [1, 2]) if i != 1 else 1 for i in range(n)]
    m, t = ctx.reals("m", n, 20, 26), [ctx.choice("t%d" % i, [0.5, 2.0][:2 if i == 0 else 1]) + i for i in range(n)]
    ne, vt = ctx.reals("e", n, 1, 4), ctx.reals("v", n, 10, 40)
    s = st.CoaddStacker()
    d = ctx.rec({"fieldRA": f, "fieldDec": [-1.0] * n, "band": b, "night": nt, "fiveSigmaDepth": m, "observationStartMJD": t, "numExposures": ne, "visitTime": vt, "visitExposureTime": [q / 2 for q in vt], "coadd": [0] * n},
                {"band": "U", "observationStartMJD": "F", "fieldRA": "F", "fieldDec": "F", "night": "I", "coadd": "I"})
    out = s._run(d)
    groups = {}
    for i in range(n):
        groups.setdefault((f[i], b[i], nt[i]), []).append(i)
    ctx.check(len(out) == len(groups), "one row for each field, band and night")
    seen = set()
    for j in range(len(out)):
        key = (float(out["fieldRA"][j]), str(out["band"][j]), int(out["night"][j]))
        ctx.check(key in groups and key not in seen, "each group once")
        seen.add(key)
        g = groups[key]
        ctx.close(out["fiveSigmaDepth"][j], 1.25 * log10(osum([ten(0.8 * m[i]) for i in g])), "co-added depth", tol=1e-6)
        ctx.close(out["observationStartMJD"][j], omedian([t[i] for i in g]), "median time")
        ctx.close(out["numExposures"][j], osum([ne[i] for i in g]), "total exposures")
        ctx.close(out["visitTime"][j], osum([vt[i] for i in g]), "total time")
        ctx.close(out["visitExposureTime"][j], osum([vt[i] for i in g]) / 2, "total exposure time")
        ctx.check(out["coadd"][j] == 1, "marked as co-added")


class Sky:
    """Stand-in for astropy coordinates: a shift by an amount for far objects and another for near ones."""

    shift = {}

    def __init__(self, ra=None, dec=None, distance=None, obstime=None, **k):
        self.r, self.d, self.near, self.t = ra.rad(), dec.rad(), distance is not None, obstime

    def transform_to(self, frame):
        a, b = Sky.shift[self.near]
        return Frames.Out(ra=self.r + a * self.t, dec=self.d + b * self.t)


class Pc(U):
    pc = Unit(1.0)


@harness(P, [S + "general_stackers.py:ParallaxFactorStacker._run"], "1 or 2 visits at any position and time, any apparent shift of near and far objects (tangent-plane projection)", quick=[{"n": n, "deg": d} for n in (1, 2) for d in (True, False)], budget=100)
def parallax(ctx, n, deg):
    u = 1.0 if deg else DEG
    ra, dec, t = ctx.reals("ra", n, 0, 359), ctx.reals("dec", n, -85, 85), ctx.reals("t", n, 1, 2)
    s4 = ctx.reals("s", 4, -0.01, 0.01)
    for i in range(n):
        for q in s4:
            ctx.assume(abs(q) > 1e-4)
    saved = gen_mod.SkyCoord, gen_mod.u, gen_mod.Time
    Sky.shift = {True: (s4[0], s4[1]), False: (s4[2], s4[3])}
    gen_mod.SkyCoord, gen_mod.u, gen_mod.Time = Sky, Pc, (lambda v, format=None, **k: v)

    def plane(a, d, a0, d0):
        da = ouf("cos", a - a0)
        c = ouf("sin", d0) * ouf("sin", d) + ouf("cos", d0) * ouf("cos", d) * da
        ctx.assume(c > 0.5)
        return ouf("cos", d) * ouf("sin", a - a0) / c, (ouf("cos", d0) * ouf("sin", d) - ouf("sin", d0) * ouf("cos", d) * da) / c

    want = []
    for i in range(n):
        a, d = ra[i] * DEG, dec[i] * DEG
        x1, y1 = plane(a + s4[0] * t[i], d + s4[1] * t[i], a, d)
        x0, y0 = plane(a + s4[2] * t[i], d + s4[3] * t[i], a, d)
        want.append(((x1 - x0) / DEG * 3600, (y1 - y0) / DEG * 3600))
    try:
        out = run(ctx, st.ParallaxFactorStacker(degrees=deg), {"fieldRA": [q * u for q in ra], "fieldDec": [q * u for q in dec], "observationStartMJD": t})
    finally:
        gen_mod.SkyCoord, gen_mod.u, gen_mod.Time = saved
    for i in range(n):
        ctx.close(out["ra_pi_amp"][i], want[i][0], "shift of a near object against a far one, along right ascension, in arcseconds", tol=1e-6)
        ctx.close(out["dec_pi_amp"][i], want[i][1], "shift along declination", tol=1e-6)
