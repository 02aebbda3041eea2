"""Signal to noise, limiting depth and measurement errors of a visit."""

import numpy as np

import rubin_sim.phot_utils.predicted_zeropoints as pz
import rubin_sim.phot_utils.signaltonoise as sn
from harness.c19 import PLANCK, band, flat_grid, grid, same
from harness.lib import *  # noqa: F401,F403
from rubin_sim.phot_utils import PhotometricParameters, Sed

P = "C20"
M = "rubin_sim/phot_utils/signaltonoise.py:"
Z = "rubin_sim/phot_utils/predicted_zeropoints.py:"
assumptions(P, "powers of ten and logarithms are abstract (mutually inverse); the flat source and the sky are on the (small) wavelength grid of the bandpasses")


def params(ctx, nexp=None, **kw):
    return PhotometricParameters(
        exptime=ctx.real("t", 1, 60), nexp=ctx.choice("nexp", [1, 2, 3]) if nexp is None else nexp, effarea=ctx.real("area", 0.5, 5) * 1e5, gain=ctx.real("gain", 0.5, 5),
        readnoise=ctx.real("read", 0, 20), darkcurrent=ctx.real("dark", 0, 5), othernoise=ctx.real("other", 0, 10), platescale=ctx.real("plate", 0.1, 1), **kw)


def per_jansky(sb, w, pp):
    """Counts (ADU) of a flat source of one Jansky."""
    return osum([s / x for s, x in zip(sb, w)]) * (w[1] - w[0]) * pp.exptime * pp.nexp * pp.effarea / pp.gain * 1e-23 / PLANCK


def instr(pp):
    """Instrumental variance per pixel, ADU^2."""
    return (pp.nexp * pp.readnoise * pp.readnoise + pp.darkcurrent * pp.exptime * pp.nexp + pp.nexp * pp.othernoise * pp.othernoise) / pp.gain / pp.gain


def npix(fwhm, pp):
    return 2.266 * fwhm * fwhm / pp.platescale / pp.platescale


def setting(ctx, n, nexp=None):
    pp = params(ctx, nexp)
    tot, sb = band(ctx, n)
    hard, hb = band(ctx, n, name="h", low=0.1)
    w = grid(n)
    sky = ctx.reals("sky", n, 0.1, 10)
    fwhm = ctx.real("fwhm", 0.3, 3)
    # sky fluxes of micro Jansky per square arcsecond (about 21 to 26 mag)
    sed = Sed(wavelen=ctx.arr(w), fnu=ctx.arr([k * 1e-6 for k in sky]))
    skyadu = osum([h * k / x for h, k, x in zip(hb, sky, w)]) * 1e-6 * pp.exptime * pp.nexp * pp.effarea / pp.gain * 1e-23 / PLANCK
    return pp, tot, sb, hard, hb, w, sky, fwhm, sed, skyadu


@harness(P, [M + "fwhm_eff2_fwhm_geom", M + "fwhm_geom2_fwhm_eff", M + "calc_neff", M + "calc_instr_noise_sq", M + "mag_error_from_snr"], "any seeing, plate scale, noise parameters and signal to noise", quick=[{}], budget=60)
def parts(ctx):
    f = ctx.real("f", 0.1, 5)
    ctx.close(sn.fwhm_geom2_fwhm_eff(sn.fwhm_eff2_fwhm_geom(f)), f, "effective to geometric and back")
    ctx.close(sn.fwhm_eff2_fwhm_geom(f), 0.822 * f + 0.052, "geometric width")
    pp = params(ctx)
    ctx.close(sn.calc_neff(f, pp.platescale) * pp.platescale * pp.platescale, 2.266 * f * f, "effective number of pixels")
    ctx.close(sn.calc_instr_noise_sq(pp), instr(pp), "instrumental noise of all exposures, in counts")
    s = ctx.real("s", 0.1, 1000)
    ctx.close(sn.mag_error_from_snr(s), 2.5 * log10(1 + 1 / s), "magnitude error")


@harness(P, [M + "calc_total_non_source_noise_sq", M + "calc_snr_sed", M + "calc_mag_error_sed"], "bandpasses of 2 or 3 points with any throughputs, sky and source of any fluxes, any instrument parameters and seeing, with or without systematic error", quick=[{"n": 2}, {"n": 3}], budget=100)
def spectrum(ctx, n):
    pp, tot, sb, hard, hb, w, sky, fwhm, sed, skyadu = setting(ctx, n)
    src = ctx.reals("src", n, 0.1, 10)
    v = npix(fwhm, pp) * (skyadu * pp.platescale * pp.platescale / pp.gain + instr(pp))
    got = sn.calc_total_non_source_noise_sq(sed, hard, pp, fwhm)
    ctx.close(got, v, "noise of sky and instrument over the source")
    source = Sed(wavelen=ctx.arr(w), fnu=ctx.arr([k * 1e-6 for k in src]))
    counts = osum([h * k / x for h, k, x in zip(sb, src, w)]) * 1e-6 * pp.exptime * pp.nexp * pp.effarea / pp.gain * 1e-23 / PLANCK
    snr = sn.calc_snr_sed(source, tot, sed, hard, pp, fwhm)
    ctx.check(snr > 0, "positive")
    adu = source.calc_adu(tot, phot_params=pp)
    ctx.close(adu, counts, "counts of the source")
    ctx.close(snr * osqrt(adu / pp.gain + got), adu, "counts over the noise")
    err = sn.calc_mag_error_sed(source, tot, sed, hard, pp, fwhm)
    sig = 2.5 * log10(1 + 1 / snr)
    ctx.close(err, osqrt(sig * sig + pp.sigma_sys * pp.sigma_sys), "photon and systematic error in quadrature")
    same(ctx, [k * 1e6 for k in sed.fnu], sky, "sky unchanged")
    same(ctx, [k * 1e6 for k in source.fnu], src, "source unchanged")


@harness(P, [M + "calc_m5"], "bandpasses of 2 points with any throughputs, sky of any flux, any instrument parameters and seeing", quick=[{"n": 2, "nexp": k} for k in (1, 2)], budget=150)
def depth(ctx, n, nexp):
    pp, tot, sb, hard, hb, w, sky, fwhm, sed, skyadu = setting(ctx, n, nexp)
    with flat_grid(500.0, 500.0 + n - 1, 1.0):
        m5 = sn.calc_m5(sed, tot, hard, pp, fwhm_eff=fwhm)
    v = sn.calc_total_non_source_noise_sq(sed, hard, pp, fwhm)
    ctx.assume(v < 1e4)
    c = ten(-0.4 * m5) * 3631 * per_jansky(sb, w, pp)
    ctx.check(c > 0, "counts")
    # signal to noise 5: c^2 = 25 (c / gain + v)
    ctx.close(c * c / 25, c / pp.gain + v, "a source as faint as the depth has a signal to noise of five", tol=1e-6)


@harness(P, [M + "calc_sky_counts_per_pixel_for_m5", M + "scale_sky_m5"], "bandpasses of 2 points with any throughputs, sky of any flux, any instrument parameters, seeing and depth", quick=[{"n": 2, "nexp": k} for k in (1, 2)], budget=150)
def sky_for_depth(ctx, n, nexp):
    pp, tot, sb, hard, hb, w, sky, fwhm, sed, skyadu = setting(ctx, n, nexp)
    m5 = ctx.real("m5", 20, 28)
    with flat_grid(500.0, 500.0 + n - 1, 1.0):
        k = sn.calc_sky_counts_per_pixel_for_m5(m5, tot, pp, fwhm_eff=fwhm)
        out = sn.scale_sky_m5(m5, sed, tot, hard, pp, fwhm_eff=fwhm)
    c = ten(-0.4 * m5) * 3631 * per_jansky(sb, w, pp)
    v = npix(fwhm, pp) * (k / pp.gain + instr(pp))
    ctx.close(c * c / 25, c / pp.gain + v, "with this sky a source as faint as the depth has a signal to noise of five", tol=1e-6)
    ctx.check(out is not sed, "another spectrum")
    same(ctx, [q * 1e6 for q in sed.fnu], sky, "sky given is unchanged")
    per = skyadu * pp.platescale * pp.platescale
    for i in range(n):
        ctx.close(out.fnu[i] * 1e6 * per, sky[i] * k, "sky scaled to those counts per pixel", tol=1e-6)


@harness(P, [M + "calc_gamma", M + "calc_snr_m5", M + "calc_mag_error_m5"], "bandpass of 2 points with any throughputs, 1 or 2 magnitudes, any depth, gamma given or not, any systematic error", quick=[{"n": 2, "k": 1}, {"n": 2, "k": 2}], budget=100)
def from_depth(ctx, n, k):
    given = ctx.bool("given")
    pp = params(ctx, 1, sigma_sys=ctx.real("sys", 0, 0.1))
    tot, sb = band(ctx, n)
    w = grid(n)
    m5 = ctx.real("m5", 20, 28)
    d = ctx.reals("d", k, -8, 4)
    g0 = ctx.real("g0", 0.03, 0.04)
    mags = [m5 + x for x in d]
    arg = mags[0] if k == 1 else ctx.arr(mags)
    with flat_grid(500.0, 500.0 + n - 1, 1.0):
        if not given:
            gam = sn.calc_gamma(tot, m5, pp)
            c = ten(-0.4 * m5) * 3631 * per_jansky(sb, w, pp)
            ctx.close((0.04 - gam) * c * pp.gain, 1.0, "gamma of a source at the depth", tol=1e-6)
            ctx.assume(gam > 0)
        snr, gout = sn.calc_snr_m5(arg, tot, m5, pp, gamma=g0 if given else None)
        err, gout2 = sn.calc_mag_error_m5(arg, tot, m5, pp, gamma=g0 if given else None)
        at5, _ = sn.calc_snr_m5(m5, tot, m5, pp, gamma=g0 if given else None)
    g = g0 if given else gam
    ctx.close(gout, g, "gamma used")
    ctx.close(gout2, g, "gamma used")
    ctx.close(at5, 5.0, "signal to noise at the depth is five", tol=1e-6)
    snr, err = ([snr], [err]) if k == 1 else (list(snr), list(err))
    ctx.check(len(snr) == k and len(err) == k, "one per magnitude")
    for m, s, e in zip(mags, snr, err):
        x = ten(0.4 * (m - m5))
        var = (0.04 - g) * x + g * x * x
        ctx.close(s * osqrt(var), 1.0, "noise to signal of the flux ratio", tol=1e-6)
        sig = 2.5 * log10(1 + 1 / s)
        ctx.close(e, osqrt(sig * sig + pp.sigma_sys * pp.sigma_sys), "photon and systematic error in quadrature", tol=1e-6)


@harness(P, [M + "calc_astrometric_error"], "any magnitude, depth, seeing, number of visits and systematic floor", quick=[{}], budget=60)
def astrometry(ctx):
    m, m5 = ctx.real("m", 15, 28), ctx.real("m5", 20, 28)
    f, n, fl = ctx.real("f", 0.3, 3), ctx.real("n", 1, 1000), ctx.real("fl", 0, 50)
    how = ctx.bool("defaults")
    got = sn.calc_astrometric_error(m, m5) if how else sn.calc_astrometric_error(m, m5, fwhm_geom=f, nvisit=n, systematic_floor=fl)
    if how:
        f, n, fl = 0.7, 1, 10
    x = ten(0.4 * (m - m5))
    r = 1e3 * f * osqrt(0.001 * x + 0.039 * x * x)
    ctx.close(got, osqrt(fl * fl + r * r / n), "random error falls with the visits down to the floor", tol=1e-6)


ZPS = {
    "": (dict(u=-0.45815823969467745, g=-0.20789273881603035, r=-0.12233514157672552, i=-0.07387773563152214, z=-0.0573260392897174, y=-0.09549137502152871),
         dict(u=26.52229760811932, g=28.50754554409417, r=28.360365503331952, i=28.170373076693625, z=27.781368851776005, y=26.813708013594344)),
}


@harness(P, [Z + "predicted_zeropoint", Z + "predicted_zeropoint_itl", Z + "predicted_zeropoint_e2v", Z + "predicted_zeropoint_hardware", Z + "predicted_zeropoint_hardware_itl", Z + "predicted_zeropoint_hardware_e2v"],
         "any band, airmass and exposure time", quick=[{}], budget=60)
def zeropoints(ctx):
    kind = ctx.choice("kind", ["", "_itl", "_e2v"])
    b = ctx.choice("band", list("ugrizy"))
    x, t, c = ctx.real("x", 1, 3), ctx.real("t", 0.1, 1000), ctx.real("c", 1.5, 100)
    f, h = getattr(pz, "predicted_zeropoint" + kind), getattr(pz, "predicted_zeropoint_hardware" + kind)
    ctx.close(f(b, x, t), f(b, x) + 2.5 * log10(t), "counts grow in proportion to the exposure")
    ctx.close(h(b, t), h(b) + 2.5 * log10(t), "counts grow in proportion to the exposure (hardware)")
    # the general curve is one of the two sensors' within 0.1 mag, and the atmosphere only takes light away
    ctx.check(f(b, x) < h(b), "the atmosphere takes light away")
    k = f(b, 2.0) - f(b, 1.0)
    ctx.close(f(b, x), f(b, 1.0) + k * (x - 1), "straight line in airmass")
    ctx.check(-0.6 < k < -0.04, "extinction per airmass")
    ctx.close(h(b), f(b, 1.0) - k, "the hardware is the line at airmass zero", tol=0.1)
    ctx.close(f(b, 1.0), pz.predicted_zeropoint(b, 1.0), "close to the average sensor", tol=0.1)
    if kind == "":
        ctx.close(k, ZPS[""][0][b], "extinction coefficient", tol=1e-6)
        ctx.close(f(b, 1.0), ZPS[""][1][b], "zeropoint at airmass one", tol=1e-6)
