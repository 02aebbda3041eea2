"""Photometry: spectra, throughputs, fluxes and magnitudes."""

import contextlib
import os
import tempfile

import numpy as np

import rubin_sim.phot_utils.sed_utils as su
from harness.lib import *  # noqa: F401,F403
from rubin_sim.phot_utils import Bandpass, DustValues, PhotometricParameters, Sed
from rubin_sim.phot_utils.spectral_resampling import spectres

P = "C19"
S = "rubin_sim/phot_utils/sed.py:Sed."
B = "rubin_sim/phot_utils/bandpass.py:Bandpass."
assumptions(P, "powers of ten, logarithms, exponentials and non-integer powers are abstract; wavelength grids are concrete (a few spacings each) except where stated")
C = 299792458.0  # m/s
PLANCK = 6.626068e-27
ZP = -2.5 * math.log10(3631)


def grid(n, lo=500.0, step=1.0):
    return [lo + step * i for i in range(n)]


def trap(y, x):
    return osum([(y[i] + y[i + 1]) / 2 * (x[i + 1] - x[i]) for i in range(len(x) - 1)])


def over(w, f, nw, fill):
    """Mean flux over each new bin of a spectrum that is constant over each old bin."""
    def edges(v):
        return [v[0] - (v[1] - v[0]) / 2] + [(a + b) / 2 for a, b in zip(v, v[1:])] + [v[-1] + (v[-1] - v[-2]) / 2]
    oe, ne = edges(w), edges(nw)
    out = []
    for j in range(len(nw)):
        a, b = ne[j], ne[j + 1]
        if bool(a < oe[0]) or bool(b > oe[-1]):
            out.append(fill)
            continue
        s = 0.0
        for i in range(len(w)):
            lo, hi = symmax(a, oe[i]), symmin(b, oe[i + 1])
            s = s + f[i] * symmax(hi - lo, 0.0)
        out.append(s / (b - a))
    return out


def same(ctx, got, want, label, tol=1e-7):
    got, want = list(got), list(want)
    ctx.check(len(got) == len(want), label + " (length)")
    for i, (g, w) in enumerate(zip(got, want)):
        if isnan(w) or isnan(g):
            ctx.check(isnan(g) and isnan(w), label + " (undefined outside)")
        else:
            ctx.close(g, w, label, tol=tol)


@harness(P, ["rubin_sim/phot_utils/spectral_resampling.py:spectres", "rubin_sim/phot_utils/spectral_resampling.py:make_bins"], "3 to 5 old and 2 to 4 new wavelengths, any fluxes, evenly spaced new grid of any start (and spacing from a list), uneven old grid",
         quick=[{"old": o, "n": n, "step": s} for o, n, s in (([1.0, 2.0, 3.0], 2, 1.0), ([1.0, 2.0, 3.0, 4.0], 2, 0.5), ([1.0, 2.0, 4.0, 5.0], 3, 1.5), ([1.0, 2.0, 3.0, 4.0], 2, 0.25), ([1.0, 1.5, 2.0, 4.0, 5.0], 2, 2.0))],
         thorough=[{"old": [1.0, 2.0, 2.5, 4.0, 6.0], "n": 4, "step": 0.75}], budget=150)
def resample(ctx, old, n, step):
    f = ctx.reals("f", len(old), 0, 10)
    x0 = ctx.real("x0", 0, 6)
    new = [x0 + step * i for i in range(n)]
    fill = ctx.choice("fill", [0.0, -1.0])
    w, fl = ctx.arr(old), ctx.arr(f)
    got = spectres(ctx.arr(new), w, fl, fill=fill, verbose=False)
    want = over(old, f, new, fill)
    same(ctx, got, want, "mean over the new bin")
    same(ctx, fl, f, "spectrum given is unchanged")


@harness(P, [S + "flux_from_mag", S + "mag_from_flux", S + "flambda_tofnu", S + "fnu_toflambda", S + "set_sed", S + "get_sed_flambda", S + "get_sed_fnu", S + "synchronize_sed", S + "clear_sed", S + "multiply_flux_norm"], "spectra of 2 or 3 points with any fluxes and wavelengths, any magnitude", quick=[{"n": 2}, {"n": 3}], budget=100)
def conversions(ctx, n):
    w = [ctx.real("w0", 300, 400)]
    for i in range(1, n):
        w.append(w[-1] + ctx.real("d%d" % i, 1, 100))
    f, m, k = ctx.reals("f", n, 0.1, 10), ctx.real("m", -5, 30), ctx.real("k", 0.1, 5)
    s = Sed()
    ctx.close(s.flux_from_mag(m), 3631 * ten(-0.4 * m), "AB flux in Jansky")
    ctx.close(s.mag_from_flux(f[0]), -2.5 * log10(f[0]) - ZP, "AB magnitude")
    ctx.close(s.mag_from_flux(s.flux_from_mag(m)), m, "there and back")
    wa, fa = ctx.arr(w), ctx.arr(f)
    # fnu = flambda * lambda^2 / c, in Jansky for ergs/cm^2/s/nm and nm
    jy = [f[i] * w[i] * w[i] * 1e-9 / C * 1e23 for i in range(n)]
    g = s.flambda_tofnu(wa, fa)[1]
    same(ctx, [q * 1e-6 for q in g], [q * 1e-6 for q in jy], "fnu of flambda")
    same(ctx, s.fnu_toflambda(wa, g)[1], f, "flambda of fnu of flambda")
    how = ctx.bool("how")
    t = Sed(wavelen=wa, flambda=fa) if how else Sed(wavelen=wa, fnu=fa)
    want_l = f if how else [f[i] / w[i] / w[i] / 1e-9 * C / 1e23 for i in range(n)]
    want_n = jy if how else f
    sc = 1e-6 if how else 1e6
    same(ctx, [q * sc * 1e6 for q in t.get_sed_flambda()[1]] if how else [q * sc for q in t.get_sed_flambda()[1]], [q * sc * 1e6 for q in want_l] if how else [q * sc for q in want_l], "flambda of the sed")
    same(ctx, [q * (1e-6 if how else 1) for q in t.get_sed_fnu()[1]], [q * (1e-6 if how else 1) for q in want_n], "fnu of the sed")
    same(ctx, t.wavelen, w, "wavelengths of the sed")
    t.multiply_flux_norm(k)
    same(ctx, [q * (1e-6 if how else 1) for q in t.fnu], [k * q * (1e-6 if how else 1) for q in want_n], "scaled fnu")
    same(ctx, [q * (1 if how else 1e6) for q in t.flambda], [k * q * (1 if how else 1e6) for q in want_l], "scaled flambda")
    fa[0] = 77.0
    wa[0] = 1.0
    u = Sed(wavelen=ctx.arr(w), fnu=ctx.arr(f))
    ctx.close(t.wavelen[0], w[0], "the sed keeps its own copy")
    u.synchronize_sed()
    same(ctx, u.fnu, f, "in step")
    u.clear_sed()
    ctx.check(u.wavelen is None and u.fnu is None and u.flambda is None, "cleared")
    ctx.close(u.flux_from_mag(m), 3631 * ten(-0.4 * m), "AB flux after clearing")


@harness(P, [S + "set_sed"], "2 points, any fluxes", quick=[{}], budget=60)
def own_copy(ctx):
    f, w = ctx.reals("f", 2, 1, 10), ctx.reals("w", 2, 300, 400)
    fa, wa = ctx.arr(f), ctx.arr(w)
    nu = ctx.bool("nu")
    s = Sed(wavelen=wa, fnu=fa) if nu else Sed(wavelen=wa, flambda=fa)
    fa[1] = 99.0
    wa[1] = 1.0
    same(ctx, s.fnu if nu else s.flambda, f, "flux of the sed does not follow the array it came from")
    same(ctx, s.wavelen, w, "wavelengths of the sed do not follow the array they came from")


def band(ctx, n, lo=500.0, step=1.0, name="b", low=0.01):
    sb = ctx.reals(name, n, low, 1)
    return Bandpass(wavelen=ctx.arr(grid(n, lo, step)), sb=ctx.arr(sb)), sb


def mean_flux(w, fnu, sb):
    phi = [s / x for s, x in zip(sb, w)]
    return trap([a * b for a, b in zip(fnu, phi)], w), trap(phi, w)


@harness(P, [S + "calc_flux", S + "calc_mag", S + "calc_flux_norm", S + "calc_adu", S + "calc_ergs", S + "resample_sed", S + "_need_resample", B + "sb_tophi", B + "set_bandpass"],
         "bandpasses of 3 or 4 points with any throughputs, spectra of any fluxes on the same or another grid (coarser, finer, longer), any magnitude, photometric parameters of any size",
         quick=[{"n": n, "g": g} for n, g in ((3, "same"), (4, "same"), (3, "fine"), (3, "long"), (4, "coarse"))] + [{"n": 3, "g": "same", "step": 0.5}], budget=150)
def fluxes(ctx, n, g, step=1.0):
    b, sb = band(ctx, n, step=step)
    w = grid(n, step=step)
    sw = {"same": w, "fine": grid(2 * n + 3, 499.0, 0.5), "long": grid(n + 4, 498.0, 1.0), "coarse": grid(n // 2 + 2, 498.0, 2.5)}[g]
    f = ctx.reals("f", len(sw), 0.5, 10)
    s = Sed(wavelen=ctx.arr(sw), fnu=ctx.arr(f))
    fn = f if g == "same" else over(sw, f, w, None)
    num, den = mean_flux(w, fn, sb)
    flux = s.calc_flux(b)
    ctx.close(flux * den * 1e3, num * 1e3, "mean flux over the normalised response")
    m = s.calc_mag(b)
    ctx.close(m, -2.5 * log10(flux) - ZP, "magnitude of the flux")
    target = ctx.real("target", 15, 30)
    ctx.close(s.calc_flux_norm(target, b) * ten(-0.4 * m), ten(-0.4 * target), "factor that brings the magnitude to the target")
    pp = PhotometricParameters(exptime=ctx.real("t", 1, 100), nexp=ctx.choice("ne", [1, 2]), effarea=ctx.real("area", 1, 10), gain=ctx.real("gain", 0.5, 5))
    adu = s.calc_adu(b, pp)
    ctx.close(adu * pp.gain * 1e-3, osum([a * c / x for a, c, x in zip(fn, sb, w)]) * step * pp.exptime * pp.nexp * pp.effarea * 1e-23 / PLANCK * 1e-3, "counts of photons through the throughput")
    s2 = Sed(wavelen=ctx.arr(sw), flambda=ctx.arr(f))
    ctx.close(s2.calc_ergs(b), trap([a * c for a, c in zip(fn, sb)], w), "energy through the throughput")
    same(ctx, s.fnu, f, "spectrum unchanged")
    same(ctx, s.wavelen, sw, "wavelengths unchanged")


@harness(P, [S + "calc_flux", S + "calc_mag", B + "sb_tophi", B + "calc_eff_wavelen"], "bandpass of 3 or 4 points with any throughputs and any normalisation, flat source of any flux", quick=[{"n": 3}, {"n": 4}], budget=100)
def normalised(ctx, n):
    b, sb = band(ctx, n)
    k, f0 = ctx.real("k", 0.1, 10), ctx.real("f0", 0.1, 10)
    w = grid(n)
    b2 = Bandpass(wavelen=ctx.arr(w), sb=ctx.arr([k * q for q in sb]))
    f = ctx.reals("f", n, 0.1, 10)
    s = Sed(wavelen=ctx.arr(w), fnu=ctx.arr(f))
    ctx.close(s.calc_flux(b), s.calc_flux(b2), "does not depend on the height of the throughput")
    flat = Sed(wavelen=ctx.arr(w), fnu=ctx.arr([f0] * n))
    ctx.close(flat.calc_flux(b), f0, "a flat spectrum has its own flux in every band")
    ctx.close(trap(list(b.phi), w), 1.0, "response is normalised")
    a, c = b.calc_eff_wavelen()
    ctx.close(a * osum([q / x for q, x in zip(sb, w)]) * 100, osum(sb) * 100, "effective wavelength of the response")
    ctx.close(c * osum(sb), osum([q * x for q, x in zip(sb, w)]), "effective wavelength of the throughput")


@harness(P, [B + "resample_bandpass", B + "multiply_throughputs", B + "get_bandpass", B + "imsim_bandpass"], "throughputs of 2 to 4 points on any increasing wavelengths within the grid or reaching outside it", quick=[{"n": 2}, {"n": 3}], thorough=[{"n": 4}], budget=150)
def throughputs(ctx, n):
    w = [ctx.real("w0", 498, 502)]
    for i in range(1, n):
        w.append(w[-1] + ctx.real("d%d" % i, 0.5, 3))
    sb = ctx.reals("s", n, 0, 1)
    g = grid(4, 500.0, 1.0)
    for x in w:
        for q in g:
            ctx.assume(abs(x - q) > 1e-6)
    ctx.assume(w[-1] > 500.1)

    def at(q):
        if bool(w[0] > q) or bool(w[-1] < q):
            return 0.0
        for i in range(n - 1):
            if bool(q <= w[i + 1]):
                return sb[i] + (sb[i + 1] - sb[i]) * (q - w[i]) / (w[i + 1] - w[i])

    want = [at(q) for q in g]
    b = Bandpass(wavelen=ctx.arr(w), sb=ctx.arr(sb))
    gw, gs = b.resample_bandpass(ctx.arr(w), ctx.arr(sb), wavelen_min=500.0, wavelen_max=503.0, wavelen_step=1.0)
    same(ctx, gw, g, "grid")
    same(ctx, gs, want, "interpolated, zero outside", tol=1e-6)
    same(ctx, b.get_bandpass()[1], sb, "bandpass unchanged when arrays are given")
    h = ctx.reals("h", 4, 0, 1)
    b2 = Bandpass(wavelen=ctx.arr(g), sb=ctx.arr(h))
    mw, msb = b2.multiply_throughputs(ctx.arr(w), ctx.arr(sb))
    same(ctx, msb, [a * c for a, c in zip(h, want)], "product of throughputs on the grid of the bandpass", tol=1e-6)
    same(ctx, b2.sb, h, "bandpass unchanged by the product")
    ctx.closes(b2.multiply_throughputs(ctx.arr(g), ctx.arr(h))[1], [q * q for q in h], "product on the same grid")
    b.phi = ctx.arr([1.0] * n)
    b.resample_bandpass(wavelen_min=500.0, wavelen_max=503.0, wavelen_step=1.0)
    same(ctx, b.sb, want, "bandpass on the new grid", tol=1e-6)
    ctx.check(b.phi is None, "response to be computed again")


@harness(P, [S + "redshift_sed", S + "add_dust"], "2 or 3 points of any flux, any redshift either way with or without dimming, any extinction given any two of A_V, E(B-V) and R_V", quick=[{"n": 2}, {"n": 3}], budget=100)
def altered(ctx, n):
    w, f = grid(n), ctx.reals("f", n, 0.1, 10)
    z = ctx.real("z", -2, 3)
    dim = ctx.bool("dim")
    mine = ctx.bool("mine")
    s = Sed(wavelen=ctx.arr(w), flambda=ctx.arr(f))
    s.flambda_tofnu()
    fa, wa = ctx.arr(f), ctx.arr(w)
    if mine:
        s.redshift_sed(z, dimming=dim)
        gw, gf = s.wavelen, s.flambda
        ctx.check(s.fnu is None, "fnu to be computed again")
    else:
        gw, gf = s.redshift_sed(z, dimming=dim, wavelen=wa, flambda=fa)
        same(ctx, fa, f, "flux given is unchanged")
        same(ctx, wa, w, "wavelengths given are unchanged")
        same(ctx, s.flambda, f, "the sed is unchanged")
    k = (1.0 + z) if bool(z >= 0) else 1.0 / (1.0 - z)
    same(ctx, gw, [x * k for x in w], "shifted wavelengths")
    same(ctx, gf, [q / k for q in f] if dim else f, "dimmed flux")
    ax, bx = ctx.reals("ax", n, -1, 2), ctx.reals("bx", n, -1, 2)
    ebv, av = ctx.real("ebv", 0.1, 2), ctx.real("av", 0.1, 3)
    rv = ctx.choice("rv", [3.1, 2.0])
    how = ctx.choice("how", ["ebv", "av", "both"])
    kw = {"ebv": dict(ebv=ebv, r_v=rv), "av": dict(a_v=av, r_v=rv), "both": dict(ebv=ebv, a_v=av)}[how]
    if how == "both":
        ctx.assume(abs(av - 3.1 * ebv) > 1e-3)
    a_v = rv * ebv if how == "ebv" else av
    r = av / ebv if how == "both" else rv
    t = Sed(wavelen=ctx.arr(w), flambda=ctx.arr(f))
    t.flambda_tofnu()
    if mine:
        t.add_dust(ctx.arr(ax), ctx.arr(bx), **kw)
        g = t.flambda
        ctx.check(t.fnu is None, "fnu to be computed again")
    else:
        g = t.add_dust(ctx.arr(ax), ctx.arr(bx), wavelen=wa, flambda=fa, **kw)[1]
        same(ctx, fa, f, "flux given is unchanged by dust")
    same(ctx, g, [q * ouf("exp", -(a + c / r) * a_v * 0.4 * math.log(10)) for q, a, c in zip(f, ax, bx)], "flux behind the dust", tol=1e-6)


def ccm(x):
    if bool(x <= 1.1):
        p = x ** 1.61
        return 0.574 * p, -0.527 * p
    if bool(x <= 3.3):
        y = x - 1.82
        a = [1, 0.17699, -0.50447, -0.02427, 0.72085, 0.01979, -0.77530, 0.32999]
        c = [0, 1.41338, 2.28305, 1.07233, -5.38434, -0.62251, 5.30260, -2.09002]
        return osum([q * y ** i for i, q in enumerate(a)]), osum([q * y ** i for i, q in enumerate(c)])
    return uv(x)


def odonnell(x):
    if bool(x <= 1.1) or bool(x > 3.3):
        return ccm(x)
    y = x - 1.82
    a = [1, 0.104, -0.609, 0.701, 1.137, -1.718, -0.827, 1.647, -0.505]
    c = [0, 1.952, 2.908, -3.989, -7.985, 11.102, 5.491, -10.805, 3.347]
    return osum([q * y ** i for i, q in enumerate(a)]), osum([q * y ** i for i, q in enumerate(c)])


def uv(x):
    if bool(x < 8):
        fa = fb = 0.0
        if bool(x > 5.9):
            d = x - 5.9
            fa, fb = -0.04473 * d ** 2 - 0.009779 * d ** 3, 0.2130 * d ** 2 + 0.1207 * d ** 3
        return 1.752 - 0.316 * x - 0.104 / ((x - 4.67) ** 2 + 0.341) + fa, -3.090 + 1.825 * x + 1.206 / ((x - 4.62) ** 2 + 0.263) + fb
    y = x - 8.0
    return -1.073 - 0.628 * y + 0.137 * y ** 2 - 0.070 * y ** 3, 13.670 + 4.257 * y - 0.420 * y ** 2 + 0.374 * y ** 3


@harness(P, [S + "setup_ccm_ab", S + "setup_o_donnell_ab"], "1 or 2 wavelengths anywhere from 91 nm to 3.3 micron (the joins at 0.91 micron, 303 nm and 125 nm left out, the one at 169.5 nm included)", quick=[{"n": 1, "law": q} for q in ("ccm", "od")], thorough=[{"n": 2, "law": q} for q in ("ccm", "od")], budget=150)
def dust_laws(ctx, n, law):
    x = ctx.reals("x", n, 0.31, 10.9)
    for q in x:
        for e in (1.1, 3.3, 8.0):
            ctx.assume(abs(q - e) > 1e-6)
    if n == 1 and ctx.bool("edge"):
        x = [5.9]
    w = ctx.arr([1000.0 / q for q in x])
    # the code's own inverse wavelength, which equals x up to rounding
    s = Sed()
    a, b = s.setup_ccm_ab(w) if law == "ccm" else s.setup_o_donnell_ab(w)
    for i in range(n):
        wa, wb = (ccm if law == "ccm" else odonnell)(x[i])
        ctx.close(a[i], wa, "extinction law a(x)", tol=1e-6)
        ctx.close(b[i], wb, "extinction law b(x)", tol=1e-6)


@harness(P, [S + "multiply_sed", S + "renormalize_sed"], "spectra of 3 to 5 points of any flux on grids that agree, differ in length or start, any wavelength and value to normalise to", quick=[{"o": o} for o in ("same", "longer", "shifted")], budget=150)
def combined(ctx, o):
    w = grid(4)
    w2 = {"same": w, "longer": grid(6), "shifted": grid(4, 501.0)}[o]
    f, h = ctx.reals("f", 4, 0.1, 10), ctx.reals("h", len(w2), 0.1, 10)
    s, t = Sed(wavelen=ctx.arr(w), flambda=ctx.arr(f)), Sed(wavelen=ctx.arr(w2), flambda=ctx.arr(h))
    r = s.multiply_sed(t, wavelen_step=1.0)
    ctx.check(list(r.wavelen) == [x for x in w if x in w2], "wavelengths both have")
    same(ctx, r.flambda, [f[w.index(x)] * h[w2.index(x)] for x in w if x in w2], "product of the two")
    same(ctx, s.flambda, f, "first unchanged")
    same(ctx, t.flambda, h, "second unchanged")
    at, val = ctx.real("at", 500.01, 502.99), ctx.real("val", 0.5, 5)
    nu = ctx.bool("nu")
    mine = ctx.bool("mine")
    k = [f[i] * w[i] * w[i] * 1e-9 / C * 1e23 for i in range(4)] if nu else f
    for q in w:
        ctx.assume(abs(at - q) > 1e-6)
    i = next(j for j in range(3) if bool(at <= w[j + 1]))
    here = k[i] + (k[i + 1] - k[i]) * (at - w[i]) / (w[i + 1] - w[i])
    kw = dict(lambdanorm=at, normvalue=val, normflux="fnu" if nu else "flambda")
    if mine:
        s.renormalize_sed(**kw)
        n = s
        same(ctx, [q * w[j] * w[j] * 1e-9 / C * 1e23 for j, q in enumerate(n.flambda)], list(n.fnu), "flambda and fnu in step")
    else:
        n = s.renormalize_sed(wavelen=ctx.arr(w), flambda=ctx.arr(f), **kw)
        same(ctx, s.flambda, f, "the sed is unchanged")
    got = list(n.flambda)
    for j in range(4):
        ctx.close(got[j] * (here * 1e-7 if nu else here), f[j] * (val * 1e-7 if nu else val), "scaled to the value at the wavelength", tol=1e-6)


@harness(P, [S + "setup_phi_array", S + "many_flux_calc", S + "many_mag_calc"], "two bandpasses of 3 to 5 points on overlapping grids with any throughputs, spectra of any flux", quick=[{"n": 3}, {"n": 4}, {"n": 3, "dw": 2.0}], budget=100)
def many(ctx, n, dw=1.0):
    b1, s1 = band(ctx, n, 500.0, dw, "a")
    b2, s2 = band(ctx, n, 500.0 + dw, dw, "b")
    w = grid(n + 1, step=dw)
    f = ctx.reals("f", n + 1, 0.1, 10)
    s = Sed(wavelen=ctx.arr(w), fnu=ctx.arr(f))
    phi, step = s.setup_phi_array([b1, b2])
    ctx.close(step, dw, "spacing")
    full = [s1 + [0.0], [0.0] + s2]
    got = s.many_flux_calc(phi, step)
    mags = s.many_mag_calc(phi, step)
    one = s.many_flux_calc(phi, step, observed_bandpass_ind=[1])
    for i in range(2):
        p = [q / x for q, x in zip(full[i], w)]
        num = osum([a * c for a, c in zip(f, p)]) * dw
        ctx.close(got[i] * trap(p, w) * 1e3, num * 1e3, "flux in each band")
        ctx.close(mags[i], -2.5 * log10(got[i]) - ZP, "magnitude in each band")
    ctx.check(len(one) == 1, "only the bands asked for")
    ctx.close(one[0], got[1], "flux in the band asked for")


@harness(P, [S + "calc_flux", S + "calc_mag", S + "calc_adu", S + "calc_flux_norm", S + "get_sed_fnu", S + "synchronize_sed", S + "set_flat_sed", B + "calc_eff_wavelen", B + "calc_zp_t", B + "imsim_bandpass"],
         "spectra of 3 points with any fluxes given in flambda only or with fnu as well, bandpasses whose response has or has not been computed, 5 grids to resample to", quick=[{}], budget=120)
def any_state(ctx):
    w = grid(3, step=0.5)
    f = ctx.reals("f", 3, 0.5, 10)
    sb = ctx.reals("b", 3, 0.01, 1)
    pp = PhotometricParameters()

    def sed(known):
        s = Sed(wavelen=ctx.arr(w), flambda=ctx.arr(f))
        if known:
            s.flambda_tofnu()
        return s

    def bp(known):
        b = Bandpass(wavelen=ctx.arr(w), sb=ctx.arr(sb))
        if known:
            b.sb_tophi()
        return b

    what = ctx.choice("what", ["flux", "norm", "adu", "fnu", "eff", "sync"])
    if what in ("flux", "norm", "adu"):
        for x in (False, True):
            s, b = sed(x), bp(ctx.bool("phi"))
            v = {"flux": lambda: s.calc_flux(b), "norm": lambda: 1e3 / s.calc_flux_norm(20.0, b), "adu": lambda: s.calc_adu(b, pp)}[what]()
            if x:
                ctx.close(v, first, "the same whether or not fnu is known")
            first = v
    elif what == "fnu":
        s, t = sed(False), sed(True)
        same(ctx, s.get_sed_fnu()[1], list(t.fnu), "fnu on demand")
        ctx.check(s.fnu is None, "asking for fnu changes nothing")
        same(ctx, t.get_sed_fnu()[1], list(t.fnu), "fnu that is known")
    elif what == "eff":
        b = bp(ctx.bool("phi"))
        a, c = b.calc_eff_wavelen()
        ctx.close(a * osum([q / x for q, x in zip(sb, w)]) * 100, osum(sb) * 100, "effective wavelength of the response")
        ctx.close(c * osum(sb), osum([q * x for q, x in zip(sb, w)]), "effective wavelength of the throughput")
    else:
        grids = [(None, None, None), (500.0, 501.0, 0.5), (500.0, 501.0, None), (None, 501.0, 0.25), (500.0, 501.0, 1.0)]
        lo, hi, st = grids[ctx.choice("grid", list(range(5)))]
        s = sed(ctx.bool("known"))
        s.synchronize_sed(lo, hi, st)
        whole = None not in (lo, hi, st)
        nw = grid(int(round((hi - lo) / st)) + 1, lo, st) if whole and st != 0.5 else w
        same(ctx, s.wavelen, nw, "grid asked for, or the spectrum's own")
        fl = list(s.flambda)
        if nw is w:
            same(ctx, fl, f, "fluxes as they were")
        t = Sed(wavelen=ctx.arr(list(s.wavelen)), flambda=ctx.arr(fl))
        t.flambda_tofnu()
        same(ctx, s.fnu, list(t.fnu), "fnu goes with flambda")


@harness(P, [S + "set_flat_sed", B + "imsim_bandpass", S + "mag_from_flux"], "5 wavelength ranges", quick=[{}], budget=60)
def reference(ctx):
    lo, hi, st = [(300.0, 1150.0, 50.0), (499.0, 502.0, 1.0), (500.0, 501.0, 0.25), (490.0, 510.0, 2.5), (400.0, 600.0, 25.0)][ctx.choice("range", list(range(5)))]
    s = Sed()
    s.set_flat_sed(wavelen_min=lo, wavelen_max=hi, wavelen_step=st)
    ctx.check(np.allclose(np.array(s.fnu, float), 3631.0), "the flat source is of magnitude zero")
    ctx.check(abs(s.wavelen[0] - lo) < 1e-9 and s.wavelen[-1] >= hi - 1e-9 and s.wavelen[-1] < hi + st + 1e-9 and np.allclose(np.diff(s.wavelen), st), "over the whole range")
    at = ctx.choice("at", [500.0, 501.0])
    b = Bandpass()
    b.imsim_bandpass(imsimwavelen=at, wavelen_min=lo, wavelen_max=hi, wavelen_step=st)
    near = np.abs(np.array(b.wavelen, float) - at)
    on = np.array(b.sb, float)
    ctx.check(on.sum() == 1.0 and set(on) == {0.0, 1.0} and near[on > 0][0] <= near.min() + 1e-9, "one at the point nearest to the wavelength, zero elsewhere")
    ctx.check(abs(b.wavelen[0] - lo) < 1e-9 and b.wavelen[-1] >= hi - 1e-9, "over the whole range")


@contextlib.contextmanager
def flat_grid(lo, hi, step):
    """The flat source on a small wavelength grid (the real routine, its default range replaced)."""
    orig = Sed.set_flat_sed
    Sed.set_flat_sed = lambda self, **kw: orig(self, wavelen_min=lo, wavelen_max=hi, wavelen_step=step)
    try:
        yield
    finally:
        Sed.set_flat_sed = orig


@harness(P, [B + "calc_zp_t", S + "set_flat_sed", "rubin_sim/phot_utils/photometric_parameters.py:DustValues.__init__", "rubin_sim/phot_utils/sed_utils.py:get_imsim_flux_norm"],
         "bandpass of 3 points with any throughputs (flat source on the same grid), photometric parameters of any size, any R_V of two and reference extinction, spectra of any flux around 500 nm", quick=[{}], budget=100)
def zeropoints(ctx):
    b, sb = band(ctx, 3)
    w = grid(3)
    pp = PhotometricParameters(exptime=ctx.real("t", 1, 100), nexp=ctx.choice("ne", [1, 2]), effarea=ctx.real("area", 1000, 10000), gain=ctx.real("gain", 0.5, 5))
    with flat_grid(500.0, 502.0, 1.0):
        zp = b.calc_zp_t(pp)
    per = osum([s / x for s, x in zip(sb, w)]) * pp.exptime * pp.nexp * pp.effarea / pp.gain * 1e-23 / PLANCK
    ctx.close(ten(-0.4 * zp) * 3631 * per, 1.0, "magnitude of a flat source of one count", tol=1e-6)
    rv, ref = ctx.choice("rv", [3.1, 2.5]), ctx.choice("ref", [1.0, 0.5])
    d = DustValues(r_v=rv, bandpass_dict={"x": b}, ref_ebv=ref)
    a, c = Sed().setup_ccm_ab(np.array(w))
    k = [10 ** (-0.4 * (a[i] + c[i] / rv) * rv * ref) for i in range(3)]
    num, den = mean_flux(w, [float(q) for q in k], sb)
    ctx.close(ten(-0.4 * d.r_x["x"]) * den * 1e3, num * 1e3, "extinction in the band for the reference reddening", tol=1e-6)
    ctx.check(d.r_x is not d.ax1 and list(d.ax1) == ["x"], "one value per band")
    f = ctx.reals("f", 3, 0.1, 10)
    m = ctx.real("m", 10, 30)
    s = Sed(wavelen=ctx.arr([499.0, 500.5, 501.5]), fnu=ctx.arr(f))
    at = f[0] + (f[1] - f[0]) / 1.5
    ctx.close(su.get_imsim_flux_norm(s, m) * at, 3631 * ten(-0.4 * m), "factor for the magnitude at 500 nm", tol=1e-6)


@harness(P, ["rubin_sim/phot_utils/photometric_parameters.py:PhotometricParameters.__init__"], "any subset of three parameters given with any value, any band or none", quick=[{}], budget=60)
def parameters(ctx):
    names = ("exptime", "gain", "readnoise", "sigma_sys")
    vals = ctx.reals("v", 4, 0, 10)
    given = [ctx.bool("g%d" % i) for i in range(4)]
    bnd = ctx.choice("b", [None, "u", "r", "y"])
    pp = PhotometricParameters(bandpass=bnd, **{n: v for n, v, g in zip(names, vals, given) if g})
    sys = {None: 0.005, "u": 0.0075, "r": 0.005, "y": 0.0075}[bnd]
    for n, v, g, d in zip(names, vals, given, (15.0, 2.3, 8.8, sys)):
        ctx.close(getattr(pp, n), v if g else d, "value given or the default of the band (%s)" % n)
    ctx.close(pp.nexp, 2, "default")
    ctx.close(pp.platescale, 0.2, "default")
    ctx.close(pp.darkcurrent, 0.2, "default")
    ctx.check(pp.bandpass == bnd, "band")
    _, e = ctx.call(PhotometricParameters, bandpass="x")
    ctx.check(isinstance(e, RuntimeError), "an unknown band needs every parameter")
    _, e = ctx.call(setattr, pp, "gain", 1.0)
    ctx.check(isinstance(e, RuntimeError), "parameters cannot be changed afterwards")


@harness(P, [S + "__eq__", S + "__ne__"], "spectra of 2 points with any fluxes, with or without fnu, flux or data", quick=[{}], budget=60)
def equality(ctx):
    kinds = ["none", "l", "n"]
    ka, kb = ctx.choice("ka", kinds), ctx.choice("kb", kinds)
    fa, fb = ctx.reals("fa", 2, 1, 2), ctx.reals("fb", 2, 1, 2)
    w = [500.0, 501.0]

    def mk(k, f):
        if k == "none":
            return Sed(name="s")
        return Sed(wavelen=np.array(w), flambda=ctx.arr(f), name="s") if k == "l" else Sed(wavelen=np.array(w), fnu=ctx.arr(f), name="s")

    a, b = mk(ka, fa), mk(kb, fb)
    want = ka == kb and (ka == "none" or all(bool(x == y) for x, y in zip(fa, fb)))
    ctx.check((a == b) == want, "equal exactly when the data are")
    ctx.check((b == a) == want, "either way round")
    ctx.check((a != b) == (not want), "different exactly when not equal")
    c = mk("l", fa)
    d = mk("l", fa)
    d.flambda = None
    ctx.check(not (c == d) and not (d == c), "a spectrum differs from one without fluxes")


@harness(P, [B + "read_throughput", B + "read_throughput_list", B + "write_throughput", S + "read_sed_flambda", S + "read_sed_fnu", S + "write_sed"], "files of 3 points in any of three orders, with comments, compressed or not, written and read back", quick=[{}], budget=60)
def files(ctx):
    import gzip

    order = ctx.choice("order", [[0, 1, 2], [2, 0, 1], [1, 2, 0]])
    gz = ctx.bool("gz")
    w, v = [500.0, 501.0, 502.0], [0.5, 0.25, 0.125]
    d = tempfile.mkdtemp()
    try:
        def put(name, rows, head="# a comment\n"):
            p = os.path.join(d, name)
            with (gzip.open(p + ".gz", "wt") if gz else open(p, "w")) as fh:
                fh.write(head + "".join("%s %s\n" % r for r in rows))
            return p

        p = put("t.dat", [(w[i], v[i]) for i in order], "# c\n$ d\n! e\n")
        b = Bandpass()
        b.read_throughput(p)
        ctx.check(list(b.wavelen) == w and list(b.sb) == v, "throughput file, in order of wavelength")
        q = put("t2.dat", list(zip(w, v)))
        b.read_throughput_list([p, q], root_dir=d, wavelen_min=500, wavelen_max=502, wavelen_step=1)
        ctx.check(list(b.wavelen) == w and np.allclose(np.array(b.sb, float), np.array(v) ** 2), "product of the components")
        c = Bandpass()
        if not gz:
            c.read_throughput([p, q])
            ctx.check(len(c.wavelen) == 8501, "a list of files is multiplied on the default grid")
            b.write_throughput(os.path.join(d, "o.dat"), print_header="x", write_phi=True)
            c.read_throughput(os.path.join(d, "o.dat"))
            ctx.check(list(c.wavelen) == w and np.allclose(np.array(c.sb, float), np.array(v) ** 2), "throughput written and read back")
        s = Sed()
        s.read_sed_flambda(q, cache_sed=False)
        ctx.check(list(s.wavelen) == w and list(s.flambda) == v, "spectrum file in flambda")
        t = Sed()
        t.read_sed_fnu(q)
        ctx.check(list(t.wavelen) == w and list(t.fnu) == v, "spectrum file in fnu")
        for fnu in (False, True):
            o = os.path.join(d, "s.dat")
            s.write_sed(o, print_header="x", print_fnu=fnu)
            rows = np.loadtxt(o)
            ctx.check(list(rows[:, 0]) == w and np.allclose(rows[:, 1], v), "spectrum written")
            if fnu:
                ctx.check(np.allclose(rows[:, 2], np.array(s.get_sed_fnu()[1], float)), "spectrum written with fnu")
        u = Sed()
        u.read_sed_flambda(q)
        u.flambda[0] = 9.0
        u.read_sed_flambda(q)
        ctx.check(list(u.flambda) == v, "reading again gives the file's spectrum")
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)
