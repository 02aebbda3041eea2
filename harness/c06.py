"""Filter changes and shutter-open statistics."""

import numpy as np

import rubin_sim.maf.metrics as metrics
from harness.lib import *  # noqa: F401,F403

P = "C06"
TM = "rubin_sim/maf/metrics/technical_metrics.py:"


def changes(ctx, n, distinct=True):
    t = ctx.reals("t", n, 0, 0.125)
    b = [ctx.choice("b%d" % i, ["g", "r", "i"][: 3 if n < 4 else 2]) for i in range(n)]
    if distinct:
        for i in range(n):
            for j in range(i):
                ctx.assume(sor(t[i] > t[j] + 1e-7, t[i] < t[j] - 1e-7))
    order = osort_idx(t)
    ch = [t[j] for i, j in zip(order[:-1], order[1:]) if b[i] != b[j]]
    data = ctx.rec({"observationStartMJD": t, "band": b}, {"band": "U"})
    return t, b, order, ch, data


@harness(P, [TM + m + ".run" for m in ("NChangesMetric", "MinTimeBetweenStatesMetric", "NStateChangesFasterThanMetric", "MaxStateChangesWithinMetric")],
         "1 to 4 visits at any distinct times in any order, 2 or 3 bands, any cutoff or time span (times within 0.01 s of the cutoff left out)",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=300)
def state_changes(ctx, n):
    t, b, order, ch, data = changes(ctx, n)
    which = ctx.choice("m", ["n", "min", "fast", "within"])
    if which == "n":
        ctx.check(metrics.NChangesMetric().run(data) == len(ch), "number of changes")
        return
    t0 = t[order[0]]
    gaps = [c - p for c, p in zip(ch, [t0] + ch[:-1])]
    if which == "min":
        m = metrics.MinTimeBetweenStatesMetric()
        got = m.run(data)
        if not ch:
            ctx.check(got == m.badval, "no change gives the bad value")
        else:
            ctx.close(got, omin(gaps) * 1440.0, "shortest time between changes, minutes")
        return
    cut = ctx.real("cut", 1, 120)
    if which == "fast":
        for g in gaps:
            ctx.assume(sor(g * 1440.0 > cut + 1e-4, g * 1440.0 < cut - 1e-4))
        got = metrics.NStateChangesFasterThanMetric(cutoff=cut, metric_name="m").run(data)
        ctx.check(got == ocount(gaps, lambda g: g * 1440.0 < cut), "changes faster than the cutoff")
    else:
        for i in range(len(ch)):
            for j in range(i):
                g = ch[i] - ch[j]
                ctx.assume(sor(g * 1440.0 > cut + 1e-4, g * 1440.0 < cut - 1e-4))
        got = metrics.MaxStateChangesWithinMetric(timespan=cut, metric_name="m").run(data)
        want = 0
        for i in range(len(ch)):
            want = symmax(want, ocount(ch[i:], lambda c: (c - ch[i]) * 1440.0 < cut))
        ctx.check(got == want, "largest number of changes within the time span")


@harness(P, [TM + "OpenShutterFractionMetric.run", TM + "BruteOSFMetric.run"],
         "1 to 4 visits with any times, exposure, visit and slew times, any gap limit and exposure correction",
         quick=[{"n": n} for n in (1, 2, 3, 4)], budget=200)
def open_shutter(ctx, n):
    e = ctx.reals("e", n, 1, 60)
    which = ctx.choice("m", ["osf", "brute"])
    if which == "osf":
        v, s = ctx.reals("v", n, 1, 60), ctx.reals("s", n, 0, 60)
        got = metrics.OpenShutterFractionMetric().run(ctx.rec({"visitExposureTime": e, "visitTime": v, "slewTime": s}))
        ctx.close(got * (osum(v) + osum(s)), osum(e), "open shutter time over visit plus slew time")
        return
    if n < 2 or n > 3:
        ctx.skip()
    t = ctx.reals("t", n, 0, 0.0625)
    gap = ctx.choice("gap", [10.0, 2.0])
    fudge = ctx.real("fudge", 0, 5)
    ts = osorted(t)
    good = []
    for a, b in zip(ts[:-1], ts[1:]):
        d = (b - a) * 1440.0
        ctx.assume(sor(d > gap + 1e-4, d < gap - 1e-4))
        ctx.assume(d > 0.01)
        if bool(d < gap):
            good.append(b - a)
    if not good:
        ctx.skip()
    got = metrics.BruteOSFMetric(maxgap=gap, fudge=fudge).run(ctx.rec({"visitExposureTime": e, "observationStartMJD": t}))
    ctx.close(got * osum(good) * 86400.0, osum([x + fudge for x in e]), "exposure time over the time in short gaps", tol=1e-5)


@harness(P, ["rubin_sim/maf/metrics/string_count_metric.py:StringCountMetric.run"],
         "1 to 4 visits, three strings (one empty), counts or percent", quick=[{"n": n} for n in (1, 2, 3, 4)])
def strings(ctx, n):
    s = [ctx.choice("s%d" % i, ["aa", "b", ""]) for i in range(n)]
    pc = ctx.bool("pc")
    m = metrics.StringCountMetric(col="note", percent=pc)
    got = m.run(ctx.rec({"note": s}, {"note": "U"}))
    ctx.check(set(got.dtype.names) == {x or "blank" for x in s}, "one entry for each string")
    for x in set(s):
        k = x or "blank"
        ctx.close(float(np.asarray(got[k])[0]), s.count(x) * (100.0 / n if pc else 1.0), "count of each string")
        ctx.close(float(m.reduce_funcs[k](got)), s.count(x) * (100.0 / n if pc else 1.0), "reduction picks the string's count")


@harness(P, ["rubin_sim/maf/metrics/string_count_metric.py:StringCountMetric.run"],
         "1 to 3 visits, notes with and without a trailing comma and number", quick=[{"n": n} for n in (1, 2, 3)])
def strings_clipped(ctx, n):
    kinds = {"aa, 1": "aa", "aa": "aa", "aa, 12": "aa", "aa, b": "aa, b", "b, a, 3": "b, a", "aa,1": "aa,1"}
    s = [ctx.choice("s%d" % i, list(kinds)) for i in range(n)]
    m = metrics.StringCountMetric(col="note", clip_end=True)
    d = ctx.rec({"note": s}, {"note": "U"})
    got = m.run(d)
    w = [kinds[x] for x in s]
    ctx.check(set(got.dtype.names) == set(w), "notes are counted without their trailing number")
    for x in set(w):
        ctx.close(float(np.asarray(got[x])[0]), w.count(x), "count of each clipped string")
        ctx.close(float(m.reduce_funcs[x](got)), w.count(x), "reduction picks the clipped string's count")
    ctx.check([str(x) for x in d["note"]] == s, "the visits themselves are left unchanged")
