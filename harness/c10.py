"""Time-gap and cadence statistics."""

import numpy as np

import rubin_sim.maf.metrics as metrics
from harness.lib import *  # noqa: F401,F403

P = "C10"
CA = "rubin_sim/maf/metrics/cadence_metrics.py:"
TG = "rubin_sim/maf/metrics/tgaps.py:"
T = "observationStartMJD"
assumptions(P, "times relative to a zero point, so that exact arithmetic and doubles agree at the boundaries; values exactly at a limit that the code computes "
            "by floating-point division are left out")


def gaps(s):
    return [s[i + 1] - s[i] for i in range(len(s) - 1)]


def allgaps(s):
    return [s[j] - s[i] for i in range(len(s)) for j in range(i + 1, len(s))]


def hist(v, e):
    out = []
    for i in range(len(e) - 1):
        last = i == len(e) - 2
        out.append(ocount(v, lambda x: sand(x >= e[i], (x <= e[i + 1]) if last else (x < e[i + 1]))))
    return out


@harness(P, [TG + "TgapsMetric.run", TG + "TgapsPercentMetric.run", TG + "MaxGapMetric.run"],
         "1 to 4 visits at any times in any order, successive or all gaps, any three increasing bin edges or window",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=200)
def tgaps(ctx, n):
    t = ctx.reals("t", n, 0, 8)
    e = ctx.reals("e", 3, 0, 8)
    ctx.assume(sand(e[0] < e[1], e[1] < e[2]))
    which = ctx.choice("which", ["hist", "pct", "max"])
    data = ctx.rec({T: t})
    if which == "max":
        m = metrics.MaxGapMetric()
        got = m.run(data)
        if n == 1:
            ctx.check(got == m.badval, "no gap with a single visit")
        else:
            ctx.close(got, omax(gaps(osorted(t))), "longest gap between successive visits")
        return
    al = ctx.bool("all")
    m = metrics.TgapsMetric(bins=ctx.arr(e), all_gaps=al) if which == "hist" else metrics.TgapsPercentMetric(min_time=e[0], max_time=e[1], all_gaps=al)
    got = m.run(data)
    if n == 1:
        ctx.check(got == m.badval, "no gaps with a single visit")
        return
    s = osorted(t)
    g = allgaps(s) if al else gaps(s)
    if which == "hist":
        ctx.closes(list(got), hist(g, e), "histogram of the gaps")
    else:
        ctx.close(got * len(g), 100 * ocount(g, lambda x: sand(x >= e[0], x <= e[1])), "percentage of the gaps in the window")


@harness(P, [TG + "NightgapsMetric.run", TG + "NVisitsPerNightMetric.run", TG + "CoaddM5PerNightMetric.run"],
         "1 to 4 visits on any nights of eight in any order, successive or all gaps", quick=[{"n": n} for n in (1, 2, 3)],
         thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=200)
def nights(ctx, n):
    which = ctx.choice("which", ["gaps", "nv", "m5"] if n < 3 else ["gaps", "nv"])
    if which == "m5":
        nt = [ctx.cint("n%d" % i, 0, 2) for i in range(n)]
        m = ctx.reals("m", n, 20, 24)
        e = [20.0, 22.0, 23.0, 25.0]
        got = metrics.CoaddM5PerNightMetric(bins=np.array(e)).run(ctx.rec({"night": np.array(nt), "fiveSigmaDepth": m}, {"night": "i"}))
        c = []
        for k in sorted(set(nt)):
            sel = [m[i] for i in range(n) if nt[i] == k]
            x = 1.25 * log10(osum([ten(0.8 * y) for y in sel])) if len(sel) > 1 else sel[0]
            if len(sel) > 1:
                for y in e:
                    ctx.assume(sor(x > y + 1e-6, x < y - 1e-6))
            c.append(x)
        ctx.closes(list(got), hist(c, e), "histogram of the depth of each night")
        return
    nt = ctx.ints("n", n, 0, 7)
    data = ctx.rec({"night": nt}, {"night": "i"})
    u = ounique(nt)
    if which == "nv":
        got = metrics.NVisitsPerNightMetric(bins=np.array([0, 1, 2, 3, 4])).run(data)
        c = [ocount(nt, lambda x: x == k) for k in u]
        ctx.closes(list(got), hist(c, [0, 1, 2, 3, 4]), "number of nights with each number of visits")
        return
    al = ctx.bool("all")
    m = metrics.NightgapsMetric(all_gaps=al)
    got = m.run(data)
    if n == 1:
        ctx.check(got == m.badval, "no gaps with a single visit")
        return
    g = allgaps(u) if al else gaps(u)
    ctx.closes(list(got), hist(g, list(range(10))), "histogram of the nights between visits")


@harness(P, [TG + "NightTimespanMetric.run", CA + "IntraNightGapsMetric.run", CA + "InterNightGapsMetric.run", CA + "VisitGapMetric.run"],
         "1 to 4 visits at any times of any of three nights in any order, median, maximum or mean", quick=[{"n": n} for n in (1, 2, 3)],
         thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=200)
def within(ctx, n):
    nt = [ctx.cint("n%d" % i, 0, 2) for i in range(n)]
    t = [a + b for a, b in zip(nt, ctx.reals("t", n, 0, 0.5))]
    data = ctx.rec({T: t, "night": np.array(nt)}, {"night": "i"})
    which = ctx.choice("which", ["span", "intra", "inter", "visit"])
    if which == "span":
        q = ctx.choice("q", [75, 50])
        m = metrics.NightTimespanMetric(percentile=q)
        got = m.run(data)
        sp = []
        for k in sorted(set(nt)):
            x = [t[i] for i in range(n) if nt[i] == k]
            if len(x) > 1:
                sp.append((omax(x) - omin(x)) * 1440.0)
        if sp:
            ctx.close(got, opercentile(sp, q), "percentile of the time spanned in each night with several visits")
        else:
            ctx.check(got == m.badval, "no night with several visits")
        return
    red = ctx.choice("red", ["median", "max"])
    M = metrics.cadence_metrics.np
    m = {"intra": metrics.IntraNightGapsMetric, "inter": metrics.InterNightGapsMetric, "visit": metrics.VisitGapMetric}[which](reduce_func=getattr(M, red))
    if which == "visit" and n == 1:
        ctx.skip()
    got = m.run(data)
    o = osort_idx(t)
    pairs = list(zip(o[:-1], o[1:]))
    if which == "intra":
        g = [(t[b] - t[a]) * 24 for a, b in pairs if nt[a] == nt[b]]
    elif which == "inter":
        g = [t[b] - t[a] for a, b in pairs if nt[a] != nt[b]]
    else:
        g = [(t[b] - t[a]) * 24 for a, b in pairs]
    if not g:
        ctx.check(got == m.badval, "no such gap")
        return
    ctx.close(got, omedian(g) if red == "median" else omax(g), "%s-night gap" % which)


@harness(P, [CA + "NRevisitsMetric.run", CA + "RapidRevisitMetric.run", CA + "RapidRevisitUniformityMetric.run"],
         "1 to 4 visits at any times in any order, any limits", quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=300)
def revisits(ctx, n):
    t = ctx.reals("t", n, 0, 8)
    which = ctx.choice("which", ["n", "rapid", "uni"])
    data = ctx.rec({T: t})
    if which == "n":
        dt = ctx.choice("dt", [1440.0, 720.0])
        norm = ctx.bool("norm")
        got = metrics.NRevisitsMetric(d_t=dt, normed=norm).run(data)
        c = ocount(gaps(osorted(t)), lambda x: x <= dt / 60.0 / 24.0)
        ctx.close(got * (n if norm else 1), c, "gaps no longer than the limit")
        return
    lo, mid, hi = ctx.real("lo", 0, 2), ctx.real("mid", 0, 4), ctx.real("hi", 4, 8)
    if which == "rapid":
        n1, n2 = ctx.choice("n1", [1, 2]), ctx.choice("n2", [1, 2])
        got = metrics.RapidRevisitMetric(d_tmin=lo, d_tpairs=mid, d_tmax=hi, min_n1=n1, min_n2=n2).run(data)
        g = gaps(osorted(t))
        a, b = ocount(g, lambda x: sand(x >= lo, x <= mid)), ocount(g, lambda x: sand(x >= lo, x <= hi))
        ctx.check(ite(sand(a >= n1, b >= n2), got == 1, got == 0), "enough revisits of both lengths")
        return
    if n < 2:
        ctx.skip()
    lo, hi = ctx.choice("lo2", [0.5, 1.0]), 4.5
    m = metrics.RapidRevisitUniformityMetric(d_tmin=lo, d_tmax=hi, min_nvisits=ctx.choice("mn", [1, 3]))
    got = m.run(data)
    g = [x for x in gaps(osorted(t)) if bool(sand(x >= lo, x <= hi))]
    if len(g) < max(2, m.min_nvisits):
        ctx.check(got == m.badval, "too few revisits in the range")
        return
    s = osorted(g)
    w = [(x - s[0]) / (hi - lo) for x in s]
    k = len(w)
    ctx.close(got, omax([abs((i + 1) / k - w[i] - w[1]) for i in range(k)]), "departure of the revisit times from uniform")


@harness(P, [CA + "TemplateExistsMetric.run"], "1 to 4 visits at any distinct times in any order, any seeing",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=120)
def template_exists(ctx, n):
    t, s = ctx.reals("t", n, 0, 8), ctx.reals("s", n, 0.25, 2)
    for i in range(n):
        for j in range(i):
            ctx.assume(t[i] != t[j])
    got = metrics.TemplateExistsMetric().run(ctx.rec({T: t, "seeingFwhmGeom": s}))
    c = 0
    for i in range(n):
        ex = False
        for j in range(n):
            if j != i:
                ex = sor(ex, sand(t[j] < t[i], s[j] <= s[i]))
        c = c + ite(ex, 1, 0)
    ctx.close(got * n, c, "fraction of visits with an earlier one at least as sharp")


@harness(P, [CA + "UniformityMetric.run", CA + "GeneralUniformityMetric.run"], "1 to 4 visits with any values in any order, limits given or from the data",
         quick=[{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=120)
def uniformity(ctx, n):
    t = ctx.reals("t", n, 0, 8)
    data = ctx.rec({T: t})
    if ctx.bool("general"):
        mode = ctx.choice("lim", ["data", "min", "both"])
        kw = {}
        lo, hi = -1.0, 9.0
        if mode != "data":
            kw["min_value"] = lo
        if mode == "both":
            kw["max_value"] = hi
        got = metrics.GeneralUniformityMetric(**kw).run(data)
        if n == 1:
            ctx.close(got, 1, "one visit is not uniform")
            return
        s = osorted(t)
        a = s[0] if mode == "data" else lo
        b = hi if mode == "both" else s[-1]
        if bool(a == b):
            ctx.close(got, 1, "equal values are not uniform")
            return
        ctx.close(got * (b - a), omax([abs(i / (n - 1) * (b - a) - (s[i] - a)) for i in range(n)]), "departure from uniform over the range")
        return
    years = 8 / 365.25
    got = metrics.UniformityMetric(survey_length=years).run(data)
    if n == 1:
        ctx.close(got, 1, "one visit is not uniform")
        return
    s = [(x - omin(t)) / (years * 365.25) for x in osorted(t)]
    ctx.close(got, omax([abs((i + 1) / n - s[i] - s[1]) for i in range(n)]), "departure of the dates from uniform")


@harness(P, ["rubin_sim/maf/metrics/pair_metric.py:PairMetric.run", TG + "GapsMetric.run"],
         "2 or 3 visits at any times within 32 minutes (pairs) or 5 hours (gaps), away from the edges of the time bins, in any order",
         quick=[{"n": n} for n in (2, 3)], budget=200)
def pairs(ctx, n):
    if ctx.bool("gaps"):
        t = ctx.reals("t", n, 0, 0.25, grid=512)
        bs = 1 / 24.0
        got = metrics.GapsMetric(time_scale=2.0).run(ctx.rec({T: t}))
        lo = omin(t) - bs
        top = omax(t) + bs
        lim = []
        for x in list(t) + [top]:
            q = (x - lo) / bs
            k = np.floor(q)
            ctx.assume(sor(sand(q - k > 0.01, q - k < 0.99), x == omin(t)))
            lim.append(k)
        occ = []
        nb = 8
        # bins run while their lower edge is below max + size; the last one includes its end
        for k in range(nb):
            o = False
            for x in lim[:-1]:
                o = sor(o, x == k)
            occ.append(o)
        c = 0
        for k in range(nb - 2):
            c = c + ite(sand(occ[k], occ[k + 2]), 1, 0)
        ctx.close(got, c, "number of times the time scale is sampled")
        return
    t = ctx.reals("t", n, 0, 32, grid=8)
    mn, mx, bs = 8.0, 16.0, 4.0
    m = metrics.PairMetric(match_min=mn, match_max=mx, bin_size=bs)
    got = m.run(ctx.rec({T: [x / 1440.0 for x in t]}))
    lo = omin(t)
    k = []
    for x in t:
        q = (x - lo) / bs
        f = np.floor(q)
        ctx.assume(sor(sand(q - f > 0.01, q - f < 0.99), x == lo))
        k.append(f)
    occ = []
    for b in range(9):
        o = False
        for x in k:
            o = sor(o, x == b)
        occ.append(o)
    c = 0
    for a in range(9):
        for d in (2, 3, 4):
            if a + d < 9:
                c = c + ite(sand(occ[a], occ[a + d]), 1, 0)
    ctx.close(got, ite(c == 0, m.badval, c), "pairs of occupied time bins between the limits apart")
