"""Metric bundles and groups: values, masks, caching, grouping, stackers, reductions and summaries."""

import os
import shutil
import tempfile

import numpy as np

import rubin_sim.maf.maps as maps
import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.slicers as slicers
import rubin_sim.maf.stackers as stackers
from rubin_sim.maf.db import ResultsDb
from rubin_sim.maf.metric_bundles import MetricBundle, MetricBundleGroup, make_bundles_dict_from_list
from harness.lib import *  # noqa: F401,F403

P = "C14"
MB = "rubin_sim/maf/metric_bundles/metric_bundle.py:MetricBundle."
MG = "rubin_sim/maf/metric_bundles/metric_bundle_group.py:"
SL = "rubin_sim/maf/slicers/"
assumptions(P, "the bundles are given their visits directly (no database), and nothing is written to disk or plotted; small stand-in metrics, slicers, "
               "stackers and maps, derived from the real base classes, exercise the machinery beside the real ones")


class ScaleStacker(stackers.BaseStacker):
    cols_added = ["scaledcol"]

    def __init__(self, k=2.0):
        self.k = k
        self.cols_req = ["v"]
        self.units = ["x"]
        self.cols_added_dtypes = None

    def _run(self, sim_data, cols_present=False):
        if cols_present:
            return sim_data
        sim_data["scaledcol"] = sim_data["v"] * self.k
        return sim_data


class OffStacker(stackers.BaseStacker):
    cols_added = ["offcol"]

    def __init__(self, k=2.0):
        self.k = k
        self.cols_req = ["v"]
        self.units = ["x"]
        self.cols_added_dtypes = None

    def _run(self, sim_data, cols_present=False):
        sim_data["offcol"] = sim_data["v"] + self.k
        return sim_data


class OneMap(maps.BaseMap):
    def __init__(self, key="one", val=1.0):
        self.keynames = [key]
        self.val = val

    def run(self, slice_points):
        slice_points[self.keynames[0]] = np.array([self.val] * len(slice_points["sid"]))
        return slice_points


class GivenSlicer(slicers.BaseSlicer):
    """Slices given as lists of visit numbers."""

    def __init__(self, lists=((0,),), cache_size=0, mask=None):
        super().__init__()
        self.lists = lists
        self.cache_size = cache_size
        self.nslice = self.shape = len(lists)
        self.slice_points["sid"] = np.arange(len(lists))
        self.columns_needed = ["v"]
        self.plot_funcs = []
        self.ncalls = 0

    def setup_slicer(self, sim_data, maps=None):
        self._run_maps(maps)

    def _slice_sim_data(self, i):
        pt = {"sid": i}
        for k in self.slice_points:
            if k != "sid":
                pt[k] = self.slice_points[k][i]
        return {"idxs": list(self.lists[i]), "slice_point": pt}

    def __eq__(self, o):
        return isinstance(o, GivenSlicer) and o.lists == self.lists and o.cache_size == self.cache_size


class MapMetric(metrics.BaseMetric):
    """Sum of the column plus the value of a map."""

    def __init__(self, key, **kw):
        self.key = key
        super().__init__(col="v", **kw)

    def run(self, data_slice, slice_point=None):
        return np.sum(data_slice["v"]) + slice_point[self.key]


class PairMetric(metrics.BaseMetric):
    """Two values, reduced to either."""

    def __init__(self, col="v", least=-np.inf, **kw):
        self.least = least
        super().__init__(col=col, metric_dtype="object", **kw)

    def run(self, data_slice, slice_point=None):
        if bool(data_slice[self.colname][0] < self.least):
            return self.badval
        return {"first": data_slice[self.colname][0], "n": len(data_slice)}

    def reduce_first(self, val):
        return val["first"]

    def reduce_count(self, val):
        return self.badval if val["n"] == 3 else val["n"]


def group(bundles):
    d = tempfile.mkdtemp()
    try:
        return MetricBundleGroup(bundles, None, out_dir=d, save_early=False)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bundle(metric, slicer, root, **kw):
    b = MetricBundle(metric, slicer, kw.pop("constraint", ""), file_root=root, **kw)
    return b


@harness(P, [MG + "MetricBundleGroup.run_current", MG + "MetricBundleGroup._run_compatible", MG + "MetricBundleGroup._find_compatible_lists",
             MB + "_setup_metric_values", MB + "compute_summary_stats", SL + "one_d_slicer.py:OneDSlicer._slice_sim_data"],
         "1 to 3 visits of any values in any order over three bins, four metrics run together, with summaries", quick=[{"n": n} for n in (1, 2, 3)],
         thorough=[{"n": n} for n in (1, 2, 3, 4)], budget=300)
def values(ctx, n):
    x = ctx.reals("x", n, 0, 4)
    v = ctx.reals("v", n, -4, 4)
    edges = np.array([0.0, 1.0, 2.0, 3.5])
    bad = 2.0

    def sl():
        return slicers.OneDSlicer(slice_col_name="x", bins=edges)

    bs = {
        "sum": bundle(metrics.SumMetric("v"), sl(), "a", summary_metrics=[metrics.SumMetric(), metrics.CountMetric(), metrics.MaxMetric()]),
        "count": bundle(metrics.CountMetric("v"), sl(), "b", summary_metrics=[metrics.IdentityMetric(), metrics.CountMetric()]),
        "max": bundle(metrics.MaxMetric("v", badval=bad), sl(), "c", summary_metrics=metrics.MeanMetric()),
        "uni": bundle(metrics.MinMetric("v"), slicers.UniSlicer(), "d"),
        "other": bundle(metrics.MinMetric("v"), slicers.UniSlicer(), "e", constraint="night < 3"),
    }
    g = group(bs)
    g.run_current(None, sim_data=ctx.rec({"x": x, "v": v}))
    ctx.check(bs["other"].metric_values is None and not g.has_run["other"], "bundles with another constraint are not run")
    ctx.check(all(g.has_run[k] for k in ("sum", "count", "max", "uni")), "every bundle with the constraint is run")
    inb = [[i for i in range(n) if bool(sand(x[i] >= edges[j], x[i] <= edges[j + 1] if j == 2 else x[i] < edges[j + 1]))] for j in range(3)]
    want = {"sum": lambda w: osum(w), "count": lambda w: float(len(w)), "max": lambda w: omax(w)}
    for k, f in want.items():
        mv = bs[k].metric_values
        ctx.check(len(mv.data) == 3, "one value for each bin")
        ok = []
        for j in range(3):
            w = [v[i] for i in inb[j]]
            hide = not w
            if w and k == "max":
                hide = bool(f(w) == bad)
            if w and k == "sum":
                hide = bool(f(w) == bs[k].metric.badval)
            ctx.check(hidden(mv, j) == hide, "masked exactly where there are no visits or the value is bad: %s" % k)
            if not hide:
                ctx.close(mv.data[j], f(w), "value of the metric over the visits in the bin: %s" % k)
                ok.append(f(w))
        s = bs[k].summary_values
        if k == "sum":
            for nm, q in (("Sum", osum), ("Count", lambda z: float(len(z))), ("Max", omax)):
                ctx.close(s[nm], q(ok) if ok else bs[k].slicer.badval, "summary over the unmasked values: " + nm)
        if k == "count":
            ctx.close(s["Count"], float(len(ok)) if ok else bs[k].slicer.badval, "number of unmasked values")
            if ok:
                ctx.closes(np.atleast_1d(s["Identity"]), ok, "identity summary gives the unmasked values")
        if k == "max":
            ctx.close(s["Mean"], omean(ok) if ok else bs[k].slicer.badval, "summary given as a single metric")
    ctx.close(bs["uni"].metric_values.data[0], omin(v), "value over all visits")
    ctx.close(np.atleast_1d(bs["uni"].summary_values["Identity"])[0], omin(v), "single values are kept as a summary")


@harness(P, [MG + "MetricBundleGroup._run_compatible"], "4 or 5 slices, each one of five sets of five visits, cache of 0 to 3 entries, any values", quick=[{"cs": c} for c in (0, 1, 2, 3)],
         budget=300)
def cache(ctx, cs):
    v = ctx.reals("v", 5, -4, 4)
    # each slice is one of sets that share their size, first, last, largest and smallest visit
    sets = [(), (0, 1, 2, 4), (0, 3, 2, 4), (0, 2, 1, 4), (0, 2, 4)]
    lists = tuple(ctx.choice("s%d" % i, sets[:4] if i else sets) for i in range(5 if cs > 1 else 4))
    b = {"sum": bundle(metrics.SumMetric("v"), GivenSlicer(lists, cs), "a"), "max": bundle(metrics.MaxMetric("v"), GivenSlicer(lists, cs), "b")}
    group(b).run_current("", sim_data=ctx.rec({"v": v}))
    for i, s in enumerate(lists):
        for k, f in (("sum", osum), ("max", omax)):
            mv = b[k].metric_values
            ctx.check(hidden(mv, i) == (not s), "masked exactly where there are no visits")
            if s:
                ctx.close(mv.data[i], f([v[j] for j in s]), "value over the visits of the slice, from the cache or not")


@harness(P, [MG + "MetricBundleGroup._check_compatible", MG + "MetricBundleGroup._find_compatible_lists", MG + "MetricBundleGroup._run_compatible",
             "rubin_sim/maf/stackers/base_stacker.py:BaseStacker.__eq__", "rubin_sim/maf/stackers/base_stacker.py:BaseStacker.run"],
         "3 bundles, each with no stacker or stackers with any of two parameters, one or two slicers, maps with or without", quick=[{"part": p} for p in range(4)], budget=300)
def grouping(ctx, part):
    n = 2
    v = ctx.reals("v", n, -4, 4)
    ks = [ctx.real("k0", 0.5, 2), ctx.real("k1", 0.5, 2)]
    what = [ctx.cint("w%d" % i, 0, 3) for i in range(2)] + [part]
    sls = [ctx.cint("s%d" % i, 0, 1) for i in range(2)] + [0]
    lists = [((0,), (0, 1)), ((1,), ())]
    bs = {}
    for i in range(3):
        st, me = [], metrics.SumMetric("v")
        if what[i] == 1:
            st, me = [ScaleStacker(ks[0])], metrics.SumMetric("scaledcol")
        elif what[i] == 2:
            st, me = [ScaleStacker(ks[1])], metrics.SumMetric("scaledcol")
        elif what[i] == 3:
            st, me = [OffStacker(ks[1]), None, ScaleStacker(ks[1])], metrics.SumMetric("offcol")
        bs["b%d" % i] = bundle(me, GivenSlicer(lists[sls[i]]), "b%d" % i, stacker_list=st)
    g = group(bs)
    g.run_current("", sim_data=ctx.rec({"v": v}))
    flat = [k for q in g.compatible_lists for k in q]
    ctx.check(sorted(flat) == ["b0", "b1", "b2"], "each bundle is run in one group")
    for q in g.compatible_lists:
        for a in q:
            for b in q:
                i, j = int(a[1]), int(b[1])
                ctx.check(sls[i] == sls[j], "bundles run together have the same slicer")
    for i in range(3):
        for j, s in enumerate(lists[sls[i]]):
            f = {0: lambda z: z, 1: lambda z: z * ks[0], 2: lambda z: z * ks[1], 3: lambda z: z + ks[1]}[what[i]]
            mv = bs["b%d" % i].metric_values
            ctx.check(hidden(mv, j) == (not s), "masked exactly where there are no visits")
            if s:
                ctx.close(mv.data[j], osum([f(v[q]) for q in s]), "values are those of the bundle's own stackers, whatever it is run with")


@harness(P, [MG + "MetricBundleGroup._check_compatible", MB + "__init__", "rubin_sim/maf/maps/base_map.py:BaseMap.__eq__"],
         "3 bundles with any of three sets of maps given singly, as a list or declared by the metric, any map values and visits", quick=[{}], budget=200)
def mapped(ctx):
    v = ctx.reals("v", 2, -4, 4)
    a, b = ctx.real("a", -4, 4), ctx.real("b", -4, 4)
    made, bs = [], {}
    for i in range(3):
        w = ctx.cint("w%d" % i, 0, 4)
        made.append(w)
        if w == 4:
            bs["b%d" % i] = bundle(MapMetric("one", metric_name="m%d" % i, maps=[OneMap("two", b), OneMap("one", a)]), GivenSlicer(((0, 1), (1,))), "b%d" % i)
            continue
        if w == 3:
            # the map is the one the metric declares
            bs["b%d" % i] = bundle(MapMetric("one", metric_name="m%d" % i, maps=[OneMap("one", a)]), GivenSlicer(((0, 1), (1,))), "b%d" % i)
            continue
        m = [OneMap("one", a), [OneMap("two", b)], [OneMap("two", b), OneMap("one", a)]][w]
        bs["b%d" % i] = bundle(MapMetric("two" if w == 1 else "one", metric_name="m%d" % i), GivenSlicer(((0, 1), (1,))), "b%d" % i, maps_list=m)
    g = group(bs)
    g.run_current("", sim_data=ctx.rec({"v": v}))
    for q in g.compatible_lists:
        ctx.check(len(set({3: 0, 4: 2}.get(made[int(k[1])], made[int(k[1])]) for k in q)) == 1, "bundles run together have the same maps")
    ctx.check(sorted(k for q in g.compatible_lists for k in q) == ["b0", "b1", "b2"], "each bundle is run in one group")
    for i in range(3):
        for j, s in enumerate([(0, 1), (1,)]):
            ctx.close(bs["b%d" % i].metric_values.data[j], osum([v[q] for q in s]) + (b if made[i] == 1 else a), "the metric sees the values of its map")


@harness(P, [MG + "MetricBundleGroup.reduce_current", MG + "MetricBundleGroup.summary_current", MB + "reduce_metric", MB + "compute_summary_stats"],
         "2 bundles of a reduced metric over three slices of three visits of any values, any bad-value limit", quick=[{}], budget=200)
def reduced(ctx):
    v = ctx.reals("v", 3, -4, 4)
    lim = ctx.real("lim", -4, 4)
    lists = [((0,), (1, 2), ()), ((2, 1, 0), (1,))]
    same = ctx.bool("same")
    bs = {"b%d" % i: bundle(PairMetric("v", lim, metric_name="Pair" if same else "Pair%d" % i), GivenSlicer(lists[i]), "r%d" % i,
                            summary_metrics=[metrics.SumMetric()], info_label="i%d" % i) for i in range(2)}
    orig = dict(bs)
    g = group(bs)
    g.run_current("", sim_data=ctx.rec({"v": v}))
    red = [b for k, b in g.bundle_dict.items() if k not in ("b0", "b1")]
    ctx.check(len(red) == 4, "each reduce function of each bundle gives a bundle", "%d" % len(red))
    for i in range(2):
        top = orig["b%d" % i]
        for r in ("first", "count"):
            m = [b for b in red if b.info_label == "i%d" % i and b.metric.name.endswith("_" + r)]
            ctx.check(len(m) == 1, "one bundle for each reduce function")
            mv, ok = m[0].metric_values, []
            for j, s in enumerate(lists[i]):
                hide = not s or bool(v[s[0]] < lim)
                if not hide and r == "count":
                    hide = len(s) == 3
                if not hide and r == "first":
                    hide = False
                ctx.check(hidden(mv, j) == hide, "masked where the metric or its reduced value is: " + r)
                if not hide:
                    w = v[s[0]] if r == "first" else float(len(s))
                    ctx.close(mv.data[j], w, "reduced value: " + r)
                    ok.append(w)
            ctx.close(m[0].summary_values["Sum"], osum(ok) if ok else m[0].slicer.badval, "summary of the reduced values: " + r)
        ctx.check(not top.summary_metrics, "summaries are of the reduced values")
        for j, s in enumerate(lists[i]):
            ctx.check(hidden(top.metric_values, j) == (not s or bool(v[s[0]] < lim)), "masked exactly where there are no visits or the metric gives its bad value")


@harness(P, [MB + "compute_summary_stats"], "3 map values of any size, any of them masked, fill value of the summary any", quick=[{}], budget=60)
def masked_summary(ctx):
    v = ctx.reals("v", 3, -4, 4)
    hide = [ctx.bool("h%d" % i) for i in range(3)]
    fill = ctx.real("fill", -4, 4)
    b = bundle(metrics.SumMetric("v"), GivenSlicer(((0,), (1,), (2,))), "a")
    b._setup_metric_values()
    for i in range(3):
        b.metric_values.data[i] = v[i]
        b.metric_values.mask[i] = hide[i]
    m1, m2, m3 = metrics.SumMetric("metricdata", mask_val=fill, metric_name="filled"), metrics.SumMetric("metricdata", metric_name="plain"), metrics.CountMetric("metricdata", metric_name="after")
    b.set_summary_metrics([m1, m2, m3])
    b.compute_summary_stats()
    ok = [v[i] for i in range(3) if not hide[i]]
    ctx.close(b.summary_values["filled"], osum([fill if hide[i] else v[i] for i in range(3)]), "masked values replaced with the fill value asked for")
    ctx.close(b.summary_values["plain"], osum(ok) if ok else b.slicer.badval, "masked values left out")
    ctx.close(b.summary_values["after"], float(len(ok)) if ok else b.slicer.badval, "masked values left out of later summaries too")
    ctx.check([bool(x) for x in b.metric_values.mask] == hide, "the mask is unchanged")
    ctx.closes([b.metric_values.data[i] for i in range(3)], v, "the values are unchanged")


class Recorder(ResultsDb):
    """Stands in for the results database and keeps what it is told."""

    def __init__(self):
        self.ids, self.summ, self.disp, self.made = {}, {}, {}, []

    def update_metric(self, name, slicer, run, constraint, info, filename):
        k = (name, slicer, run, constraint, info)
        self.made.append((k, filename))
        return self.ids.setdefault(k, len(self.ids))

    def update_display(self, mid, d, overwrite=True):
        self.disp[mid] = dict(d)

    def update_summary_stat(self, mid, summary_name=None, summary_value=None, **kw):
        self.summ[(mid, summary_name)] = summary_value


@harness(P, [MG + "MetricBundleGroup.run_all", MG + "MetricBundleGroup.set_current", MG + "MetricBundleGroup.get_data", MG + "MetricBundleGroup.reduce_current",
             MG + "MetricBundleGroup.summary_current", MB + "write_db", MB + "compute_summary_stats", MB + "reduce_metric"],
         "4 bundles under two constraints over a stand-in database of three visits of any values (or no matching visits), results kept by a stand-in results database",
         quick=[{}], budget=200)
def recorded(ctx):
    v = ctx.reals("v", 3, -4, 4)
    first = ctx.cint("first", 0, 3)
    asked = []

    def get(db, constraint, cols, **kw):
        asked.append((constraint, set(cols)))
        k = 3 if constraint in (None, "") else first
        if k == 0:
            raise UserWarning("No data")
        return ctx.rec({"v": v[:k]})

    sl = lambda: slicers.UniSlicer()  # noqa: E731
    bs = {
        "a": bundle(metrics.SumMetric("v", metric_name="A"), sl(), "a", summary_metrics=[metrics.IdentityMetric(), metrics.MaxMetric()], info_label="all", run_name="run",
                    display_dict={"group": "G", "subgroup": "S"}),
        "b": bundle(metrics.SumMetric("v", metric_name="A"), sl(), "b", constraint="night < 3", summary_metrics=[metrics.IdentityMetric()], info_label="some", run_name="run"),
        "c": bundle(PairMetric("v", metric_name="P"), sl(), "c", constraint="night < 3", summary_metrics=[metrics.IdentityMetric()], info_label="some", run_name="run",
                    display_dict={"group": "H", "subgroup": "T"}),
        "d": bundle(metrics.CountMetric("v", metric_name="N"), sl(), "d", summary_metrics=[metrics.IdentityMetric()], info_label="all", run_name="run"),
    }
    import rubin_sim.maf.utils as mu
    r = Recorder()
    d = tempfile.mkdtemp()
    old = mu.get_sim_data
    mu.get_sim_data = get
    try:
        g = MetricBundleGroup(bs, "db", out_dir=d, save_early=False, results_db=r)
        g.run_all()
    finally:
        mu.get_sim_data = old
        shutil.rmtree(d, ignore_errors=True)
    ctx.check(sorted(a[0] for a in asked) == ["", "night < 3"], "the visits of each constraint are asked for once")
    ctx.check(all("v" in a[1] for a in asked), "the columns needed are asked for")
    ident = lambda n, i, c: r.ids.get((n, "UniSlicer", "run", c, i))  # noqa: E731
    want = {("A", "all", ""): osum(v), ("N", "all", ""): 3.0}
    if first:
        want[("A", "some", "night < 3")] = osum(v[:first])
        want[("P_first", "some", "night < 3")] = v[0]
        if first != 3:
            want[("P_count", "some", "night < 3")] = float(first)
    for k, w in want.items():
        m = ident(*[k[0], k[1], k[2]])
        ctx.check(m is not None, "the metric is recorded with its name, slicer, run, constraint and label: %s %s" % k[:2])
        ctx.check((m, "Identity") in r.summ, "its summary is recorded")
        ctx.close(np.atleast_1d(r.summ[(m, "Identity")])[0], w, "the summary recorded is the value of the metric: %s %s" % k[:2])
        ctx.check(m in r.disp, "how to show it is recorded")
    ctx.close(r.summ[(ident("A", "all", ""), "Max")], osum(v), "every summary is recorded")
    ctx.check(r.disp[ident("A", "all", "")]["group"] == "G" and r.disp[ident("A", "all", "")]["subgroup"] == "S", "the group it is shown in is the one given")
    if first:
        for nm in ("P_first", "P_count"):
            q = r.disp[ident(nm, "some", "night < 3")]
            ctx.check(q["group"] == "H" and q["subgroup"] == "T", "reduced values are shown in the group of their metric")
    else:
        ctx.check(bs["b"].metric_values is None, "without visits the metrics of the constraint are not run")
        ctx.check(len(r.summ) == 3, "nothing is recorded for them")
