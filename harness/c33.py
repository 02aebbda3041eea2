"""Result pages: what is listed, in which order, with which plots and statistics."""

import contextlib
import os
import shutil
import tempfile
import types
import warnings

import numpy as np
import rubin_sim.maf.metric_bundles.mo_metric_bundle as mmb
import rubin_sim.maf.metrics.hourglass_metric as hm
import rubin_sim.maf.show_maf as sm
import rubin_sim.maf.web.maf_run_results as mr
import rubin_sim.maf.web.maf_tracking as mt
import rubin_sim.satellite_constellations.sat_utils as su
from harness.c30 import swapped
from harness.lib import *  # noqa: F401,F403

P = "C33"
W = "rubin_sim/maf/web/"
M = "rubin_sim/maf/"
assumptions(P, "the results database is replaced by a table of rows; names, groups, labels and file names are choices of the solver from short lists; display orders and statistics are symbolic reals", "rendering of the templates, figures and the web server itself are outside")

MCOLS = ["metric_id", "metric_name", "base_metric_name", "slicer_name", "sql_constraint", "metric_info_label", "metric_datafile", "display_group", "display_subgroup", "display_order", "display_caption"]


def metric_rows(ctx, ids, group=None, sub=None, base=None, slicer=None, label=None, order=None, name=None, data=None, caption=None):
    n = len(ids)
    d = {
        "metric_id": ids,
        "metric_name": name or base or ["m%d" % i for i in ids],
        "base_metric_name": base or ["m%d" % i for i in ids],
        "slicer_name": slicer or ["S"] * n,
        "sql_constraint": [""] * n,
        "metric_info_label": label or ["l"] * n,
        "metric_datafile": data or ["f%d.npz" % i for i in ids],
        "display_group": group or ["G"] * n,
        "display_subgroup": sub or ["s"] * n,
        "display_order": order if order is not None else [0.0] * n,
        "display_caption": caption or ["NULL"] * n,
    }
    return ctx.rec(d, {c: ("I" if c == "metric_id" else "f" if c == "display_order" else "U") for c in MCOLS})


def stat_rows(ctx, rows):
    """rows: (metric_id, stat name, value)"""
    z = [""] * len(rows)
    return ctx.rec({"metric_id": [r[0] for r in rows], "summary_name": z, "metric_name": z, "slicer_name": z, "metric_info_label": z, "summary_metric": [r[1] for r in rows], "summary_value": [r[2] for r in rows]}, {"metric_id": "I", "summary_name": "U", "metric_name": "U", "slicer_name": "U", "metric_info_label": "U", "summary_metric": "U"})


def plot_rows(ctx, rows):
    """rows: (metric_id, plot type, file)"""
    z = [""] * len(rows)
    return ctx.rec({"metric_id": [r[0] for r in rows], "metric_name": z, "metric_info_label": z, "plot_type": [r[1] for r in rows], "plot_file": [r[2] for r in rows], "thumb_file": ["t" + r[2] for r in rows]}, {"metric_id": "I", "metric_name": "U", "metric_info_label": "U", "plot_type": "U", "plot_file": "U", "thumb_file": "U"})


def page(ctx, metrics, stats=None, plots=None, out_dir="out"):
    stats = stats if stats is not None else stat_rows(ctx, [(-1, "Mean", 0.0)])
    plots = plots if plots is not None else plot_rows(ctx, [(-1, "SkyMap", "x")])
    db = types.SimpleNamespace(get_metric_display_info=lambda: metrics, get_summary_stats=lambda **kw: stats, get_plot_files=lambda: plots)
    with swapped(mr.db, ResultsDb=lambda **kw: db):
        return mr.MafRunResults(out_dir)


def ids_of(rows):
    return [int(i) for i in rows["metric_id"]]


def in_order(keys):
    """Whether rows with these keys (text and numbers mixed) may follow each other."""
    ok = True
    for a, b in zip(keys[:-1], keys[1:]):
        c = True
        for x, y in reversed(list(zip(a, b))):
            if isinstance(x, str):
                c = c if x == y else x < y
            else:
                c = sor(x < y, sand(x == y, c))
        ok = sand(ok, c)
    return ok


@harness(P, [W + "maf_run_results.py:MafRunResults.sort_metrics", W + "maf_run_results.py:MafRunResults.metrics_in_subgroup", W + "maf_run_results.py:MafRunResults.metrics_in_group", W + "maf_run_results.py:MafRunResults.metrics_to_subgroups"], "3 results in any of 2 groups, 2 subgroups, 2 metrics, 2 slicers and 2 labels, any display order", quick=[{"by": "groups"}, {"by": "order"}], budget=200)
def listing(ctx, by):
    ids = [7, 3, 5]
    n = len(ids)
    two = lambda nm, a, b: [ctx.choice("%s%d" % (nm, i), [a, b]) for i in range(n)]
    group, sub = (two("g", "B x", "A"), two("s", "q_r", "p")) if by == "groups" else (["G"] * n, ["s"] * n)
    base, slicer = (["M"] * n, ["S"] * n) if by == "groups" else (two("m", "M2", "M1"), two("sl", "S2", "S1"))
    label = ["z", "a", "k"] if by == "groups" else two("l", "b", "a")
    order = ctx.reals("o", n, -9, 9)
    r = page(ctx, metric_rows(ctx, ids, group, sub, base, slicer, label, order))
    key = {ids[i]: (group[i], sub[i], base[i], slicer[i], order[i], label[i]) for i in range(n)}
    ctx.check([str(g) for g in r.groups] == sorted(set(group)), "every group is shown, in order")
    seen = []
    for g in r.groups:
        subs = [str(s) for s in r.groups[g]]
        ctx.check(subs == sorted({s for a, s in zip(group, sub) if a == g}), "every subgroup of the group is shown, in order")
        ctx.check(sorted(ids_of(r.metrics_in_group(g))) == sorted(i for i in ids if key[i][0] == g), "the results of a group")
        for s in subs:
            rows = r.metrics_in_subgroup(g, s)
            ctx.check(sorted(ids_of(rows)) == sorted(i for i in ids if key[i][:2] == (g, s)), "the results of a subgroup")
            ctx.check(in_order([key[i] for i in ids_of(rows)]), "results of a subgroup are in display order")
            for w in rows:
                ctx.eq(w["display_order"], key[int(w["metric_id"])][4], "rows stay whole")
            seen += ids_of(rows)
    ctx.check(sorted(seen) == sorted(ids), "every result is listed once")
    ctx.check(in_order([key[i] for i in ids_of(r.metrics)]), "all results are in display order")
    part = r.metrics[np.isin(r.metrics["metric_id"], [3, 7])]
    gs = r.metrics_to_subgroups(part)
    ctx.check({str(g): [str(s) for s in v] for g, v in gs.items()} == {g: sorted({key[i][1] for i in (3, 7) if key[i][0] == g}) for g in {key[3][0], key[7][0]}} and [str(g) for g in gs] == sorted({key[3][0], key[7][0]}), "groups of a selection")
    for g in gs:
        for s in gs[g]:
            ctx.check(sorted(ids_of(r.metrics_in_subgroup(g, s, metrics=part))) == sorted(i for i in (3, 7) if key[i][:2] == (g, s)), "a subgroup of a selection")


@harness(P, [W + "maf_run_results.py:MafRunResults.convert_select_to_metrics", W + "maf_run_results.py:MafRunResults.metric_ids_in_subgroup", W + "maf_run_results.py:MafRunResults.metric_ids_to_metrics"], "3 results in 3 subgroups, any subgroups and results ticked on the selection page", quick=[{}], budget=150)
def selection(ctx):
    ids = [7, 3, 5]
    place = [("A b", "q_r"), ("A b", "1+1"), ("B", "q_r")]
    of = [ctx.choice("p%d" % i, place) for i in range(3)]
    order = ctx.reals("o", 3, -9, 9)
    r = page(ctx, metric_rows(ctx, ids, [p[0] for p in of], [p[1] for p in of], order=order))
    ticked = [p for k, p in enumerate(place) if ctx.bool("t%d" % k)]
    one = [i for i in ids if ctx.bool("i%d" % i)]
    rows = r.convert_select_to_metrics([("%s__%s" % p).encode() for p in ticked], [str(i).encode() for i in one])
    want = sorted(i for k, i in enumerate(ids) if of[k] in ticked or i in one)
    ctx.check(sorted(ids_of(rows)) == want, "the results ticked, each once")
    key = {i: (of[k][0], of[k][1], "m%d" % i) for k, i in enumerate(ids)}
    ctx.check([key[i] for i in ids_of(rows)] == sorted(key[i] for i in want), "in display order")


@harness(P, [W + "maf_run_results.py:MafRunResults.metrics_with_slicer", W + "maf_run_results.py:MafRunResults.metrics_with_metric_name", W + "maf_run_results.py:MafRunResults.metrics_with_info_label", W + "maf_run_results.py:MafRunResults.unique_metric_name_and_info_label"], "3 results with any of 2 slicers, base names, names and labels", quick=[{}], budget=150)
def matching(ctx):
    ids = [7, 3, 5]
    pick = lambda nm, o: [ctx.choice("%s%d" % (nm, i), o) for i in range(3)]
    slicer, base, label = pick("s", ["S1", "S2"]), pick("b", ["M1", "M2"]), pick("l", ["k", "kk"])
    long = pick("n", ["", " r"])
    name = [b + x for b, x in zip(base, long)]
    r = page(ctx, metric_rows(ctx, ids, base=base, slicer=slicer, label=label, name=name))
    at = [ids.index(i) for i in ids_of(r.metrics)]
    for f, col, values in [(r.metrics_with_slicer, slicer, ["S1", "S2", "S"]), (r.metrics_with_info_label, label, ["k", "kk", "z"]), (r.metrics_with_metric_name, base, ["M1", "M2", "M"])]:
        for v in values:
            ctx.check(ids_of(f(v)) == [ids[k] for k in at if col[k] == v], "exactly the matching results, in order")
            ctx.check(ids_of(f(v, r.metrics[1:])) == [ids[k] for k in at[1:] if col[k] == v], "exactly the matching results of the subset")
    for v in ("M1", "M1 r"):
        ctx.check(ids_of(r.metrics_with_metric_name(v, baseonly=False)) == [ids[k] for k in at if name[k] == v], "by full name")
    ctx.check([str(s) for s in r.unique_slicer_names()] == sorted(set(slicer)), "slicer names")
    ctx.check([str(s) for s in r.unique_metric_info_label()] == sorted(set(label)), "labels")
    ctx.check([str(s) for s in r.unique_metric_names()] == sorted(set(base)) and [str(s) for s in r.unique_metric_names(baseonly=False)] == sorted(set(name)), "metric names")
    got = [str(s) for s in r.unique_metric_name_and_info_label()]
    ctx.check(got == list(dict.fromkeys(name[k] + " " + label[k] for k in at)), "name and label combinations in the order of the results")


ORDER = ["Id", "Identity", "Median", "Mean", "Rms", "RobustRms", "N(-3Sigma)", "N(+3Sigma)", "Count", "25th%ile", "75th%ile", "Min", "Max", "TableFraction 0 == P", "TableFraction 0.1", "TableFraction 0.5", "TableFraction 1 == P", "TableFraction 1 < P"]


@harness(P, [W + "maf_run_results.py:MafRunResults.stat_dict", W + "maf_run_results.py:MafRunResults.order_stat_names", W + "maf_run_results.py:MafRunResults.all_stat_names", W + "maf_run_results.py:MafRunResults.metrics_with_stats", W + "maf_run_results.py:MafRunResults.metrics_with_summary_stat", W + "maf_run_results.py:MafRunResults.stats_for_metric"], "4 statistics of any 2 of 3 results, of any of 3 kinds, any values", quick=[{"k": 0}, {"k": 1}], thorough=[{"k": 2}], budget=200)
def statistics(ctx, k):
    ids = [7, 3, 5]
    kinds = [["Mean", "A thing", "Median"], ["TableFraction 1 == P", "TableFraction 0.1", "TableFraction 0 == P"], ["Max", "Zz", "Identity"]][k]
    rows = []
    for i in range(4):
        rows.append((ctx.choice("id%d" % i, [7, 3]), kinds[i] if i < 2 else ctx.choice("k%d" % i, kinds), ctx.real("v%d" % i, -9, 9)))
    if len({r[:2] for r in rows}) < 4:
        ctx.skip()  # one value per result and statistic
    r = page(ctx, metric_rows(ctx, ids), stats=stat_rows(ctx, rows))
    rank = lambda names: [x for x in ORDER if x in names] + sorted(x for x in names if x not in ORDER)
    for m in r.metrics:
        i = int(m["metric_id"])
        mine = {x[1]: x[2] for x in rows if x[0] == i}
        got = r.stat_dict(r.stats_for_metric(m))
        ctx.check([str(x) for x in got] == rank(mine), "each statistic of the result, in the usual order")
        for x in got:
            ctx.eq(got[x], mine[str(x)], "the value of the statistic")
        for x in kinds:
            one = r.stats_for_metric(m, stat_name=x)
            ctx.check(len(one) == (x in mine), "the statistic asked for")
            if len(one):
                ctx.eq(one["summary_value"][0], mine[x], "its value")
    ctx.check([str(x) for x in r.all_stat_names(r.metrics)] == rank({x[1] for x in rows}), "all statistics, in the usual order")
    part = r.metrics_with_metric_name("m3")
    ctx.check([str(x) for x in r.all_stat_names(part)] == rank({x[1] for x in rows if x[0] == 3}), "all statistics of a subset")
    ctx.check(ids_of(r.metrics_with_stats()) == sorted({x[0] for x in rows}), "results which have a statistic")
    ctx.check([str(x) for x in r.order_stat_names(r.stats)] == rank({x[1] for x in rows}), "each name once")
    ctx.check(ids_of(r.metrics_with_stats(part)) == sorted({x[0] for x in rows if x[0] == 3}), "results of a subset which have a statistic")
    for x in kinds:
        ctx.check(ids_of(r.metrics_with_summary_stat(x, part)) == [3] * ((3, x) in [y[:2] for y in rows]), "results of a subset which have the statistic")
        ctx.check(ids_of(r.metrics_with_summary_stat(x)) == sorted({y[0] for y in rows if y[1] == x}), "results which have the statistic")


@harness(P, [W + "maf_run_results.py:MafRunResults.order_plots", W + "maf_run_results.py:MafRunResults.plot_dict"], "3 sky maps of any of 3 results in any band, several bands or none, any display order", quick=[{}], budget=250)
def sky_grid(ctx):
    ids = [7, 3, 5]
    order = ctx.reals("o", 3, -9, 9)
    for a in range(3):
        for b in range(a):
            ctx.assume(snot(order[a] == order[b]))
    names = ["x_u_SKY.pdf", "x_g_SKY.pdf", "x_y_SKY.pdf", "x_joint_SKY.pdf"]
    rows = []
    for i in range(3):
        f = ctx.choice("f%d" % i, names)
        rows.append((ctx.choice("id%d" % i, [7, 3]) if i < 2 else 5, "SkyMap", "%d%s" % (i, f)))
    r = page(ctx, metric_rows(ctx, ids, order=order), plots=plot_rows(ctx, rows))
    got = r.order_plots(r.plots)
    slots = []
    for d in got:
        f = d["SkyMap"]["plot_file"] if "SkyMap" in d else None
        t = d["SkyMap"]["thumb_file"]
        slots.append([] if f == "" else list(f))
        ctx.check(([] if t == "" else list(t)) == ["out/t" + x[4:] for x in slots[-1]], "thumbnails go with their plots")
    path = lambda x: "out/" + x[2]
    by_band = [[path(x) for x in rows if "_%s_" % f in x[2]] for f in "ugrizy"]
    if max(len(x) for x in by_band) <= 1:
        want = by_band + [[path(x)] for x in rows if not any("_%s_" % f in x[2] for f in "ugrizy")]
        want += [[]] * (-len(want) % 3)
        ctx.check(slots == want, "one plot per band in its place, the others after them, in rows of three")
    else:
        here = {x[0] for x in rows}
        n = len(here)
        ctx.check(len(slots) == n + (-n % 3) and slots[n:] == [[]] * (-n % 3), "a place for each result, in rows of three")
        which = []
        for s in slots[:n]:
            m = [i for i in here if s == [path(x) for x in rows if x[0] == i]]
            ctx.check(len(m) == 1, "the plots of one result share a place")
            which += m
        ctx.check(sorted(which) == sorted(here), "each result once")
        for a, b in zip(which[:-1], which[1:]):
            ctx.check(order[ids.index(a)] < order[ids.index(b)], "in display order")
    ctx.check(r.order_plots(r.plots[:0]) == [], "no plots, no grid")


@harness(P, [W + "maf_run_results.py:MafRunResults.plot_dict", W + "maf_run_results.py:MafRunResults.get_sky_maps", W + "maf_run_results.py:MafRunResults.metrics_with_plot_type", W + "maf_run_results.py:MafRunResults.plots_for_metric"], "4 plots of any of 4 kinds and 2 results", quick=[{}], budget=200)
def plots(ctx):
    ids = [7, 3, 5]
    kinds = ["Histogram", "SkyMap", "Zeta", "Alpha"]
    rows = [(ctx.choice("id%d" % i, [7, 3]), ctx.choice("k%d" % i, kinds), "f%d.pdf" % i) for i in range(4)]
    r = page(ctx, metric_rows(ctx, ids), plots=plot_rows(ctx, rows))
    for m in r.metrics:
        i = int(m["metric_id"])
        mine = [x for x in rows if x[0] == i]
        p = r.plots_for_metric(m)
        ctx.check([str(x) for x in p["plot_file"]] == [x[2] for x in mine], "the plots of the result")
        d = r.plot_dict(p)
        ctx.check([str(k) for k in d] == [k for k in ("SkyMap", "Histogram", "Alpha", "Zeta") if any(x[1] == k for x in mine)], "each kind of plot, sky maps first")
        for k in d:
            ctx.check(list(d[k]["plot_file"]) == ["out/" + x[2] for x in mine if x[1] == k] and list(d[k]["thumb_file"]) == ["out/t" + x[2] for x in mine if x[1] == k], "the files of each kind")
    for k in ("SkyMap", "Zeta"):
        ctx.check(ids_of(r.metrics_with_plot_type(k)) == sorted({x[0] for x in rows if x[1] == k}), "results with the kind of plot")
        ctx.check([str(x) for x in r.get_sky_maps(plot_type=k)["plot_file"]] == [x[2] for x in rows if x[1] == k], "plots of the kind")
        part = r.metrics_with_metric_name("m3")
        ctx.check(ids_of(r.metrics_with_plot_type([k], part)) == [3] * any(x[:2] == (3, k) for x in rows), "results of a subset with the kind of plot")
        ctx.check([str(x) for x in r.get_sky_maps(part, plot_type=k)["plot_file"]] == [x[2] for x in rows if x[1] == k and x[0] == 3], "plots of the kind of a subset")


class FakeRun:
    def __init__(self, maf_dir, name):
        self.maf_dir, self.name = maf_dir, name


@harness(P, [W + "maf_tracking.py:MafTracking.get_run", W + "maf_tracking.py:MafTracking.sort_runs", W + "maf_tracking.py:MafTracking._check_db", W + "maf_tracking.py:MafTracking.run_info"], "3 runs in any order, one of them unnamed, asked for in any order, the database rewritten or not in between", quick=[{}], budget=150)
def tracking(ctx):
    perm = ctx.choice("order", [(1, 2, 3), (3, 1, 2), (2, 3, 1), (3, 2, 1)])
    unnamed = ctx.choice("unnamed", [1, 2, 0])
    ask = [ctx.choice("a%d" % i, [1, 2, 3]) for i in range(3)]
    how = ctx.choice("how", ["int", "list"])
    rewritten = bool(ctx.bool("rewritten"))
    version = [0]

    def table(db, where, cols, table_name=None):
        nm = {i: "NULL" if i == unnamed else "run%d" % i for i in perm}
        d = {c: ["%s%d" % (c, i) for i in perm] for c in cols}
        d.update({"maf_run_id": list(perm), "run_name": [nm[i] for i in perm], "maf_dir": ["/v%d/d%d" % (version[0], i) for i in perm]})
        return ctx.rec(d, {c: "I" if c == "maf_run_id" else "U" for c in cols})

    tmp = tempfile.mkdtemp(prefix="c33_")
    try:
        path = os.path.join(tmp, "trackingDb_sqlite.db")
        open(path, "w").close()
        os.utime(path, (1000, 1000))
        with swapped(mt, get_sim_data=table, MafRunResults=FakeRun):
            t = mt.MafTracking(path)
            ctx.check([int(i) for i in t.runs["maf_run_id"]] == [1, 2, 3], "runs are listed by number")
            done = {}
            for k, i in enumerate(ask):
                if k == 2 and rewritten:
                    version[0] = 1
                    os.utime(path, (2000, 2000))
                    done = {}
                p = t.get_run(i if how == "int" else [str(i).encode()])
                ctx.check(p.maf_dir == "/v%d/d%d" % (version[0], i) and p.name == (None if i == unnamed else "run%d" % i), "the page of the run asked for, of the database as it is")
                if i in done:
                    ctx.check(p is done[i], "a run already read is not read again")
                done[i] = p
            row = t.runs[ask[0] - 1]
            info = t.run_info(row)
            ctx.check(info["Run Name"] == row["run_name"] and info["Maf Comment"] == "maf_comment%d" % ask[0] and info["ResultsDb"] == os.path.join(os.path.relpath("/v%d/d%d" % (version[0], ask[0]), tmp), "resultsDb_sqlite.db"), "what is said of the run")
    finally:
        os.unlink(path)
        os.rmdir(tmp)


@harness(P, [M + "show_maf.py:DataHandler.get", W + "maf_run_results.py:MafRunResults.get_npz", W + "maf_run_results.py:MafRunResults.get_json", W + "maf_run_results.py:MafRunResults.metric_info"], "the data links of any of 3 results, with data and without", quick=[{}], budget=100)
def data_links(ctx):
    ids = [7, 3, 5]
    has = [bool(ctx.bool("has%d" % i)) for i in range(3)]
    which = ctx.choice("which", [0, 1, 2])
    kind = ctx.choice("kind", [b"npz", b"json", None, b"what"])
    empty = bool(ctx.bool("empty"))
    r = page(ctx, metric_rows(ctx, ids, data=["d%d.npz" % i if h else "NULL" for i, h in zip(ids, has)]))
    read = []

    class Bundle:
        def read(self, f):
            read.append(f)

        def output_json(self):
            import io

            return None if empty else io.StringIO("json of %s" % read[-1])

    args = {"runId": [b"4"], "metricId": [str(ids[which]).encode()]}
    if kind is not None:
        args["datatype"] = [kind]
    wrote, sent, asked = [], [], []
    ctx.check(r.get_npz(r.metrics) is None and r.get_json(r.metrics) is None, "data are given for one result at a time")
    h = types.SimpleNamespace(request=types.SimpleNamespace(arguments=args), write=wrote.append, redirect=sent.append)
    old = getattr(sm, "runlist", None)
    sm.runlist = types.SimpleNamespace(get_run=lambda i: (asked.append(i), r)[1])
    try:
        with swapped(mr.metricBundles, create_empty_metric_bundle=Bundle):
            sm.DataHandler.get(h)
    finally:
        sm.runlist = old
    ctx.check(asked == [4], "the run asked for")
    f = "out/d%d.npz" % ids[which]
    if kind in (b"npz", None):
        ctx.check((sent == [f] and wrote == []) if has[which] else (sent == [] and len(wrote) == 1), "the data file of the result, where there is one")
    elif kind == b"json":
        ctx.check(sent == [] and read == ([f] if has[which] else []), "the data of the result")
        ctx.check(len(wrote) == 1 and (wrote[0] == "json of %s" % f) == (has[which] and not empty), "its JSON, where there is some")
    else:
        ctx.check(sent == [] and read == [] and len(wrote) == 1, "other kinds are not served")
    m = r.metrics[ids_of(r.metrics).index(ids[which])]
    info = r.metric_info(m, with_data_link=True)
    ctx.check(list(info) == list(r.metric_info(with_data_link=True)), "the row of a result has the columns of the table")
    ctx.check([str(v) for v in list(info.values())[:3]] == ["m%d" % ids[which], "S", "l"] and list(info["Data"])[1] == ("out/" + ("d%d.npz" % ids[which] if has[which] else "NULL")), "what is said of the result")


@harness(P, [M + "metrics/hourglass_metric.py:HourglassMetric.run"], "2 visits at any times of up to two nights, or 3 of an hour, in any of 2 bands, midnight at any time", quick=[{"n": 2, "hi": 1.9}, {"n": 3, "hi": 0.04}], thorough=[{"n": 3, "hi": 1.9}], budget=500)
def hourglass(ctx, n, hi):
    t = ctx.reals("t", n, 0, hi)
    b = [ctx.choice("b%d" % i, ["g", "r"]) for i in range(n)]
    c = ctx.real("c", 0.01, 0.04)
    for i in range(n):
        for j in range(i):
            ctx.assume(oabs(t[i] - t[j]) > 1e-6)
            ctx.assume(oabs(oabs(t[i] - t[j]) - 120.0 / 86400.0) > 1e-6)
    mids = [k + c for k in (-1, 0, 1, 2, 3)]
    box = lambda v: types.SimpleNamespace(mjd=v)
    obs = types.SimpleNamespace(midnight=lambda times, which: box(ctx.arr(mids[1:] if which == "next" else mids[:-1])))
    for f in ("twilight_morning_nautical", "twilight_evening_nautical", "twilight_morning_astronomical", "twilight_evening_astronomical"):
        setattr(obs, f, lambda m, which, f=f: box(ctx.arr([x + (0.2 if which == "next" else -0.2) + (0.1 if "astro" in f else 0) for x in mids])))
    m = object.__new__(hm.HourglassMetric)
    with swapped(hm.HourglassMetric, __init__=lambda self: None):
        m = hm.HourglassMetric()
    m.mjd_col, m.filter_col, m.night_col, m.observer, m.location, m.delta_t = "t", "b", "n", obs, None, 60.0 / 86400
    moon = types.SimpleNamespace(transform_to=lambda aa: types.SimpleNamespace(separation=lambda o: types.SimpleNamespace(deg=np.array([18.0] * 5))))
    sky = lambda *a, **k: moon
    with swapped(hm, Time=lambda v, format=None: v, AltAz=sky, get_body=sky, get_sun=sky):
        out = m.run(ctx.rec({"t": t, "b": b, "n": [1] * n}, {"b": "U", "n": "I"}))
    idx = osort_idx(t)
    ts, bs = [t[i] for i in idx], [b[i] for i in idx]
    segs = [[0]]
    for i in range(1, n):
        # decided along each path
        if bs[i] == bs[i - 1] and bool(ts[i] - ts[i - 1] <= 120.0 / 86400.0):
            segs[-1].append(i)
        else:
            segs.append([i])
    pf = out["perfilter"]
    ctx.check(len(pf) == 2 * len(segs), "a stretch of visits ends where the band changes or more than two minutes pass")
    for k, s in enumerate(segs):
        for e, i in ((0, s[0]), (1, s[-1])):
            ctx.eq(pf["mjd"][2 * k + e], ts[i], "the stretch runs from its first to its last visit")
            ctx.check(str(pf["filter"][2 * k + e]) == bs[i], "in its band")
            near = omin([oabs(ts[i] - x) for x in mids])
            ctx.close(oabs(ts[i] - pf["midnight"][2 * k + e]), near, "against the closest midnight")
            ctx.check(sor(*[pf["midnight"][2 * k + e] == x for x in mids]), "which is a midnight")
    pn = out["pernight"]
    ctx.check(len(pn) == 5, "every midnight once")
    for k in range(5):
        ctx.close(pn["midnight"][k], mids[k], "midnights")
        ctx.close(pn["twi12_rise"][k], mids[k] + 0.2, "nautical dawn follows")
        ctx.close(pn["twi18_set"][k], mids[k] - 0.1, "astronomical dusk precedes")
        ctx.close(pn["moonPer"][k], 10.0, "the phase of the moon")


@harness(P, ["rubin_sim/satellite_constellations/sat_utils.py:create_constellation"], "2 shells of 1 to 3 planes with 1 to 3 satellites each, any random offsets", quick=[{}], budget=100)
def constellation(ctx):
    np_, sp = [ctx.choice("planes%d" % i, [1, 2, 3]) for i in range(2)], [ctx.choice("sats%d" % i, [1, 2, 3]) for i in range(2)]
    drawn = []

    class Rng:
        def uniform(self, lo, hi, n):
            k = len(drawn)
            drawn.append([ctx.real("u%d_%d" % (k, i), lo, hi) for i in range(int(n))])
            return ctx.arr(drawn[-1])

    made = []
    unit = types.SimpleNamespace(deg=1.0)
    with swapped(su, u=unit, satellite_mean_motion=lambda a: "mm%d" % a, tle_from_orbital_parameters=lambda *a: made.append(a) or "tle%d" % len(made)), swapped(su.np.random, default_rng=lambda seed: Rng()):
        out = su.create_constellation([550, 340], [53, 97], np_, sp, epoch=12.5, name="sat")
    want = []
    k = 0
    for (alt, inc, n, s) in zip([550, 340], [53, 97], np_, sp):
        if s == 1:
            for i in range(n):
                want.append((alt, inc, drawn[k][i], drawn[k + 1][i]))
            k += 2
        else:
            for p in range(n):
                for i in range(s):
                    want.append((alt, inc, 360.0 * i / s + drawn[k][0], 360.0 * p / n))
            k += 1
    ctx.check(out == ["tle%d" % (i + 1) for i in range(len(want))] and len(made) == len(want), "planes times satellites in each shell")
    ctx.check(len({a[1] for a in made}) == len(made) and len({a[0] for a in made}) == len(made), "each satellite has its own number and name")
    for a, (alt, inc, ma, raan) in zip(made, want):
        ctx.check(a[2] == 12.5 and a[3] == inc and a[6] == "mm%d" % alt, "the epoch, inclination and motion of its shell")
        ctx.close(a[5], ma, "satellites evenly spaced along a plane")
        ctx.close(a[4], raan, "planes evenly spaced around the pole")


@harness(P, [M + "metric_bundles/mo_metric_bundle.py:make_completeness_bundle"], "2 objects with 2 or 3 cloned H values, any values, masked or not, H asked for inside the range or beyond it", quick=[{"n": 2}, {"n": 3}], budget=120)
def completeness(ctx, n):
    from rubin_sim.maf.metrics import NObsMetric
    from rubin_sim.maf.metrics import mo_summary_metrics as ms
    from rubin_sim.maf.slicers import MoObjSlicer

    hv = [20.0, 21.0, 22.0][:n]
    cum = bool(ctx.bool("cum")) if n == 2 else False
    mark = ctx.choice("mark", [None, 20.0, 20.5, 23.0])
    v = [ctx.reals("v%d_" % i, n, 0, 3) for i in range(2)]
    hide = [ctx.choice("hide%d" % i, list(range(n + 1))) for i in range(2)]
    s = MoObjSlicer(h_range=np.array(hv), verbose=False)
    s.nSso, s.shape, s.slice_points = 2, [2, n], {"H": np.array(hv)}
    b = mmb.MoMetricBundle(NObsMetric(), s, run_name="r", info_label="lab", plot_dict={"units": "@H", "color": "k"}, display_dict={"group": "g"})
    vals = np.ma.MaskedArray(data=ctx.arr(v[0] + v[1]).reshape(2, n), mask=[[hide[i] == k for k in range(n)] for i in range(2)], fill_value=0)
    b.metric_values = vals
    kw = {} if cum else {"metric_name": "DifferentialCompleteness"}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = mmb.make_completeness_bundle(b, ms.MoCompletenessMetric(threshold=1.0, **kw), h_mark=mark)
    count = [sum(1 for i in range(2) if hide[i] != k and bool(v[i][k] >= 1.0)) for k in range(n)]
    want = [c / 2.0 for c in count]
    if cum:
        # twice as much weight for each step by log10(2) / alpha in H
        a = 0.33
        w = [10.0 ** (a * h) for h in hv]
        run, tot, out = 0.0, 0.0, []
        for c, x in zip(want, w):
            run, tot = run + c * x, tot + x
            out.append(run / tot)
        want = out
    ctx.check(got.metric_values.shape == (1, n), "one value per H")
    for k in range(n):
        ctx.close(got.metric_values[0, k], want[k], "the completeness at each H")
    ctx.check(got.slicer is s and got.run_name == "r" and got.info_label == "lab" and got.display_dict["group"] == "g" and got.plot_dict["color"] == "k", "of the same objects, run and labels")
    label = "lab"
    if mark is not None:
        at = 0.0 if mark > hv[-1] else want[0] if mark == 20.0 else 0.5 * (want[0] + want[1])
        ctx.check(got.plot_dict["label"].startswith(label + (": @ H(<=%.1f) = " if cum else ": @ H(=%.1f) = ") % mark), "the label names the H asked for")
        ctx.check(abs(float(got.plot_dict["label"].split("= ")[-1][:-1]) - 100 * at) < 0.051, "and the completeness there")
    else:
        ctx.check(got.plot_dict["label"] == label, "the label")
    for i in range(2):
        for k in range(n):
            if hide[i] != k:
                ctx.eq(b.metric_values[i, k], v[i][k], "the values per object are unchanged")


@harness(P, [M + "db/tracking_db.py:TrackingDb.add_run", M + "db/tracking_db.py:TrackingDb.delRun", M + "db/tracking_db.py:add_run_to_database"], "any history of three or four operations on a tracking database: two directories added, added again or with a number, runs removed", quick=[{"k": 3}], thorough=[{"k": 4}], budget=250)
def runs_table(ctx, k):
    import io

    import rubin_sim.maf.db.tracking_db as td

    ops = ["a", "b", "a7", "b1", "del1", "del7"]
    plan = [ctx.choice("op%d" % i, ops) for i in range(k)]
    by_path = bool(ctx.bool("by_path"))
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="c33_"))
    have = {}
    try:
        for d in ("a", "b"):
            os.mkdir(os.path.join(tmp, d))
        path = os.path.join(tmp, "t.db")
        with contextlib.redirect_stdout(io.StringIO()):
            db = td.TrackingDb(database=path)
            try:
                for i, op in enumerate(plan):
                    name = "run%d" % i
                    if op.startswith("del"):
                        n = int(op[3:])
                        _, exc = ctx.call(db.delRun, n)
                        ctx.check((exc is None) == (n in have), "only a run that is there can be removed")
                        have.pop(n, None)
                        continue
                    d = os.path.join(tmp, op[0])
                    if by_path and len(op) == 1:
                        td.add_run_to_database(d, path, run_name=name, maf_comment="c%d" % i, skip_extras=True)
                        db.session.expire_all()
                        got = None
                    else:
                        want = int(op[1:]) if op[1:] else None
                        got, exc = ctx.call(db.add_run, run_name=name, maf_comment="c%d" % i, maf_dir=d, maf_run_id=want)
                        same = [n for n, v in have.items() if v[0] == op[0]]
                        if want in have and not same:
                            ctx.check(isinstance(exc, ValueError), "a number is given once")
                            db.session.rollback()
                            continue
                        ctx.check(exc is None, "a run can be added")
                        if want is not None and not same:
                            ctx.check(got == want, "the number asked for")
                    same = [n for n, v in have.items() if v[0] == op[0]]
                    if got is None:
                        rows = [r for r in db.session.query(td.RunRow).all() if r.maf_dir == op[0]]
                        ctx.check(len(rows) == 1, "the directory is added once")
                        got = rows[0].maf_run_id
                    if same:
                        ctx.check(got == same[0], "a directory added again keeps its number")
                    else:
                        ctx.check(got not in have, "a new number")
                    have[got] = (op[0], name, "c%d" % i)
                rows = db.session.query(td.RunRow).all()
                ctx.check(sorted((r.maf_run_id, r.maf_dir, r.run_name, r.maf_comment) for r in rows) == sorted((n,) + v for n, v in have.items()), "the runs added and not removed, each with what was last said of it")
            finally:
                db.close()
                db.session.get_bind().dispose()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
