"""Comparing runs: normalised summaries, selections of runs and metrics, gathered results."""

import contextlib
import sys
import warnings

import numpy as np
import pandas as pd

import rubin_sim.maf.run_comparison.archive as ar
import rubin_sim.maf.run_comparison.gather_summaries  # noqa: F401
import rubin_sim.maf.run_comparison.microlensing_compare as mc
import rubin_sim.maf.run_comparison.radar_plot as rp
import rubin_sim.maf.run_comparison.summary_plots as sp
from harness.lib import *  # noqa: F401,F403

gs = sys.modules["rubin_sim.maf.run_comparison.gather_summaries"]
P = "C26"
D = "rubin_sim/maf/run_comparison/"
assumptions(P, "tables are pandas dataframes whose entries are any numbers (pandas itself is trusted); files, databases and web sources are replaced by tables")


class Frame(pd.DataFrame):
    """A table whose entries may be symbolic (pandas' median needs floats)."""

    @property
    def _constructor(self):
        return Frame

    def median(self, axis=0, *a, **k):
        if not any(is_sym(x) for x in self.to_numpy().ravel()):
            return super().median(axis, *a, **k)
        d = self if axis in (0, "rows", "index") else self.T
        return pd.Series([omedian(list(d[c])) for c in d.columns], index=d.columns, dtype=object)


    def mean(self, axis=0, *a, **k):
        if not any(is_sym(x) for x in self.to_numpy().ravel()):
            return super().mean(axis, *a, **k)
        d = self if axis in (0, "rows", "index") else self.T
        return pd.Series([omean(list(d[c])) for c in d.columns], index=d.columns, dtype=object)


def frame(cols, index, name=None, cname=None):
    d = Frame({k: pd.Series(list(v), index=index, dtype=object if any(is_sym(x) for x in v) else float) for k, v in cols.items()}, index=index)
    if name:
        d.index.name = name
    if cname:
        d.columns.name = cname
    return d


class Tables(type):
    def __instancecheck__(cls, x):
        return isinstance(x, pd.DataFrame)

    def __call__(cls, *a, dtype=None, **k):
        return pd.DataFrame(*a, dtype=object if dtype in ("float", float) else dtype, **k)


@contextlib.contextmanager
def tables(on):
    """Tables of numbers may hold symbolic ones."""
    old = sp.pd
    if on:
        sp.pd = type("Pd", (), {"DataFrame": Tables("DataFrame", (), {}), "Series": pd.Series, "concat": staticmethod(pd.concat)})
    try:
        yield
    finally:
        sp.pd = old


RUNS = ["base", "alt", "other"]


@harness(P, [D + "summary_plots.py:normalize_metric_summaries"], "2 or 3 runs of 3 metrics of any values, any of them the baseline (or the median of two), each metric plain, inverted, a magnitude or both, in any order, with the table turned or not", quick=[{"n": 2}, {"n": 3}], thorough=[{"n": 2}, {"n": 3}], budget=200)
def normalise(ctx, n):
    runs, mets = RUNS[:n], ["m b", "m a", "m c"]
    v = {m: ctx.reals("v%d" % i, n, 0.5, 30) for i, m in enumerate(mets)}
    fl = {m: ctx.choice("f%d" % i, [(False, False), (True, False), (False, True), (True, True)]) for i, m in enumerate(mets[:2])}
    fl["m c"] = (False, False)
    how = ctx.choice("how", ["plain", "subset", "turned"])
    ref = ctx.choice("ref", ([0, 1, [0, 1]] if n == 2 else [2, [2, 0]]))
    d = frame(v, runs, "OpsimRun", "metric")
    sub = None
    if how != "plain":
        sub = ar.create_metric_subset("some", ["m a", "m b", "absent"], invert=[fl["m a"][0], fl["m b"][0], False], mag=[fl["m a"][1], fl["m b"][1], False])
    base = runs[ref] if isinstance(ref, int) else [runs[k] for k in ref]
    keep = d.copy()
    with tables(is_sym(v["m a"][0])):
        got = sp.normalize_metric_summaries(base, d.T if how == "turned" else d, metric_subsets=sub)
    use = mets if sub is None else mets[:2]
    ctx.check(list(got.columns) == use and list(got.index) == runs, "runs and metrics as given")
    for m in use:
        b = v[m][ref] if isinstance(ref, int) else omedian([v[m][k] for k in ref])
        inv, mag = fl[m] if sub is not None else (False, False)
        for i, r in enumerate(runs):
            x = v[m][i]
            want = 1 - (x - b) if inv and mag else 1 + (x - b) if mag else b / x if inv else x / b
            ctx.close(got.loc[r, m], want, "relative to the baseline")
            ctx.eq(d.loc[r, m], keep.loc[r, m], "the table given is left alone")


@harness(P, [D + "radar_plot.py:normalize_for_radar"], "2 or 3 runs of 2 metrics of any values, any run the reference, any set of inverted, reversed or magnitude metrics", quick=[{"n": 2}, {"n": 3}], budget=100)
def radar(ctx, n):
    runs, mets = RUNS[:n], ["b", "a"]
    v = {m: ctx.reals("v%d" % i, n, 0.5, 30) for i, m in enumerate(mets)}
    inv, rev, mag = (ctx.choice(k, [None if k != "mag" else [], ["a"], ["b", "a"]] + (["all"] if k == "mag" else [])) for k in ("inv", "rev", "mag"))
    ref = ctx.cint("ref", 0, n - 1)
    d = frame(v, runs)
    got = rp.normalize_for_radar(d, norm_run=runs[ref], invert_cols=inv, reverse_cols=rev, mag_cols=mag)
    for m in mets:
        w = [-x if m in (rev or []) else x for x in v[m]]
        w = [1.0 / x if m in (inv or []) else x for x in w]
        for i in range(n):
            want = 1 + (w[i] - w[ref]) if mag == "all" or m in mag else w[i] / w[ref]
            ctx.close(got[m].iloc[i], want, "relative to the reference run")
            ctx.eq(d[m].iloc[i], v[m][i], "the table given is left alone")


@harness(P, [D + "archive.py:get_metric_summaries", D + "archive.py:get_family_runs", D + "archive.py:create_metric_subset", D + "archive.py:get_metric_subsets"], "4 runs in families and alone, 3 metrics in subsets and alone (one unknown), any values, either order of runs and metrics", quick=[{}], budget=100)
def select(ctx):
    runs, mets = ["r2", "r0", "r1", "r3"], ["mb", "ma", "mc"]
    v = {m: ctx.reals("v" + m, 4, 0, 9) for m in mets}
    d = frame(v, runs, "OpsimRun")
    fams = pd.DataFrame({"run": ["r1", "r0", "r1"], "version": ["1"] * 3}, index=pd.Index(["x", "x", "y"], name="family"))
    subs = pd.concat([ar.create_metric_subset("s", ["mc", "ma"]), ar.create_metric_subset("t", ["ma", "mz"])])
    fam = ctx.choice("fam", [(), "x", "y", ("y",)])
    more = ctx.choice("runs", [(), ("r3",), ("r2", "r3")])
    sub = ctx.choice("sub", [(), "s", ("t",)])
    ms = ctx.choice("ms", [(), ("mb",), ("mz", "mc")])
    ro, mo = ctx.choice("ro", ["family", "summary"]), ctx.choice("mo", ["subset", "summary"])
    if (sub == "s" and "mc" in ms) or (sub == ("t",) and "mz" in ms):
        ctx.skip()  # the same metric asked for twice
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = ar.get_metric_summaries(run_families=fam, metric_subsets=sub, runs=more, metrics=ms, summary_source=d, runs_source=fams, metric_subset_source=subs, run_order=ro, metric_order=mo)
    wr = list(more) + {"x": ["r1", "r0"], "y": ["r1"]}.get(fam if isinstance(fam, str) else (fam or [""])[0], [])
    wm = list(ms) + {"s": ["mc", "ma"], "t": ["ma", "mz"]}.get(sub if isinstance(sub, str) else (sub or [""])[0], [])
    wr = wr or runs
    wm = [m for m in wm if m != "mz"] if wm else mets
    if ro == "summary":
        wr = [r for r in runs if r in wr]
    if mo == "summary":
        wm = [m for m in mets if m in wm]
    if not (list(ms) + ([sub] if sub else [])):
        wm = mets
    ctx.check(list(got.index) == wr and list(got.columns) == wm, "the runs and metrics asked for, in the order asked for")
    for r in wr:
        for m in wm:
            ctx.eq(got.loc[r, m], v[m][runs.index(r)], "each with its own value")


@harness(P, [D + "gather_summaries.py:combine_result_dbs"], "2 result databases of 2 or 3 summaries of any values each, of the same or different runs, some statistics repeated", quick=[{"same": False}, {"same": True}], budget=100)
def gather(ctx, same):
    v = ctx.reals("v", 5, -9, 9)
    rep = ctx.bool("rep")
    dup = bool(rep)
    one = pd.DataFrame({"summary_value": pd.Series(v[:2], dtype=object), "metric_name": ["depth", "depth"], "metric_info_label": ["r band", "g band"], "slicer_name": ["Heal", "Heal"], "summary_name": ["Median ", "Mean"], "run_name": ["one"] * 2})
    run2 = "one" if same else "two"
    two = pd.DataFrame({"summary_value": pd.Series(v[2:], dtype=object), "metric_name": ["depth", "depth", "depth"], "metric_info_label": ["r band", "g band" if not dup else "r band", ""], "slicer_name": ["Heal", "Heal", "Uni"], "summary_name": ["Median", "Max" if not dup else "Median", "Mean"], "run_name": [run2] * 3})
    tabs = {"a": one, "b": two}

    class Con:
        def close(self):
            pass

    con = Con()
    was = gs.sqlite3, gs.pd, gs.os
    cur = {}

    def connect(f):
        cur["f"] = f.split("/")[0]
        return con

    gs.sqlite3 = type("S", (), {"connect": staticmethod(connect)})
    gs.pd = type("Pd", (), {"read_sql": staticmethod(lambda q, c: tabs[cur["f"]].copy()), "concat": staticmethod(pd.concat), "DataFrame": pd.DataFrame})
    path = type("Path", (), {"join": staticmethod(lambda *a: "/".join(a)), "isfile": staticmethod(lambda f: True), "exists": staticmethod(lambda f: True)})
    gs.os = type("Os", (), {"path": path})
    try:
        got = gs.combine_result_dbs(["a", "b"])
    finally:
        gs.sqlite3, gs.pd, gs.os = was
    want = {}
    for t in (one, two):
        for k in range(len(t)):
            q = t.iloc[k]
            nm = " ".join(x for x in (q["summary_name"].strip(), q["metric_name"].strip(), q["metric_info_label"].strip(), q["slicer_name"].strip()) if x)
            want[q["run_name"], nm] = q["summary_value"]
    ctx.check(sorted(got.index) == sorted({r for r, _ in want}) and sorted(got.columns) == sorted({m for _, m in want}), "one row a run, one column a statistic")
    for r in got.index:
        for m in got.columns:
            x = got.loc[r, m]
            if (r, m) in want:
                ctx.close(x, want[r, m], "the value of that run and statistic (the last if repeated)")
            else:
                ctx.check(not is_sym(x) and x != x, "nothing where there is none")


@harness(P, [D + "archive.py:get_runs", D + "archive.py:get_family_runs"], "3 entries of 2 families, any run in each", quick=[{}], budget=60)
def families(ctx):
    k = [ctx.cint("k%d" % i, 0, 1) for i in range(3)]
    fam = ["x", "x", "y"]
    f = pd.DataFrame({"run": ["r%d" % a for a in k], "brief": ["b%d" % a for a in k], "filepath": ["p%d" % a for a in k], "url": ["u%d" % a for a in k], "version": ["1", "2", "3"]}, index=pd.Index(fam, name="family"))
    got = ar.get_runs(f)
    ctx.check(sorted(got.index) == sorted({"r%d" % a for a in k}), "each run once")
    for r in got.index:
        who = [i for i in range(3) if "r%d" % k[i] == r]
        ctx.check(list(got.loc[r, "family"]) == [fam[i] for i in who] and list(got.loc[r, "version"]) == [str(i + 1) for i in who], "with its families")
        ctx.check(got.loc[r, "filepath"] == "p" + r[1] and got.loc[r, "url"] == "u" + r[1] and got.loc[r, "brief"] == "b" + r[1], "and its own file")


@harness(P, [D + "microlensing_compare.py:get_results", D + "microlensing_compare.py:parse_t_e_run_types"], "2 or 3 events of any value (some undefined), each kind of statistic", quick=[{"n": 2}, {"n": 3}], budget=60)
def lensing(ctx, n):
    kind = ctx.choice("kind", ["detect", "Npts", "Fisher"])
    if kind == "detect":
        v = [ctx.cint("d%d" % i, 0, 1) for i in range(n)]
        want = sum(v) / n
        d = pd.DataFrame({"metric_values": np.array(v, float)})
    else:
        bad = ctx.choice("bad", [None, 0, 1])
        v = ctx.reals("v", n, -5, 20) if kind == "Npts" else ctx.reals("v", n, 0, 1)
        ok = [i for i in range(n) if i != bad]
        d = pd.DataFrame({"metric_values": pd.Series([v[i] if i in ok else np.nan for i in range(n)], dtype=object if is_sym(v[0]) else float)})
        want = sum((v[i] for i in ok if bool(v[i] >= 0)), 0.0) / n if kind == "Npts" else sum(1 for i in ok if bool(v[i] < 0.1)) / n
    ctx.close(mc.get_results(d, kind), want, "fraction or mean over the events")
    r = mc.parse_t_e_run_types("my_run_v1_MicrolensingMetric_%s_tE_30.0_60.0_days_UserPoints" % kind)
    ctx.check(r[:2] == ("my_run_v1", kind), "name and kind of statistic")


@harness(P, [D + "summary_plots.py:normalize_metric_summaries"], "3 runs of 1 metric of any values, all of them the baseline together", quick=[{}], budget=60)
def middle(ctx):
    v = ctx.reals("v", 3, 0.5, 30)
    d = frame({"m": v}, RUNS, "run", "metric")
    with tables(is_sym(v[0])):
        got = sp.normalize_metric_summaries(["alt", "base", "other"], d)
    for i, r in enumerate(RUNS):
        ctx.close(got.loc[r, "m"], v[i] / omedian(v), "relative to the median of the runs")
