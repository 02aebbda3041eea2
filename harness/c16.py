"""Metric values written to disk, read back and sent as JSON."""

import json as _json
import os
import shutil
import tempfile

import numpy as np

import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.slicers as slicers
import rubin_sim.maf.slicers.base_slicer as bs_mod
import rubin_sim.maf.metric_bundles.metric_bundle as mb_mod
from rubin_sim.maf.metric_bundles import MetricBundle
from harness.lib import *  # noqa: F401,F403
from symx import symnp

P = "C16"
SL = "rubin_sim/maf/slicers/"
MB = "rubin_sim/maf/metric_bundles/metric_bundle.py:MetricBundle."
assumptions(P, "under symbolic execution the .npz file is a stand-in that gives back the named arrays that were stored (replays use real files in a scratch "
               "directory), and json is one that keeps the structure it is given; file systems that lose or alter data are out of scope")
_FILES = {}


class Stored(dict):
    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if isinstance(v, np.ndarray):
            return v.copy()
        a = np.empty((), dtype=object)
        a[()] = v
        return a


def _savez(name, **kw):
    _FILES[name if name.endswith(".npz") else name + ".npz"] = Stored((k, v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items())


class NpIO:
    """numpy with files kept in memory, for symbolic contents."""

    def __init__(self, real):
        self._r = real

    def __getattr__(self, n):
        if symnp.active():
            if n == "savez":
                return _savez
            if n == "load":
                return lambda f, **k: _FILES[f]
        return getattr(self._r, n)


class Text:
    def __init__(self):
        self.obj = None

    def write(self, s):
        self.obj = s

    def getvalue(self):
        return self.obj


class Js:
    def dump(self, obj, io, **k):
        if symnp.active():
            io.obj = obj
        else:
            _json.dump(obj, io, **k)


def loaded(io):
    return io.obj if symnp.active() else _json.loads(io.getvalue())


def patched(ctx, fn):
    """Runs fn with stand-in files and json under symbolic execution."""
    if not ctx.symbolic:
        return fn()
    old = bs_mod.np, bs_mod.json, mb_mod.os, bs_mod.StringIO
    bs_mod.np, bs_mod.json, bs_mod.StringIO = NpIO(bs_mod.np), Js(), Text

    class Os:
        class path:
            isfile = staticmethod(lambda f: f in _FILES)
            split, join = staticmethod(os.path.split), staticmethod(os.path.join)
    mb_mod.os = Os
    try:
        return fn()
    finally:
        bs_mod.np, bs_mod.json, mb_mod.os, bs_mod.StringIO = old
        _FILES.clear()


def make(ctx, kind, bad):
    """A slicer that is set up, with three points."""
    if kind == "oned":
        b = ctx.reals("b", 2, 0.25, 4)
        ctx.assume(b[0] < b[1])
        s = slicers.OneDSlicer(slice_col_name="x", slice_col_units="m", bins=ctx.arr([0.0, b[0], b[1], 5.0]), badval=bad)
        s.setup_slicer(ctx.rec({"x": [0.5, 1.5]}))
    elif kind == "uni":
        s = slicers.UniSlicer(badval=bad)
        s.setup_slicer(ctx.rec({"x": [0.5, 1.5]}))
    elif kind == "nd":
        s = slicers.NDSlicer(["x", "y"], bins_list=[np.array([0.0, 1.0, 2.0]), np.array([0.0, 2.0])], verbose=False)
        s.setup_slicer(ctx.rec({"x": [0.5, 1.5], "y": [0.5, 1.5]}))
    elif kind == "heal":
        s = slicers.HealpixSlicer(nside=1, badval=bad, radius=ctx.real("rad", 1, 3), use_camera=ctx.bool("cam"), use_cache=ctx.bool("cache"), verbose=False,
                                  rot_sky_pos_col_name=ctx.choice("rot", ["rotSkyPos", "r"]), lon_col=ctx.choice("lon", ["fieldRA", "x"]))
    elif kind == "subset":
        s = slicers.HealpixSubsetSlicer(nside=1, hpid=np.array([3, 4]), badval=bad, radius=ctx.real("rad", 1, 3), use_camera=ctx.bool("cam"), verbose=False)
    elif kind == "user":
        s = slicers.UserPointsSlicer(ra=[10.0, 20.0], dec=[0.0, 1.0], badval=bad, radius=ctx.real("rad", 1, 3), use_camera=ctx.bool("cam"), verbose=False,
                                     rot_sky_pos_col_name=ctx.choice("rot", ["rotSkyPos", "r"]), lat_col=ctx.choice("lat", ["fieldDec", "x"]))
    return s


@harness(P, [SL + "base_slicer.py:BaseSlicer.write_data", SL + "base_slicer.py:BaseSlicer.read_data", MB + "write", MB + "read", MB + "load"] +
         [SL + f for f in ("one_d_slicer.py:OneDSlicer.__init__", "healpix_slicer.py:HealpixSlicer.__init__", "user_points_slicer.py:UserPointsSlicer.__init__", "nd_slicer.py:NDSlicer.__init__")],
         "metric values of any size, up to three of them masked or not, over six kinds of slicer with any edges, radius, camera and column choices; summaries, labels and comment",
         quick=[{"kind": k} for k in ("oned", "uni", "nd", "heal", "subset", "user")], budget=200)
def roundtrip(ctx, kind):
    bad = ctx.choice("bad", [-666.0, -5.0])

    def go():
        d = None if ctx.symbolic else tempfile.mkdtemp()
        try:
            s = make(ctx, kind, bad)
            n = s.shape
            b = MetricBundle(metrics.SumMetric("v"), s, "night < 3", run_name="run", file_root="f_x", plot_dict={"units": "mag", "color": "k"},
                             display_dict={"group": "g1", "order": 4}, info_label=ctx.choice("lab", ["lab", ""]), summary_metrics=[])
            b._setup_metric_values()
            k = min(n, 3)
            v = ctx.reals("v", k, -4, 4)
            hide = [ctx.bool("h%d" % i) for i in range(min(k, 2))] + [False] * (k - min(k, 2))
            pos = [3, 4, 7] if kind == "subset" else list(range(k))
            for i in range(n):
                b.metric_values.data[i] = 0.5
            for i in range(k):
                b.metric_values.data[pos[i]] = v[i]
                if not (kind == "subset" and pos[i] == 7):
                    b.metric_values.mask[pos[i]] = hide[i]
            b.summary_values = {"Mean": v[0], "N": 3}
            sub = ctx.choice("suffix", [None, "12"])
            out = "/mem" if d is None else d
            b.write(comment=ctx.choice("comment", ["", " c"]), out_dir=out, outfile_suffix=sub)
            f = os.path.join(out, "f_x%s.npz" % ("" if sub is None else "_12"))
            r = MetricBundle.load(f)
            ctx.check(type(r.slicer) is type(s), "the slicer is of the same kind")
            ctx.check(int(r.slicer.nslice) == int(s.nslice) and int(r.slicer.shape) == int(s.shape), "the same number of points")
            ctx.check(set(r.slicer.slice_points) == set(s.slice_points), "the same information for the points")
            for key, val in s.slice_points.items():
                ctx.closes(np.ravel(np.array(r.slicer.slice_points[key])), np.ravel(np.array(val)), "points: " + key)
            ctx.check(bool(r.slicer == s) and bool(s == r.slicer), "the slicer equals the one that was saved")
            if kind != "nd":
                ctx.close(r.slicer.badval, bad, "the bad value of the slicer")
                ctx.close(r.metric_values.fill_value, bad, "the fill value")
            ctx.check(len(r.metric_values.data) == n, "one value for each point")
            for i in range(n):
                ctx.check(hidden(r.metric_values, i) == hidden(b.metric_values, i), "the same values are masked")
                if not hidden(b.metric_values, i):
                    ctx.close(r.metric_values.data[i], b.metric_values.data[i], "the same values")
            ctx.check((r.metric.name, r.run_name, r.constraint) == ("Sum v", "run", "night < 3"), "names")
            ctx.check(r.info_label == b.info_label + ctx.choice("comment", ["", " c"]), "label and comment")
            ctx.check(r.metric.units == "mag" and r.plot_dict == b.plot_dict and r.display_dict == b.display_dict, "units, plot and display parameters")
            ctx.check(set(r.summary_values) == {"Mean", "N"} and r.summary_values["N"] == 3, "summaries")
            ctx.close(r.summary_values["Mean"], v[0], "summary value")
            ctx.check(r.file_root == ("f_x" if sub is None else "f_x_12"), "file root")
        finally:
            if d is not None:
                shutil.rmtree(d, ignore_errors=True)

    patched(ctx, go)


@harness(P, [SL + "base_slicer.py:BaseSlicer.output_json", MB + "output_json"], "metric values of any size (real or whole), up to three of them masked or not or no mask at all, over bins, points and all visits",
         quick=[{"kind": k} for k in ("oned", "uni", "user", "heal")], budget=200)
def tojson(ctx, kind):
    def go():
        s = make(ctx, kind, -666.0)
        n = s.shape
        how = ctx.choice("how", ["bundle", "plain", "whole"])
        k = min(n, 3)
        v = ctx.reals("v", k, -4, 4) if how != "whole" else ctx.ints("i", k, -4, 4)
        full = list(v) + [0.5 if how != "whole" else 1] * (n - k)
        hide = [False] * n
        if how == "bundle":
            b = MetricBundle(metrics.SumMetric("v"), s, "", run_name="run", file_root="f", plot_dict={"units": "mag"}, info_label="lab", summary_metrics=[])
            b._setup_metric_values()
            for i in range(n):
                b.metric_values.data[i] = full[i]
                if i < min(k, 2) and n > 1:
                    hide[i] = ctx.bool("h%d" % i)
                b.metric_values.mask[i] = hide[i]
            got = loaded(b.output_json())
            ctx.check((got[0]["metric_name"], got[0]["info_label"], got[0]["sim_data_name"]) == ("Sum v", "lab", "run"), "names in the header")
        else:
            a = ctx.arr(full, "f" if how == "plain" else "i")
            if ctx.symbolic:
                class A:
                    dtype = np.dtype(float if how == "plain" else int)
                    __len__ = lambda self: len(a)
                    __getitem__ = lambda self, i: a[i]
                    __iter__ = lambda self: iter(a)
                arr = A()
            else:
                arr = a
            io = s.output_json(arr, metric_name="m", sim_data_name="r", info_label="l")
            ctx.check(io is not None, "real and whole numbers can be sent")
            got = loaded(io)
            ctx.check((got[0]["metric_name"], got[0]["info_label"], got[0]["sim_data_name"]) == ("m", "l", "r"), "names in the header")
        ctx.check(got[0]["slicer_name"] == type(s).__name__ and got[0]["slicer_len"] == n, "slicer in the header")
        rows = got[1]
        if kind == "uni":
            ctx.check(len(rows) == 1, "one value")
            ctx.close(rows[0][0], full[0], "the value")
        elif kind == "oned":
            e = s.slice_points["bins"]
            ctx.check(len(rows) == n + 1, "one row for each edge")
            for i in range(n):
                ctx.close(rows[i][0], e[i], "left edge")
                ctx.close(rows[i][1], 0.0 if hide[i] else full[i], "value of the bin, zero where masked")
            ctx.close(rows[n][0], e[n], "last edge")
            ctx.close(rows[n][1], 0.0, "nothing after the last edge")
        else:
            ok = [i for i in range(n) if not hide[i]]
            ctx.check(len(rows) == len(ok), "one row for each unmasked point")
            for row, i in zip(rows, ok):
                ctx.close(row[0], float(np.degrees(float(s.slice_points["ra"][i]))), "longitude in degrees")
                ctx.close(row[1], float(np.degrees(float(s.slice_points["dec"][i]))), "latitude in degrees")
                ctx.close(row[2], full[i], "value")

    patched(ctx, go)
