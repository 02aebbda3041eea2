"""Archives of simulations: numbered, read back, searched and fetched."""

import contextlib
import datetime
import importlib
import logging
import shutil
import tempfile
import uuid
import warnings
from pathlib import Path

import numpy as np
import pandas as pd
import yaml
from astropy.time import Time

import rubin_sim.maf as maf
import rubin_sim.sim_archive.future_vsarch as fv
import rubin_sim.sim_archive.prenightindex as pi
import rubin_sim.sim_archive.vseqarchive as va
import rubin_sim.sim_archive.vseqmetadata as vm
from harness.c30 import swapped
from harness.lib import *  # noqa: F401,F403
from lsst.resources import ResourcePath

pr = importlib.import_module("rubin_sim.sim_archive.prototype")
sa = importlib.import_module("rubin_sim.sim_archive.sim_archive")

logging.getLogger("rubin_sim.sim_archive").addHandler(logging.NullHandler())
P = "C32"
A = "rubin_sim/sim_archive/"
assumptions(P, "archives are small directory trees made for the check; the current time, the almanac, the databases and the readers of visits are replaced; which simulations exist, their dates, tags and telescopes are choices of the solver from short lists")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c32_")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@harness(P, [A + "prototype.py:_next_sim_date_and_index", A + "prototype.py:transfer_archive_dir"], "any of 5 earlier entries of the day, files of any of 2 contents, two entries added", quick=[{}], budget=120)
def numbering(ctx):
    have = [n for n in ("1", "2", "9", "10", "notes") if ctx.bool("have" + n)]
    with scratch() as d:
        src, arc = d / "src", d / "arc"
        src.mkdir()
        arc.mkdir()
        today = datetime.datetime.now(datetime.UTC).date().isoformat()
        for n in have:
            (arc / today / n).mkdir(parents=True)
            (arc / today / n / "sim_metadata.yaml").write_text("old")
            (arc / today / n / "77").mkdir()
        body = ctx.choice("body", [b"abc", b"\x00\xff"])
        (src / "opsim.db").write_bytes(body)
        (src / "log.txt").write_bytes(b"log")
        (src / "left.txt").write_bytes(b"not listed")
        (src / "sim_metadata.yaml").write_text(yaml.dump({"files": {"observations": {"name": "opsim.db"}, "log": {"name": "log.txt"}}, "label": "x"}))
        k = max([int(n) for n in have if n != "notes"], default=0)
        for i in range(2):
            got = pr.transfer_archive_dir(str(src), arc.as_uri())
            now = datetime.datetime.now(datetime.UTC).date().isoformat()
            if now != today:
                ctx.skip()
            dest = arc / today / str(k + 1 + i)
            ctx.check(Path(got.ospath) == dest and dest.is_dir(), "the next number of the day")
            ctx.check((dest / "opsim.db").read_bytes() == body and (dest / "log.txt").read_bytes() == b"log", "the files listed, unchanged")
            ctx.check(sorted(p.name for p in dest.iterdir()) == ["log.txt", "opsim.db", "sim_metadata.yaml"], "those files and the metadata only")
        for n in have:
            ctx.check((arc / today / n / "sim_metadata.yaml").read_text() == "old", "earlier entries are left alone")


@harness(P, [A + "prototype.py:read_archived_sim_metadata", A + "prototype.py:_build_archived_sim_label"], "simulations on any of 4 days, in the archive or its compilation or both, any window, with and without verification", quick=[{"comp": False}, {"comp": True}], budget=250)
def window(ctx, comp):
    days = ["2026-02-27", "2026-02-28", "2026-03-01", "2026-03-02"]
    there = [ctx.choice("n%d" % i, ["no", "archive"] if not comp else ["no", "archive", "both"] + (["gone"] if i == 1 else [])) for i in range(4)]
    last, nights = ctx.cint("last", 1, 3), ctx.choice("nights", [1, 2, 3])
    verify = bool(ctx.bool("verify")) if comp else False
    form = ctx.choice("form", ["label", "dates", "same", "bare"]) if not comp else "dates"
    version = bool(ctx.bool("version")) if not comp else True
    with scratch() as d:
        base = d.as_uri() + "/"
        compiled = {}
        want = {}
        meta = {"files": {}, "tags": ["a"]}
        tail = ""
        if form == "label":
            meta["label"] = "my run"
            tail = " my run"
        elif form != "bare":
            meta["simulated_dates"] = {"first": "2026-03-01", "last": "2026-03-01" if form == "same" else "2026-03-02"}
            tail = " of 2026-03-01" + ("" if form == "same" else " through 2026-03-02")
        if version:
            meta["scheduler_version"] = "3.1"
            tail += "" if form == "label" else " with 3.1"
        for i, t in enumerate(there):
            u = base + days[i] + "/7/"
            if t in ("archive", "both"):
                (d / days[i] / "7").mkdir(parents=True)
                (d / days[i] / "7" / "sim_metadata.yaml").write_text(yaml.dump(meta))
            if t in ("both", "gone"):
                compiled[u] = {"label": "compiled %d" % i}
        top = max([days[i] for i, t in enumerate(there) if t in ("both", "gone")], default="1900-01-01")
        for i, t in enumerate(there):
            u = base + days[i] + "/7/"
            if not last - nights < i <= last:
                continue
            # before the last compiled day the compilation is complete, unless it is to be verified
            if days[i] >= top or verify:
                if t in ("archive", "both"):
                    want[u] = "compiled %d" % i if t == "both" else days[i] + "/7" + tail
            elif t in ("both", "gone"):
                want[u] = "compiled %d" % i
        with swapped(pr, read_sim_metadata_from_hdf=lambda r: dict(compiled)), contextlib.redirect_stdout(None):
            got = pr.read_archived_sim_metadata(base, latest=days[last], num_nights=nights, compilation_resource="c" if comp else None, verify_compilation=verify)
    ctx.check(set(got) == set(want), "every simulation added in the window, once")
    for u in want:
        if u in got:
            ctx.eq(got[u]["label"], want[u], "with its metadata and label")


@harness(P, [A + "prototype.py:find_latest_prenight_sim_for_nights"], "2 or 3 simulations added on any of 3 days with any of 3 numbers, of any nights, telescopes and tags, in any order", quick=[{"n": 2}, {"n": 3}], budget=250)
def latest(ctx, n):
    sims = {}
    good = []
    for i in range(n):
        key = (ctx.choice("day%d" % i, ["2026-01-09", "2026-01-10"] if n == 3 else ["2025-12-31", "2026-01-09", "2026-01-10"]), ctx.choice("num%d" % i, [2, 10] if n == 3 else [1, 2, 10]))
        if key in [k for k, _ in good] or "s3://x/opsim/%s/%d/" % key in sims:
            ctx.skip()
        kind = ctx.choice("kind%d" % i, ["ok", "late", "early", "tag", "tel"] if n == 2 else ["ok", "early", "plain"])
        m = {"simulated_dates": {"first": "2026-01-10", "last": "2026-01-11"}, "tags": ["nominal", "ideal", "x"], "telescope": "Simonyi", "files": {"observations": {"name": "o%d.db" % i}}}
        if kind == "late":
            m["simulated_dates"]["first"] = "2026-01-11"
        if kind == "early":
            m["simulated_dates"]["last"] = "2026-01-10"
        if kind == "tag":
            m["tags"] = ["ideal"]
        if kind == "tel":
            m["telescope"] = "auxtel"
        if kind == "plain":
            del m["telescope"]
        sims["s3://x/opsim/%s/%d/" % key] = m
        one = bool(ctx.bool("one")) if i == 0 else one
        if kind in ("ok", "plain") or (kind == "early" and one):
            good.append((key, i))
    ages = []
    with swapped(pr, read_archived_sim_metadata=lambda uri, num_nights=None, compilation_resource=None, **k: ages.append(num_nights) or sims), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = pr.find_latest_prenight_sim_for_nights("2026-01-10", None if one else "2026-01-11", max_simulation_age=3, archive_uri="s3://x/opsim/")
    ctx.eq(ages[0], 3, "no older than asked for")
    if not good:
        ctx.check(got is None, "none when none qualifies")
        return
    (day, num), i = max(good)
    ctx.check(got is not None and got["exec_date"] == day and got["date_index"] == num, "the latest of the simulations that qualify")
    if got is not None:
        ctx.eq(got["opsim_rp"].geturl(), "s3://x/opsim/%s/%d/o%d.db" % (day, num, i), "and where its visits are")


@harness(P, [A + "prototype.py:fetch_sim_for_nights", A + "future_vsarch.py:_fetch_sim_for_nights"], "3 visits on any of three days, any first and last day, asked for twice with the same arguments", quick=[{"which": "prototype"}, {"which": "future"}], budget=200)
def fetch(ctx, which):
    day = [ctx.cint("d%d" % i, 1, 3) for i in range(3)]
    a, b = ctx.cint("a", 1, 3), ctx.cint("b", 1, 3)
    want_col = bool(ctx.bool("col"))
    ext = ".db" if which == "prototype" else ctx.choice("ext", [".h5", ".db"])
    iso = lambda d: "2026-01-%02d" % d
    asked = []

    def visits(rp, stackers=None, **k):
        asked.append((str(rp), k))
        t = pd.DataFrame({"observationId": [10, 11, 12], "v": [0.5, 1.5, 2.5]})
        if any(isinstance(s, maf.DayObsISOStacker) for s in stackers or []):
            t["day_obs_iso8601"] = [iso(d) for d in day]
        return t

    data = lambda rp, **k: visits(rp, **k).to_records(index=False)
    stackers = [maf.DayObsISOStacker()] if want_col else [maf.HourAngleStacker()]
    kw = {"dbcols": ["v"]}
    with warnings.catch_warnings(), contextlib.ExitStack() as st:
        warnings.simplefilter("ignore")
        if which == "prototype":
            st.enter_context(swapped(pr, get_sim_data=data))
            kw["stackers"] = stackers
        else:
            st.enter_context(swapped(fv, get_sim_data=data, _get_visits=visits))
        for _ in range(2):
            if which == "prototype":
                got = pr.fetch_sim_for_nights(iso(a), iso(b), which_sim="/tmp/none" + ext, get_sim_data_kwargs=kw)
            else:
                got = fv._fetch_sim_for_nights(iso(a), iso(b), which_sim="/tmp/none" + ext, stackers=stackers, get_sim_data_kwargs=kw)
            ctx.check(list(got["observationId"]) == [10 + i for i in range(3) if a <= day[i] <= b], "the visits of the nights asked for")
            ctx.check(("day_obs_iso8601" in got.columns) == want_col, "with the columns asked for")
    ctx.check(len(stackers) == 1 and set(kw) <= {"dbcols", "stackers"} and kw["dbcols"] == ["v"] and ("stackers" in kw) == (which == "prototype"), "the arguments are left alone")
    ctx.check(all("/tmp/none" in u for u, _ in asked), "of the simulation asked for")


@harness(P, [A + "future_vsarch.py:_select_latest_prenight_sim", A + "future_vsarch.py:_find_latest_prenight_sim_for_nights", A + "future_vsarch.py:_fetch_sim_for_nights"], "2 simulations of either night or both, with or without the tags, of any age from a list, with or without a URL", quick=[{}], budget=200)
def latest_future(ctx):
    n = 2
    now = pd.Timestamp.now(tz="UTC")
    ages = [ctx.choice("age%d" % i, [1, 60, 90]) + i * 0.1 for i in range(n)]
    tags = [ctx.choice("tag%d" % i, [["ideal", "nominal", "more"], ["ideal"]]) for i in range(n)]
    cover = [ctx.choice("cover%d" % i, ["first", "both", "last"]) for i in range(n)]
    two = bool(ctx.bool("two"))
    url = ctx.choice("url", ["url", "file", "none"])

    def index(which):
        k = [i for i in range(n) if cover[i] in (which, "both")]
        t = pd.DataFrame({"creation_time": pd.Series([now - pd.Timedelta(hours=float(ages[i])) for i in k], dtype=object), "tags": pd.Series([tags[i] for i in k], dtype=object)})
        t["visitseq_url"] = pd.Series(["/tmp/u%d.h5" % i if url == "url" else None for i in k], dtype=object)
        t["files"] = pd.Series([{"opsim": "/tmp/u%d.db" % i} if url == "file" else {} for i in k], dtype=object)
        return t.set_index(pd.Index(["id%d" % i for i in k], name="visitseq_uuid"))

    asked = []

    def visits(rp, stackers=None, **k):
        asked.append(rp.ospath)
        return pd.DataFrame({"observationId": [1], "day_obs_iso8601": ["2026-01-01"]})

    with swapped(fv, _get_prenight_index=lambda day, telescope, **k: index({"2026-01-01": "first", "2026-01-02": "last"}[day]), _get_visits=visits, get_sim_data=lambda rp, **k: visits(rp).to_records(index=False)), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        last = "2026-01-02" if two else None
        sim = fv._find_latest_prenight_sim_for_nights("2026-01-01", last, max_simulation_age=2)
        got, e = ctx.call(fv._fetch_sim_for_nights, "2026-01-01", last, which_sim={"max_simulation_age": 2})
    ok = [i for i in range(n) if "nominal" in tags[i] and ages[i] < 72 and (cover[i] == "both" or (cover[i] == "first" and not two))]
    if not ok:
        ctx.check(sim == {}, "none when none qualifies")
        ctx.check(isinstance(e, ValueError), "nothing to fetch")
        return
    best = min(ok, key=lambda i: ages[i])
    ctx.check(sim.get("visitseq_uuid") == "id%d" % best, "the latest of the simulations that qualify")
    if url == "none":
        ctx.check(isinstance(e, ValueError), "nothing to fetch")
    else:
        ctx.check(e is None and asked == ["/tmp/u%d.%s" % (best, "h5" if url == "url" else "db")], "its visits are fetched")


@harness(P, [A + "sim_archive.py:fetch_obsloctap_visits", A + "prototype.py:fetch_obsloctap_visits", A + "future_vsarch.py:_fetch_obsloctap_visits"], "any of 3 days before, during or after a night, 1 to 3 nights, either telescope", quick=[{}], budget=200)
def nights(ctx):
    d0 = 61000
    rows = {"night": np.arange(6), "sunset": d0 + np.arange(6) + 0.9 + 0.01 * np.arange(6), "sunrise": d0 + np.arange(6) + 1.4 - 0.01 * np.arange(6)}

    class Alm:
        sunsets = np.rec.fromarrays([rows["night"], rows["sunset"], rows["sunrise"]], names="night,sunset,sunrise")

    k, n, tel = ctx.cint("k", 0, 2), ctx.cint("n", 1, 3), ctx.choice("tel", ["simonyi", "auxtel"])
    hour = ctx.choice("hour", [0.0, 0.905, 0.95])
    ref = Time(d0 + k + hour, format="mjd").iso
    first = min(i for i in range(6) if rows["sunset"][i] > d0 + k + hour)
    day = lambda i: Time(d0 + i, format="mjd").iso[:10]
    which = ctx.choice("which", ["sim_archive", "prototype", "future"])
    cols = ["observationStartMJD", "fieldRA", "fieldDec", "rotSkyPos", "band", "visitExposureTime", "night", "target_name"]
    mod = {"sim_archive": sa, "prototype": pr, "future": fv}[which]
    asked = []

    def got(a, b, which_sim=None, get_sim_data_kwargs=None, **k):
        asked.append((a, b, which_sim, get_sim_data_kwargs))
        c = cols if which == "prototype" else cols + ["more"]
        return pd.DataFrame({x: [1.0] for x in c})

    with swapped(mod, Almanac=Alm, **{"_fetch_sim_for_nights" if which == "future" else "fetch_sim_for_nights": got}), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        v = {"sim_archive": sa.fetch_obsloctap_visits, "prototype": pr.fetch_obsloctap_visits, "future": fv._fetch_obsloctap_visits}[which](ref, nights=n, telescope=tel)
    a, b, w, kw = asked[0]
    ctx.eq((a, b), (day(first), day(first + n - 1)), "the nights that begin after the time given, as many as asked for")
    ctx.eq(w["telescope"], tel, "of the telescope asked for")
    ctx.eq(set(w["tags"]), {"ideal", "nominal"}, "nominal simulations")
    age = math.ceil(Time.now().mjd - (d0 + k + hour)) + 1
    ctx.check(w["max_simulation_age"] in (age, age + 1, age - 1), "back to the day given")
    ctx.check(list(v.columns) == cols, "the columns of the plan")
    if which == "prototype":
        lo, hi = [float(x) for x in kw["sqlconstraint"][0].replace("observationStartMJD BETWEEN", "").split("AND")]
        ctx.close(lo, rows["sunset"][first], "from sunset")
        ctx.close(hi, rows["sunrise"][first + n - 1], "to sunrise")
        ctx.check(set(kw["dbcols"]) == set(cols), "columns read")


@harness(P, [A + "prototype.py:fetch_sim_stats_for_night", A + "sim_archive.py:fetch_sim_stats_for_night"], "any of 2 forms of the day, statistics in the index, or 0 to 3 visits on either of 2 nights", quick=[{}], budget=200)
def night_counts(ctx):
    form = ctx.choice("form", ["2026-01-02", 20260102])
    asked = []
    n = ctx.cint("n", 0, 3)
    with swapped(pr, fetch_sim_for_nights=lambda first_day_obs=None, last_day_obs=None, which_sim=None, **k: asked.append((first_day_obs, last_day_obs, which_sim)) or pd.DataFrame({"x": [1.0] * n})), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = pr.fetch_sim_stats_for_night(form)
    ctx.eq(got["nominal_visits"], n, "visits of the night")
    ctx.eq(asked[0][:2], ("2026-01-02", "2026-01-02"), "of that night")
    kind = ctx.choice("kind", ["count", "given", "nocount", "visits"])
    sim = {"visitseq_uuid": "u", "visitseq_url": "/tmp/v.h5"}
    stats = {"count": {"altitude": {"count": 5.0, "mean": 1.0}}, "given": {"nominal_visits": 7, "altitude": {"count": 5.0}}, "nocount": {"altitude": {"mean": 3.0}}}.get(kind)
    if stats is not None:
        sim["stats"] = stats
    day = [ctx.choice("d%d" % i, ["2026-01-02", "2026-01-03"]) for i in range(3)]
    if kind == "visits" and "2026-01-02" not in day:
        ctx.skip()
    seen = []

    def visits(url, query="", stackers=()):
        mjd = [Time(d).mjd + 0.5 + 0.4 for d in day]
        t = pd.DataFrame({"altitude": [30.0, 40.0, 60.0], "observationStartMJD": mjd, "band": ["r", "g", "i"]})
        if len(stackers):
            t["day_obs_iso8601"] = day
        return t

    class Meta:
        def __init__(self, *a, **k):
            pass

        def sims_on_night_with_stats(self, *a, **k):
            return pd.DataFrame({"visitseq_uuid": ["other"], "stats": [{"altitude": {"count": 99.0}}]})

    with swapped(sa, find_latest_prenight_sim_for_nights=lambda d, **k: seen.append((d, k)) or dict(sim), get_visits=visits, VisitSequenceArchiveMetadata=Meta):
        got = sa.fetch_sim_stats_for_night(form, tags=("a",), telescope="auxtel", max_simulation_age=4)
    ctx.eq(seen[0][0], "2026-01-02", "of that night")
    ctx.eq((seen[0][1]["tags"], seen[0][1]["telescope"], seen[0][1]["max_simulation_age"]), (("a",), "auxtel", 4), "of the simulation asked for")
    ctx.eq(got["nominal_visits"], {"count": 5, "given": 7}.get(kind, day.count("2026-01-02")), "visits of the night")
    if kind == "visits":
        use = [x for x, d in zip([30.0, 40.0, 60.0], day) if d == "2026-01-02"]
        ctx.close(float(got["altitude"]["mean"]), sum(use) / len(use), "statistics of the visits of the night")
        ctx.close(float(got["altitude"]["max"]), max(use), "statistics of the visits of the night")


@harness(P, [A + "vseqarchive.py:get_visits", A + "future_vsarch.py:_get_visits"], "3 visits, a query, up to two stackers", quick=[{}], budget=100)
def visits_read(ctx):
    v = [ctx.choice("v%d" % i, [1.0, 2.0, 3.0]) for i in range(3)]
    query = ctx.choice("query", ["", "v < 2.5", "v > 5"])
    nst = ctx.cint("nst", 0, 2)
    which = ctx.choice("which", [va, fv])
    order = []

    class St:
        def __init__(self, k):
            self.k = k

        def run(self, r):
            order.append((self.k, len(r)))
            d = pd.DataFrame(r)
            d["s%d" % self.k] = d["v"] * self.k + (d["s1"] if self.k == 2 and nst == 2 else 0)
            return d.to_records(index=False)

    frame = pd.DataFrame({"v": v, "id": [5, 6, 7]})
    with scratch() as d:
        (d / "x.h5").write_bytes(b"x")
        with swapped(pd, read_hdf=lambda path, key=None: frame.copy() if key == "observations" and Path(path).read_bytes() == b"x" else None):
            f = va.get_visits if which is va else fv._get_visits
            got = f(str(d / "x.h5"), query=query, stackers=[St(k + 1) for k in range(nst)])
    keep = [i for i in range(3) if query == "" or (v[i] < 2.5 if "<" in query else v[i] > 5)]
    ctx.check(list(got["id"]) == [5 + i for i in keep], "the visits selected")
    for k in range(1, nst + 1):
        ctx.check(list(got["s%d" % k]) == [v[i] * k + (v[i] if k == 2 else 0) for i in keep], "with the columns of the stackers, applied in turn to those visits")
    ctx.check([k for k, _ in order] == list(range(1, nst + 1)) and all(m == len(keep) for _, m in order), "after the selection")


@harness(P, [A + "prenightindex.py:_get_sim_uuid_from_metadata_index", A + "prenightindex.py:_get_sim_metadata_from_metadata_index", A + "prenightindex.py:get_sim_uuid", A + "prenightindex.py:get_sim_metadata"],
         "up to 3 simulations for either telescope, created on any of 2 days with any of 3 numbers; any way to give the day", quick=[{}], budget=250)
def identity(ctx):
    ids = [uuid.UUID(int=100 + i) for i in range(3)]
    tel = ["simonyi"] + [ctx.choice("tel%d" % i, ["simonyi", "auxtel", "no"]) for i in range(1, 3)]
    made = [(datetime.date(2026, 4, 27 + (ctx.cint("day%d" % i, 0, 1) if i < 2 else 1)), [4, 12, 4][i]) for i in range(3)]
    if any(tel[i] != "no" and tel[j] != "no" and made[i] == made[j] for i in range(3) for j in range(i)):
        ctx.skip()
    asked = []

    def index(day_obs, telescope, **kw):
        asked.append(day_obs)
        k = [i for i in range(3) if tel[i] == telescope]
        t = pd.DataFrame({"sim_creation_day_obs": pd.Series([made[i][0] for i in k], dtype=object), "daily_id": pd.Series([made[i][1] for i in k], dtype=int), "label": pd.Series(["l%d" % i for i in k], dtype=object)})
        return t.set_index(pd.Index([ids[i] if as_id else str(ids[i]) for i in k], name="visitseq_uuid", dtype=object))

    as_id = bool(ctx.bool("as_id"))
    day = ctx.choice("day", [20260428, "2026-04-28", "20260428", datetime.date(2026, 4, 28)])
    q = (datetime.date(2026, 4, 28), ctx.choice("num", [4, "12", 5]))
    hit = [i for i in range(3) if tel[i] != "no" and made[i] == (q[0], int(q[1]))]
    pick = ctx.cint("pick", 0, 2)
    with swapped(pi, get_prenight_index=index), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got, e = ctx.call(pi.get_sim_uuid, q[0], q[1], day_obs=day)
        info, e2 = ctx.call(pi.get_sim_metadata, str(ids[pick]) if ctx.bool("text") else ids[pick], day_obs=day)
    ctx.check(all(int(x) == 20260428 for x in asked), "of the day given")
    if hit:
        ctx.check(e is None and got == ids[hit[0]], "the simulation of that creation day and number")
    else:
        ctx.check(isinstance(e, ValueError), "no such simulation")
    if tel[pick] == "no":
        ctx.check(isinstance(e2, ValueError), "no simulation of that identity")
    else:
        ctx.check(e2 is None and info["label"] == "l%d" % pick and info["visitseq_uuid"] == ids[pick], "the metadata of that simulation")


@harness(P, [A + "vseqmetadata.py:metadata_yaml_from_prototype", A + "vseqarchive.py:construct_base_resource_path"], "metadata with or without label, creation time, a time in its label and files; any of 3 hours of creation", quick=[{}], budget=150)
def moved(ctx):
    lab = ctx.choice("label", ["no", "plain", "run at 2026-03-01T10:00:00", "run at noon"])
    ct, ix = bool(ctx.bool("ct")), ctx.choice("ix", [1, "12"])
    day = ctx.choice("day", ["2026-03-01", datetime.date(2026, 3, 1)])
    there = ctx.choice("there", ["yes", "empty", "no"])
    with scratch() as d:
        p = d / "2026-03-01" / str(ix)
        meta = {"files": {"observations": {"name": "o.db"}, "x": {"name": "x.h5", "url": "s3://keep/x.h5"}}, "tags": ["t"]}
        if lab != "no":
            meta["label"] = "Nominal " + lab
        if ct:
            meta["creation_time"] = "2026-02-02T01:02:03"
        if there != "no":
            p.mkdir(parents=True)
        if there == "yes":
            (p / "sim_metadata.yaml").write_text(yaml.dump(meta))
        got, e = ctx.call(vm.metadata_yaml_from_prototype, day, ix, d.as_uri() + "/")
        if there != "yes" or lab == "no":
            ctx.check(isinstance(e, ValueError), "metadata that is not there, or has no label, is refused")
        else:
            g = yaml.safe_load(got)
            want = "2026-02-02T01:02:03" if ct else ("2026-03-01T10:00:00" if "T10" in lab else (datetime.datetime(2026, 3, 1, 12, tzinfo=datetime.UTC) + datetime.timedelta(seconds=int(ix))).isoformat())
            ctx.eq(str(g["creation_time"]), want, "creation time given, or that of the label, or of the entry")
            ctx.eq((g["label"], g["tags"]), (meta["label"], ["t"]), "the rest as it was")
            ctx.eq(g["files"]["observations"]["url"], (p / "o.db").as_uri(), "where the files are")
            ctx.eq(g["files"]["x"]["url"], "s3://keep/x.h5", "unless given")
    k, u = ctx.choice("hour", [0.0, 0.49, 0.51]), uuid.UUID(int=5)
    base = va.construct_base_resource_path(ResourcePath("s3://b/a/", forceDirectory=True), "auxtel", Time(61000 + k, format="mjd"), u)
    ctx.eq(base.geturl(), "s3://b/a/auxtel/%s/%s/" % (Time(61000 + (0 if k > 0.5 else -1), format="mjd").iso[:10], u), "by telescope, evening of creation and identity")


@harness(P, [A + "sim_archive.py:make_sim_data_dir"], "a start and length given or the times of 2 visits, any of 4 hours, tags, label and two kinds of argument", quick=[{}], budget=200)
def sim_dir(ctx):
    kind = ctx.choice("kind", ["both", "visits"])
    frac = ctx.choice("frac", [0.2, 0.49, 0.51, 0.99])
    dur = ctx.choice("dur", [1, 2.0])
    label = ctx.choice("label", [None, "my label"])
    tags = ctx.choice("tags", [[], ["a", "b"]])
    extra = bool(ctx.bool("extra"))

    class Conv:
        def obs2opsim(self, obs, filename=None):
            if filename is not None:
                Path(filename).write_bytes(b"visits")
            return pd.DataFrame({"x": [1.0, 2.0]})

    import hashlib
    import os
    kw = {"n": np.int64(3), "flag": True, "f": np.float64(0.25), "s": "txt"}
    if kind == "both":
        kw.update(sim_start_mjd=61000 + frac, sim_duration=dur)
    obs = {"mjd": np.array([61003.3, 61000 + frac])} if not ctx.symbolic else {"mjd": type("V", (), {"min": lambda s: np.float64(61000 + frac), "max": lambda s: np.float64(61003.3)})()}
    user = os.environ.get("USER")
    os.environ["USER"] = "me"
    try:
        with scratch() as d:
            (d / "in").mkdir()
            (d / "in" / "conf.py").write_bytes(b"conf")
            (d / "out").mkdir()
            with swapped(sa, SchemaConverter=Conv):
                got = sa.make_sim_data_dir(obs, in_files={"conf": str(d / "in" / "conf.py")} if extra else {}, sim_runner_kwargs=kw, tags=tags, label=label, data_path=d / "out")
            ctx.check(Path(got) == d / "out", "the directory given")
            m = yaml.safe_load((d / "out" / "sim_metadata.yaml").read_text())
            names = {"observations": "opsim.db", "statistics": "obs_stats.txt"}
            if extra:
                names["conf"] = "conf.py"
            ctx.eq({k: v["name"] for k, v in m["files"].items()}, names, "every file is listed")
            for k, v in m["files"].items():
                ctx.eq(v["md5"], hashlib.md5((d / "out" / v["name"]).read_bytes()).hexdigest(), "with its contents' hash")
            if extra:
                ctx.eq((d / "out" / "conf.py").read_bytes(), b"conf", "files given are copied")
    finally:
        if user is None:
            del os.environ["USER"]
        else:
            os.environ["USER"] = user
    iso = lambda x: Time(math.floor(x - 0.5), format="mjd").iso[:10]
    first, last = 61000 + frac, (61000 + frac + dur - 1 if kind == "both" else 61003.3)
    ctx.eq((m["simulated_dates"]["first"], m["simulated_dates"]["last"]), (iso(first), iso(last)), "first and last day of observation")
    ctx.eq({k: m["sim_runner_kwargs"][k] for k in ("n", "flag", "f", "s")}, {"n": 3, "flag": True, "f": 0.25, "s": "txt"}, "arguments of the simulation")
    ctx.eq(m.get("tags", []), tags, "tags")
    ctx.eq(m.get("label"), label, "label")


@harness(P, [A + "prototype.py:compile_sim_metadata", A + "prototype.py:read_sim_metadata_from_hdf"], "2 simulations with any tags, files and arguments, compiled and read back", quick=[{}], budget=200)
def compiled(ctx):
    sims = {}
    for i in range(2):
        m = {"label": "s%d" % i, "simulated_dates": {"first": "2026-01-0%d" % (i + 1), "last": "2026-01-05"},
             "tags": ctx.choice("tags%d" % i, [["a"], ["a", "b"]]),
             "files": ctx.choice("files%d" % i, [{"observations": {"name": "o.db", "md5": "x%d" % i}}, {"observations": {"name": "o.db", "md5": "x"}, "log": {"name": "l.txt", "md5": "y%d" % i}}]),
             "sim_runner_kwargs": ctx.choice("kw%d" % i, [{"n": 3.0}, {"n": 4.0, "s": "t"}])}
        if ctx.bool("host%d" % i):
            m["host"] = "h%d" % i
        sims["s3://x/2026-01-0%d/1/" % (i + 1)] = m
    with scratch() as d, swapped(pr, read_archived_sim_metadata=lambda *a, **k: {u: dict(m) for u, m in sims.items()}):
        pr.compile_sim_metadata("s3://x/", (d / "c.h5").as_uri())
        got = pr.read_sim_metadata_from_hdf((d / "c.h5").as_uri())
    ctx.check(set(got) == set(sims), "every simulation")
    for u in sims:
        for k, v in sims[u].items():
            ctx.check(got[u].get(k) == v, "its %s" % k)
        ctx.check(set(got[u]) == set(sims[u]), "and nothing else")
