"""C32 every entry point gives the same data"""
from __future__ import annotations
import fnmatch
import io
import os
from datetime import datetime
from pathlib import Path

import georinex as gr
import numpy as np
import xarray

from .. import gen, oracle, wl
from ..core import Crash, Ctx, Violation
from ..gen import us_t
from .container import any_file, pack
from .netcdf import close_load, rand_opts
from .options import rand_window, spell_window


def outcome(ctx, what, fn, *a, **k):
    try:
        return ctx.call(what, fn, *a, **k), None
    except Crash as e:
        return None, e.exc


def norm(x):
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, np.ndarray):
        return norm(x.tolist())
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if isinstance(x, (int, np.integer)):
        return repr(float(x))
    return str(x)


def source(ctx, p, text):
    """-> (fresh source, form)"""
    f = ctx.rng.choice(["path", "str", "stream", "gz"])
    if f == "path":
        return p, f
    if f == "str":
        return str(p), f
    if f == "stream":
        return io.StringIO(text), f
    q = p.parent / (p.name + ".gz")
    if not q.exists():
        ctx.write("in/" + q.name, pack(ctx.rng, text.encode("ascii"), "gz", p.name))
    return q, f


def c32(ctx: Ctx):
    r = ctx.rng
    kind, m, text, name = any_file(ctx, r.choice(["obs2", "obs2", "obs3", "obs3", "nav2", "nav3"]))
    p = ctx.write("in/" + name, text)
    opts = rand_opts(ctx, kind, m, 0.6)
    if kind == "obs2":
        opts["fast"] = False if wl.fast_may_fail(m, text) else opts.get("fast", r.random() < 0.5)
    what = f"{kind} {opts}"
    ref = ctx.must("load-raised", f"load({what})", gr.load, p, **opts)
    specific = {"obs2": gr.rinexobs2, "obs3": gr.rinexobs3, "nav2": gr.rinexnav2, "nav3": gr.rinexnav3}[kind]
    general = gr.rinexobs if kind[:3] == "obs" else gr.rinexnav
    for fn in (general, specific):
        src, form = source(ctx, p, text)
        o = dict(opts)
        if fn is specific and "tlim" in o:  # these take date-times only
            w = o["tlim"]
            if any(isinstance(x, str) for x in w):
                w = [np.datetime64(x, "us").astype(datetime) for x in w] if all(isinstance(x, str) for x in w) and all(len(x) > 9 and x[4] == "-" and x[10:11] in ("", "T", " ") and "+" not in x and "Z" not in x for x in w) else None
            if w is None:
                continue
            o["tlim"] = w
        if fn is gr.rinexnav2:
            o.pop("use", None)
        if kind[:3] == "obs" and r.random() < 0.2:
            o["verbose"] = True
            ctx.n["verbose_reads"] += 1
        out = None
        if fn is general and r.random() < 0.4 and len(ref.data_vars):
            out = ctx.dir / f"out_{fn.__name__}.nc"
            o["outfn"] = r.choice([out, str(out)])
            if r.random() < 0.2:
                o["group"] = "MINE"
        got = ctx.must("entry-raised", f"{fn.__name__}({form}, {o})", fn, src, **o)
        if out is not None:
            g = o.get("group", "OBS" if kind[:3] == "obs" else "NAV")
            back = close_load(ctx.must("readback-raised", f"{fn.__name__}(out.nc, group={g})", fn, out, group=g))
            oracle.same_dataset(ctx, ref, back, f"file written by {fn.__name__}({form}, {o}) vs load", key="entry-output", attrs=False)
            ctx.n["files_written"] += 1
        oracle.same_dataset(ctx, ref, got, f"{fn.__name__}({form}, {o}) vs load", key="entry", attrs=False)
        a, b = oracle.attrs_of(ref), oracle.attrs_of(got)
        for x in (a, b):
            x.pop("fast_processing", None)
        fnm = a.pop("filename", None), b.pop("filename", None)
        if fnm[1] != (None if form == "stream" else fnm[0] + (".gz" if form == "gz" else "")):
            raise Violation("entry-attrs", f"{fn.__name__}({form}): file name in the metadata is {fnm[1]!r}, of load {fnm[0]!r}")
        d = oracle.diff_attrs(a, b)
        if d:
            raise Violation("entry-attrs", f"{fn.__name__}({form}, {o}) vs load: metadata {d}")
        ctx.n[f"agree_{fn.__name__}"] += 1
        ctx.n[f"form_{form}"] += 1
    # ---- times
    want = oracle.arr_us(ctx.must("gettime-raised", "gettime", gr.gettime, p))
    tf = {"obs2": gr.obstime2, "obs3": gr.obstime3, "nav2": gr.navtime2, "nav3": gr.navtime3}[kind]
    src, form = source(ctx, p, text)
    got = oracle.arr_us(ctx.must("entry-raised", f"{tf.__name__}({form})", tf, src))
    if got != want or got != m.times:
        raise Violation("entry-times", f"{tf.__name__}({form}) lists {got[:5]}..., gettime {want[:5]}..., written {m.times[:5]}...")
    if "time" in ref.coords and set(oracle.times_us(ref)) - set(got):
        raise Violation("entry-times", f"{tf.__name__}({form}) does not list a time that is loaded")
    ctx.n["time_lists_compared"] += 1
    # ---- header
    hf = {"obs2": gr.obsheader2, "obs3": gr.obsheader3, "nav2": gr.navheader2, "nav3": gr.navheader3}[kind]
    want = norm(ctx.must("header-raised", "rinexheader", gr.rinexheader, p))
    src, form = source(ctx, p, text)
    got = norm(ctx.must("entry-raised", f"{hf.__name__}({form})", hf, src))
    if got != want:
        bad = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
        raise Violation("entry-header", f"{hf.__name__}({form}) differs from rinexheader in {[(k, got.get(k), want.get(k)) for k in bad[:3]]}")
    ctx.n["headers_compared"] += 1
    # ---- the user's own conversion (README)
    if r.random() < 0.25 and len(ref.data_vars):
        q = ctx.dir / "own.nc"
        g = "OBS" if kind[:3] == "obs" else "NAV"
        ctx.must("own-netcdf-raised", "Dataset.to_netcdf", ref.to_netcdf, q, group=g)
        back = close_load(ctx.must("readback-raised", "load(own.nc)", gr.load, q))
        oracle.same_dataset(ctx, ref, back, "dataset written with to_netcdf, loaded", key="own-netcdf", attrs=False)
        ctx.n["own_conversions"] += 1
    # ---- times as datetime
    if "time" in ref.coords and ref.time.size:
        us = oracle.times_us(ref)
        got = ctx.must("to_datetime-raised", "to_datetime(time)", gr.to_datetime, ref.time)
        got = [got] if isinstance(got, datetime) else list(got)
        if got != [us_t(t) for t in us]:
            raise Violation("to_datetime", f"to_datetime gives {got[:3]}, times {[oracle.fmt_us(t) for t in us[:3]]}")
        i = r.randrange(len(us))
        one = ctx.must("to_datetime-raised", "to_datetime(time[i])", gr.to_datetime, ref.time[i])
        if one != us_t(us[i]) or not isinstance(one, datetime):
            raise Violation("to_datetime", f"to_datetime of one time gives {one!r}, time {oracle.fmt_us(us[i])}")
        ctx.n["datetimes_compared"] += len(us)
    ctx.distinct(text, sorted(opts))
    ctx.sample = {"seed": ctx.seed, "what": what, "calls": ctx.trace[-6:]}


def c32_sp3(ctx: Ctx):
    r = ctx.rng
    m = gen.gen_sp3(r, nsv=r.choice([1, 3, 18]), n_epochs=r.choice([1, 2, 4]))
    text = gen.render_sp3(m, r, gen.Layout())
    p = ctx.write("in/a.sp3", text)
    ref = ctx.must("load-raised", "load", gr.load, p)
    gz = ctx.write("in/b.sp3.gz", pack(r, text.encode("ascii"), "gz", "b.sp3"))
    form = r.choice(["path", "str", "gz", "out"])
    src = {"path": p, "str": str(p), "gz": gz, "out": p}[form]
    out = ctx.dir / "o.nc" if form == "out" else None
    got = ctx.must("entry-raised", f"load_sp3({form})", gr.load_sp3, src, out)
    if not ref.equals(got):
        raise Violation("entry", f"load_sp3({form}) differs from load")
    if out is not None:
        with xarray.open_dataset(out) as d:
            if not d.load().equals(ref):
                raise Violation("entry-output", "load_sp3 wrote other data than it returned")
    us = oracle.times_us(ref)
    t = ctx.must("to_datetime-raised", "to_datetime(time)", gr.to_datetime, ref.time)
    t = [t] if isinstance(t, datetime) else list(t)
    if t != [us_t(x) for x in us]:
        raise Violation("to_datetime", f"to_datetime gives {t[:3]}")
    ctx.n["agree_load_sp3"] += 1
    ctx.distinct(text, form)


def c32_glob(ctx: Ctx):
    """globber lists exactly the matching files"""
    r = ctx.rng
    root = ctx.dir / "g"
    root.mkdir()
    names = set()
    for _ in range(r.choice([0, 1, 5, 12])):
        n = r.choice(["ab", "site", "x", "demo"]) + str(r.randrange(9)) + r.choice([".10o", ".10n", ".rnx", ".rnx.gz", "_MO.rnx", ".nc", "", ".21O", ".sp3"])
        if (root / n).exists():
            continue
        if r.random() < 0.15:
            (root / n).mkdir()
        else:
            (root / n).write_text(r.choice(["x", ""]))
            names.add(n)
    sub = root / "sub"
    sub.mkdir()
    (sub / "in.10o").write_text("x")
    pats = r.sample(["*o", "*.10o", "*.10?", "*", "site*", "*.rnx", "*.rnx.gz", "*[on]", "nothing*", "*.nc", "*O.rnx"], r.choice([1, 1, 2, 3]))
    arg = pats[0] if len(pats) == 1 and r.random() < 0.5 else pats
    home = os.environ.get("HOME")
    try:
        path = r.choice([root, str(root), "~/g"])
        os.environ["HOME"] = str(ctx.dir)
        got = ctx.must("globber-raised", f"globber({path}, {arg})", gr.globber, path, arg)
        want = {n for n in names if any(fnmatch.fnmatchcase(n, q) for q in pats)}
        if {Path(x).name for x in got} != want or any(Path(x).parent.resolve() != root.resolve() for x in got):
            raise Violation("globber", f"globber({arg}) gives {sorted(Path(x).name for x in got)}, matching files {sorted(want)}")
        if len(pats) == 1 and len(got) != len(want):
            raise Violation("globber-repeats", f"globber({arg}) repeats files: {got}")
        one = ctx.must("globber-raised", "globber(file)", gr.globber, sub / "in.10o", arg)
        if [Path(x) for x in one] != [sub / "in.10o"]:
            raise Violation("globber", f"globber of a file gives {one}")
    finally:
        if home is not None:
            os.environ["HOME"] = home
    ctx.n["globs_compared"] += 1
    ctx.n["glob_files"] += len(want)
    ctx.distinct(sorted(names), pats)


SPECS = {"C32": {
    "workloads": {"gen": (c32, 500, 9000), "sp3": (c32_sp3, 100, 2000), "glob": (c32_glob, 150, 2000)},
    "rule": "one case = one random file with random options, read through load and through the general and version-specific reader, time list and header functions, each given another form of the source; results compared with load / gettime / rinexheader; distinct by file text and options",
    "min_events": {"agree_rinexobs2": 80, "agree_rinexobs3": 80, "agree_rinexnav2": 40, "agree_rinexnav3": 40, "agree_load_sp3": 50, "time_lists_compared": 300, "headers_compared": 300, "own_conversions": 50, "files_written": 50, "datetimes_compared": 500, "globs_compared": 80},
    "assumptions": ["version-specific readers take window bounds as date-times"]}}
