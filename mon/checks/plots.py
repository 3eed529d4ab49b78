"""C31 plots show exactly the loaded data"""
from __future__ import annotations
import io
import math

import matplotlib

matplotlib.use("Agg")
import georinex as gr  # noqa: E402
import georinex.plots as grp  # noqa: E402
import georinex.plots_geo as grg  # noqa: E402
import matplotlib.dates  # noqa: E402
import numpy as np  # noqa: E402
import pandas  # noqa: E402
from matplotlib.collections import PathCollection  # noqa: E402
from matplotlib import pyplot as plt  # noqa: E402

from .. import gen, oracle, wl  # noqa: E402
from ..core import Ctx, Violation  # noqa: E402
from ..gen import us_t  # noqa: E402
from .header import geodetic  # noqa: E402
from .kepler import f19, orbit_file, reference  # noqa: E402
from .netcdf import close_load  # noqa: E402
from .netcdf import small_file  # noqa: E402
from .options import rand_window, spell_window  # noqa: E402
from .tools import cli, rand_flags  # noqa: E402
from ..pristine import pristine  # noqa: E402


def draw(ctx, what, fn, *a):
    """-> axes of the figures the call made"""
    plt.close("all")
    ctx.must("plot-raised", what, fn, *a)
    figs = [plt.figure(i) for i in plt.get_fignums()]
    ctx.n["figures"] += len(figs)
    if figs and ctx.rng.random() < 0.25 and not any(hasattr(a, "projection") for f in figs for a in f.axes):  # maps need coastlines from the network
        for f in figs:
            ctx.must("render-raised", f"rendering of {what}", f.savefig, io.BytesIO(), format="png", dpi=20)
            ctx.n["figures_rendered"] += 1
    if any(len(f.axes) != 1 for f in figs):
        raise Violation("axes", f"{what}: figures with {[len(f.axes) for f in figs]} axes")
    return [f.axes[0] for f in figs]


def frozen(ds):
    return {k: (v.dims, str(v.dtype), v.values.tobytes() if v.dtype != object else repr(v.values.tolist())) for k, v in ds.variables.items()}, repr(sorted(ds.attrs.items(), key=str))


def unchanged(ctx, ds, before, what):
    if frozen(ds) != before:
        raise Violation("data-changed", f"{what} changed the dataset")
    ctx.n["datasets_unchanged"] += 1


def as_us(x):
    x = np.asarray(x)
    if x.dtype.kind != "M":
        x = np.array([np.datetime64(d.replace(tzinfo=None), "us") for d in np.atleast_1d(matplotlib.dates.num2date(x))]) if x.size else np.array([], "datetime64[us]")
    return x.astype("datetime64[us]").astype("int64").tolist()


def check_obs(ctx, ds, axes, what):
    want = []
    for p in ("L1", "L1C"):
        if p in ds and np.isfinite(ds[p].values.astype(float)).any():
            want.append(p)
    if sorted(a.get_ylabel() for a in axes) != want:
        raise Violation("obs-figures", f"{what}: figures of {[a.get_ylabel() for a in axes]}, measurements with values {want}")
    svs = [str(s) for s in ds.sv.values.tolist()]
    ts = oracle.times_us(ds)
    for ax in axes:
        p = ax.get_ylabel()
        v = ds[p].transpose("time", "sv").values.astype(float)
        rows = [i for i in range(len(ts)) if np.isfinite(v[i]).any()]
        if ax.get_title() != str(ds.attrs.get("filename", "")):
            raise Violation("title", f"{what}: title {ax.get_title()!r} for {ds.attrs.get('filename')!r}")
        leg = ax.get_legend()
        names = [t.get_text() for t in leg.get_texts()] if leg else []
        lines = ax.get_lines()
        if len(names) != len(lines) or len(set(names)) != len(names):
            raise Violation("legend", f"{what} {p}: {len(lines)} curves, legend {names}")
        if any(h.get_color() != ln.get_color() for h, ln in zip(leg.legend_handles, lines)):
            raise Violation("legend", f"{what} {p}: legend colours are not those of the curves")
        got = dict(zip(names, lines))
        for j, s in enumerate(svs):
            if s not in got:
                if np.isfinite(v[:, j]).any():
                    raise Violation("curve-missing", f"{what} {p}: no curve of {s}, which has values")
                continue
            ln = got.pop(s)
            x, y = as_us(ln.get_xdata(orig=True)), np.asarray(np.ma.filled(np.ma.asarray(ln.get_ydata(orig=True), float), np.nan), float).tolist()
            have = [(a, b) for a, b in zip(x, y) if not math.isnan(b)]
            need = [(ts[i], v[i, j]) for i in rows if np.isfinite(v[i, j])]
            if have != need:
                d = next(((a, b) for a, b in zip(have + [None], need + [None]) if a != b), None)
                raise Violation("curve", f"{what} {p} {s}: curve differs from the data: {d}")
            # a missing value interrupts the curve
            drawn = {(a, b) for a, b in zip(x, x[1:])} & {(x[i], x[i + 1]) for i in range(len(x) - 1) if not math.isnan(y[i]) and not math.isnan(y[i + 1])}
            for (a, b) in drawn:
                if any(a < ts[i] < b for i in rows):
                    raise Violation("curve-gap", f"{what} {p} {s}: the curve runs across an epoch without a value")
            ctx.n["curves_compared"] += 1
            ctx.n["points_compared"] += len(need)
            ctx.n["curves_with_gaps"] += 0 < len(need) < len(rows)
        if got:
            raise Violation("curve-invented", f"{what} {p}: curves of {sorted(got)}")


def plotted(r, m):
    """one type of a system becomes the plotted measurement, mostly"""
    n = "L1" if m.v == 2 else "L1C"
    for s, ts in m.types.items():
        if n in ts or r.random() < 0.2:
            continue
        k = r.randrange(len(ts))
        old, ts[k] = ts[k], n
        for e in m.epochs:
            for sv, obs in e.sats:
                if s in ("*", sv[0]) and old in obs:
                    obs[n] = obs.pop(old)


def obs_ds(ctx):
    r = ctx.rng
    v = r.choice([2, 3])
    m = wl.gen_pair(ctx, v, n_epochs=r.choice([1, 2, 5, 9]), max_sats=r.choice([1, 3, 9, 20]), n_types=r.choice([None, 1, 3, 10]))
    plotted(r, m)
    text = wl.obs_text(ctx, m)
    opts = {"fast": False} if v == 2 else {}
    if r.random() < 0.3:
        opts["useindicators"] = True
    if r.random() < 0.3:
        opts["use"], _ = wl.rand_use(r, m.systems)
    if r.random() < 0.2:
        opts["tlim"] = spell_window(r, rand_window(r, m.times))
    if r.random() < 0.1:
        opts["meas"] = r.choice([["L1"], ["L1C"], ["L"], ["C"]])
    stream = r.random() < 0.25
    src = io.StringIO(text) if stream else ctx.write("site0010.10o", text)
    if not stream and r.random() < 0.2:
        out = ctx.dir / "x.nc"
        ctx.must("convert-raised", "load(out)", gr.load, src, out, **opts)
        ds = close_load(ctx.must("load-raised", "load(nc)", gr.load, out))
    else:
        ds = ctx.must("load-raised", f"load({opts})", gr.load, src, **opts)
    ctx.distinct(text, sorted(opts))
    return ds, f"v{v} {opts} {'stream' if stream else ''}"


def c31_obs(ctx: Ctx):
    r = ctx.rng
    ds, what = obs_ds(ctx)
    fn = r.choice([grp.timeseries, grp.obstimeseries])
    b = frozen(ds)
    axes = draw(ctx, f"{fn.__name__}({what})", fn, ds)
    check_obs(ctx, ds, axes, f"{fn.__name__}({what})")
    unchanged(ctx, ds, b, fn.__name__)
    ctx.sample = {"seed": ctx.seed, "what": what, "figures": [a.get_ylabel() for a in axes]}
    plt.close("all")


def nav_ds(ctx):
    r = ctx.rng
    m = orbit_file(ctx)
    for x in m.recs:  # states in orbit, some of them blank
        if x.sv[0] not in "RS":
            continue
        fl = (gen.NAVFIELDS2 if m.v == 2 else gen.NAVFIELDS3)[x.sv[0]]
        rad, la, lo = r.choice([25508.0, 42164.0, r.uniform(6500, 50000)]), r.uniform(-1.5, 1.5), r.uniform(-math.pi, math.pi)
        for f, q in zip("XYZ", (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))):
            x.slots[fl.index(f)] = f19(rad * q, "D")
        if r.random() < 0.1:
            for f in r.choice(["X", "Y", "Z", "XYZ"]):
                x.slots[fl.index(f)] = None
            ctx.n["blank_states"] += 1
    text = wl.nav_text(ctx, m)
    ds = ctx.must("load-raised", "load", gr.load, ctx.write(wl.nav_name(m), text) if r.random() < 0.7 else io.StringIO(text))
    ctx.distinct(text)
    return m, ds, f"NAV with systems {sorted({x.sv[0] for x in m.recs})}"


def vec(lat, lon):
    a, b = math.radians(lat), math.radians(lon)
    return (math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a))


def check_nav(ctx, m, ds, axes, what):
    if len(axes) != 1:
        raise Violation("nav-figures", f"{what}: {len(axes)} figures")
    need: dict = {}
    for name, t, vals in m.records():
        if name[0] in "GE":
            w = reference(vals, vals["GPSWeek" if name[0] == "G" else "GALWeek"], us_t(t), name[0])
        elif name[0] in "RS":
            i, = np.flatnonzero(ds.time.values.astype("datetime64[us]").astype("int64") == t)
            w = [float(ds[k].sel(sv=name).values[i]) for k in "XYZ"]
            if any(math.isnan(x) for x in w):
                need.setdefault(name, {})
                continue
            if math.hypot(*w) < 6e6:
                need.setdefault(name, {})[t] = None  # a blank coordinate read as zero: no particular place
                continue
        else:
            continue
        need.setdefault(name, {})[t] = geodetic(*w)[:2] if math.hypot(*w[:2]) > 1 else (math.copysign(90, w[2]), 0)
    lines = axes[0].get_lines()
    names = [ln.get_label() for ln in lines]
    if sorted(names) != sorted(need):
        raise Violation("tracks", f"{what}: tracks of {sorted(names)}, satellites with positions {sorted(need)}")
    for ln in lines:
        s = ln.get_label()
        x, y = np.atleast_1d(np.asarray(ln.get_xdata(orig=True), float)), np.atleast_1d(np.asarray(ln.get_ydata(orig=True), float))
        have = [(b, a) for a, b in zip(x, y) if not (math.isnan(a) or math.isnan(b))]
        pts = [need[s][t] for t in sorted(need[s])]
        if len(have) != len(pts):
            raise Violation("track-length", f"{what}: track of {s} has {len(have)} points, {len(pts)} records")
        for (lat, lon), p in zip(have, pts):
            if p is None:
                continue
            if not (-90.0001 <= lat <= 90.0001 and -360 <= lon <= 360) or math.dist(vec(lat, lon), vec(*p)) > 1e-5:  # pymap3d is approximate at altitude
                raise Violation("track", f"{what}: {s} drawn at lat {lat} lon {lon}, its record is at {p}")
            ctx.n[f"track_points_{s[0]}"] += 1
        ctx.n["tracks_compared"] += 1


def c31_nav(ctx: Ctx):
    r = ctx.rng
    m, ds, what = nav_ds(ctx)
    fn = r.choice([grp.timeseries, grg.navtimeseries])
    b = frozen(ds)
    axes = draw(ctx, f"{fn.__name__}({what})", fn, ds)
    check_nav(ctx, m, ds, axes, f"{fn.__name__}({what})")
    unchanged(ctx, ds, b, fn.__name__)
    ctx.sample = {"seed": ctx.seed, "what": what, "tracks": [ln.get_label() for ln in axes[0].get_lines()][:5]}
    plt.close("all")


def c31_both(ctx: Ctx):
    """OBS and NAV data together: a pair, or what load gives for a converted file with both"""
    r = ctx.rng
    obs, w1 = obs_ds(ctx)
    m, nav, w2 = nav_ds(ctx)
    arg = (obs, nav) if r.random() < 0.6 else {"obs": obs, "nav": nav}
    what = f"timeseries({type(arg).__name__} of {w1}, {w2})"
    axes = draw(ctx, what, grp.timeseries, arg)
    o = [a for a in axes if a.get_ylabel() in ("L1", "L1C")]
    check_obs(ctx, obs, o, what)
    check_nav(ctx, m, nav, [a for a in axes if a not in o], what)
    ctx.n["pairs_" + type(arg).__name__] += 1
    plt.close("all")


def c31_loc(ctx: Ctx):
    r = ctx.rng
    n = r.choice([0, 1, 2, 5, 30])
    rows = [[r.uniform(-90, 90), r.uniform(-180, 180), r.choice([float("nan"), 0.0, 0.05, 1.0, 4.9, 5.0, 7.5, 10.0, 14.0, 15.0, 20.0, 30.0, 60.0, 3600.0, r.uniform(0.01, 100)])] for _ in range(n)]
    names = [r.choice(["site", f"s{i}", f"a{i}.10o"]) for i in range(n)]
    df = pandas.DataFrame(rows, index=names, columns=["lat", "lon", "interval"], dtype=object if r.random() < 0.7 else float)
    b = df.copy(deep=True)
    what = f"receiver_locations(intervals {[x[2] for x in rows][:8]})"
    axes = draw(ctx, what, grg.receiver_locations, df)
    if not df.equals(b):
        raise Violation("data-changed", f"{what} changed the table")
    if len(axes) != 1:
        raise Violation("loc-figures", f"{what}: {len(axes)} figures")
    cs = [c for c in axes[0].collections if isinstance(c, PathCollection)]
    got = []
    for c in cs:
        off = np.asarray(c.get_offsets(), float)
        if off.shape != (1, 2):
            raise Violation("marker", f"{what}: a marker group with {off.shape} offsets")
        got.append((c.get_label(), float(off[0, 1]), float(off[0, 0]), float(c.get_sizes()[0])))
    key = sorted((nm, row[0], row[1]) for nm, row in zip(names, rows))
    if sorted(g[:3] for g in got) != key:
        raise Violation("markers", f"{what}: markers {sorted(g[:3] for g in got)[:4]}, receivers {key[:4]}")
    at = {(nm, row[0], row[1]): row[2] for nm, row in zip(names, rows)}
    sized = sorted((at[g[:3]], g[3]) for g in got if at[g[:3]] > 0)
    for (i1, s1), (i2, s2) in zip(sized, sized[1:]):
        if s1 < s2 - 1e-9 * s2:
            raise Violation("marker-size", f"{what}: interval {i1} has size {s1}, the larger interval {i2} has {s2}")
    ctx.n["markers_compared"] += n
    ctx.n["marker_sizes_compared"] += len(sized)
    ctx.distinct(rows)
    plt.close("all")


# ---------------------------------------------------------------- command-line modules that plot

def summary():
    """artists of all open figures, comparable and picklable"""
    out = []
    for i in plt.get_fignums():
        for ax in plt.figure(i).axes:
            leg = ax.get_legend()
            out.append((ax.get_ylabel(), ax.get_title(), [t.get_text() for t in leg.get_texts()] if leg else [],
                        [(str(ln.get_label()), np.asarray(ln.get_xdata(orig=True)).astype(str).tolist(), np.asarray(ln.get_ydata(orig=True)).astype(str).tolist()) for ln in ax.get_lines()],
                        sorted((str(c.get_label()), float(o[1]), float(o[0])) for c in ax.collections if isinstance(c, PathCollection) for o in np.asarray(c.get_offsets(), float))))
    return out


def cli_fig(module, argv, cwd, env):
    plt.close("all")
    return cli(module, argv, cwd, env), summary()


def api_fig(src, kw):
    import warnings
    plt.close("all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            grp.timeseries(gr.load(src, **kw))
        except Exception as e:
            return f"{type(e).__name__}: {e}"
    return summary()


def run_fig(ctx, fn, *a):
    x = pristine().do(fn, *a)
    if isinstance(x, tuple) and x[0] == "died":
        raise Violation("tool-died", f"{a[:2]}: {x[1]}")
    return x


def c31_read(ctx: Ctx):
    """read --plot draws what timeseries draws for the same options"""
    r = ctx.rng
    pristine()
    kind, m, text, _ = small_file(ctx)
    if kind.startswith("obs"):
        plotted(r, m)
        text = wl.obs_text(ctx, m)
    name = {"o": "site0010.10o", "n": "site0010.10n", "s": "orbit.sp3"}[kind[0]]
    src = ctx.write("in/" + name, text)
    groups, kw = rand_flags(ctx, kind, m)
    groups.insert(r.randrange(len(groups) + 1), [r.choice(["-p", "--plot"])])
    argv = [str(src)] + [x for g in groups for x in g]
    ctx.trace.append(f"python -m georinex.read {' '.join(argv)}")
    (code, out, err), figs = run_fig(ctx, cli_fig, "georinex.read", argv, str(ctx.dir), {"MPLBACKEND": "Agg"})
    want = run_fig(ctx, api_fig, src, kw)
    what = f"read --plot of {kind} {kw}"
    if isinstance(want, str):
        if code == 0:
            raise Violation("tool-accepts", f"{what}: exit 0, but load and timeseries raised {want}")
        if not ("IndexError" in want or "ValueError" in want or "KeyError" in want):
            raise Violation("plot-raised", f"{what}: {want}")
        ctx.n["tool_refusals"] += 1
        return
    if code != 0:
        raise Violation("tool-fails", f"{what}: exit {code}, load and timeseries succeed: {err[-600:]}")
    if figs != want:
        raise Violation("tool-figures", f"{what}: figures {[(f[0], f[2]) for f in figs]}, timeseries gives {[(f[0], f[2]) for f in want]}")
    ctx.n["tool_plots"] += 1
    ctx.n["tool_figures"] += len(figs)
    ctx.distinct(text, argv)


def c31_map(ctx: Ctx):
    """loc of a directory: one marker per file with a position"""
    r = ctx.rng
    pristine()
    want = []
    for i in range(r.choice([1, 2, 4])):
        v = r.choice([2, 3])
        m = wl.gen_pair(ctx, v, max_sats=2, n_epochs=1, n_types=r.choice([1, 3]))
        name = f"st{i}" + (r.choice(["0010.10o", ".05o"]) if v == 2 else r.choice(["00XXX_R_20100010000_01D_30S_MO.rnx", ".10o"]))
        if r.random() < 0.1:
            m.hdr["interval"] = 0.0
        ctx.write("d/" + name, wl.obs_text(ctx, m))
        if m.hdr.get("position") and math.hypot(*m.hdr["position"]) > 1:
            want.append((name, *geodetic(*m.hdr["position"])))
        elif m.hdr.get("position"):
            return
    argv = [str(ctx.dir / "d")]
    ctx.trace.append(f"python -m georinex.loc {' '.join(argv)}")
    (code, out, err), figs = run_fig(ctx, cli_fig, "georinex.loc", argv, str(ctx.dir), {"MPLBACKEND": "Agg"})
    if code != 0:
        raise Violation("tool-fails", f"loc: exit {code}: {err[-800:]}")
    if len(figs) != 1:
        raise Violation("loc-figures", f"loc: {len(figs)} figures")
    got = figs[0][4]
    if [g[0] for g in got] != sorted(w[0] for w in want):
        raise Violation("markers", f"loc: markers {got}, files with a position {want}")
    for g, w in zip(got, sorted(want)):
        if abs(w[3]) < 50e3 and math.dist(vec(*g[1:]), vec(*w[1:3])) > 1e-7:
            raise Violation("marker-place", f"loc: {g[0]} drawn at {g[1:]}, it is at {w[1:3]}")
    ctx.n["maps"] += 1
    ctx.n["map_markers"] += len(got)
    ctx.distinct([x for x in want])


def example_fig(argv, cwd):
    """run the plotting example -> exit code, stderr, what each axes shows as (title, {(satellite, time): value})"""
    from matplotlib.collections import QuadMesh
    plt.close("all")
    shown = []
    code, out, err = cli("georinex.plot", argv, cwd, {"MPLBACKEND": "Agg"})
    for i in plt.get_fignums():
        f = plt.figure(i)
        st = f._suptitle.get_text() if f._suptitle else ""
        for ax in f.axes:
            if not ax.get_title():
                continue
            cells = []
            for ln in ax.get_lines():
                if np.asarray(ln.get_xdata(orig=True)).dtype.kind not in "Mfi":  # one epoch: drawn over the satellites
                    continue
                cells += [(str(ln.get_label()), t, float(y)) for t, y in zip(as_us(ln.get_xdata(orig=True)), np.asarray(ln.get_ydata(orig=True), float)) if math.isfinite(y)]
            meshes = [np.ma.filled(np.ma.asarray(c.get_array(), float), np.nan) for c in ax.collections if isinstance(c, QuadMesh)]
            shown.append((st, ax.get_title(), cells, [(a.shape, a.ravel().tolist()) for a in meshes]))
    return code, err, shown


def c31_example(ctx: Ctx):
    """the plotting example shows the requested measurements of the requested GPS satellites in the requested time"""
    r = ctx.rng
    pristine()
    for _ in range(8):
        v = r.choice([2, 3])
        m = wl.gen_pair(ctx, v, n_epochs=r.choice([3, 5, 9, 15]), max_sats=r.choice([3, 9, 20]), n_types=r.choice([None, 1, 3, 10]))
        if sum(any(sv[0] == "G" for sv, _ in e.sats) for e in m.epochs) >= 3:
            break
    plotted(r, m)
    name = r.choice(["site0010.10o", "a.b.05o"]) if v == 2 else r.choice(["SITE00XXX_R_20100010000_01D_30S_MO.rnx", "s.10o"])
    src = ctx.write("in/" + name, wl.obs_text(ctx, m))
    try:
        ds = gr.load(src, use={"G"})
    except (IndexError, KeyError, ValueError):  # fast mode may refuse, C12; no GPS satellite
        return
    if ds is None or not hasattr(ds, "sv") or ds.sv.size == 0:
        return
    ts = oracle.times_us(ds)
    if len(set(ts)) != len(ts) or sorted(ts) != ts:
        return
    have = [str(s) for s in ds.sv.values.tolist()]
    svs = r.sample(have, min(len(have), r.choice([1, 1, 1, 2, 3])))
    names = [str(x) for x in ds.data_vars if ds[x].dims == ("time", "sv")]
    full = [x for x in names if np.isfinite(ds[x].sel(sv=svs).values.astype(float)).any(axis=1).sum() >= 2]
    what = r.sample(full or names, min(len(full or names), r.choice([1, 2, 4])))
    if r.random() < 0.2:
        what.insert(r.randrange(len(what) + 1), "ZZ9")
        what = what[:4]
    argv = [str(src), *svs, r.choice(["-w", "--what"]), *what]
    lo, hi = min(ts), max(ts)
    if r.random() < 0.5:
        a, b = sorted((r.choice(ts), r.choice(ts)))
        a -= r.choice([0, 0, 500_000])
        b += r.choice([0, 0, 500_000])
        lo, hi = a, b
        argv += [r.choice(["-t", "--tlim"]), us_t(lo).isoformat(), us_t(hi).isoformat()]
    ctx.trace.append(f"python -m georinex.plot {' '.join(argv)}")
    code, err, shown = run_fig(ctx, example_fig, argv, str(ctx.dir))
    tell = f"plot {svs} {what} {argv[-3:]}"
    want = []
    for w in what:
        if w not in ds:
            continue
        a = ds[w].transpose("time", "sv").values.astype(float)
        rows = [i for i, t in enumerate(ts) if lo <= t <= hi and any(np.isfinite(a[i, have.index(s)]) for s in svs)]
        want.append((w, [[(s, ts[i], float(a[i, have.index(s)])) for s in svs] for i in rows]))
    if any(len(rows) < 2 for _, rows in want):  # nothing to draw a line or a mesh from
        return
    if code != 0:
        raise Violation("example-fails", f"{tell}: exit {code}: {err[-800:]} {[(w, len(x)) for w, x in want]}")
    if [s[1] for s in shown] != [w[0] for w in want]:
        raise Violation("example-titles", f"{tell}: {[s[1] for s in shown]}")
    for (st, _, cells, meshes), (w, rows) in zip(shown, want):
        if name not in st or any(s not in st for s in svs):
            raise Violation("example-title", f"{tell}: heading {st!r}")
        ctx.n["example_plots"] += 1
        flat = [c for row in rows for c in row]
        if meshes:
            vals = [np.nan if not math.isfinite(c[2]) else c[2] for c in flat]
            if len(meshes) != 1 or sorted(x for x in meshes[0][1] if math.isfinite(x)) != sorted(x for x in vals if math.isfinite(x)):
                raise Violation("example-values", f"{tell} {w}: mesh {[x[0] for x in meshes]} does not hold the values of the satellites")
            ctx.n["example_cells"] += len(flat)
        else:
            got = sorted((t, y) for _, t, y in cells)
            if got != sorted((t, y) for _, t, y in flat if math.isfinite(y)):
                raise Violation("example-values", f"{tell} {w}: lines show {got[:4]}, the file holds {flat[:4]}")
            ctx.n["example_points"] += len(got)
    ctx.distinct(argv, str(want))


SPECS = {"C31": {
    "workloads": {"obs": (c31_obs, 240, 3000), "nav": (c31_nav, 160, 2500), "both": (c31_both, 60, 800), "loc": (c31_loc, 300, 3000), "read": (c31_read, 100, 1500), "map": (c31_map, 60, 800), "example": (c31_example, 120, 1200)},
    "rule": "one case = one random dataset (read from a file, stream or converted file under options) or location table drawn on an off-screen canvas; the artists of the resulting figures are read back and compared with the data; distinct by file text and options",
    "min_events": {"curves_compared": 500, "curves_with_gaps": 100, "tracks_compared": 200, "markers_compared": 500, "figures_rendered": 8, "tool_plots": 50, "maps": 20, "example_plots": 40},
    "assumptions": ["maps are inspected, not rendered (coastlines need the network)", "off-screen backend"]}}
