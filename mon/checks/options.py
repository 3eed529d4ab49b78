"""C08 window, C09 systems, C10 measurements, C11 decimation, C12 fast/strict"""
from __future__ import annotations
import io
import math
from datetime import timedelta

import georinex as gr

from .. import gen, oracle, wl
from ..core import Crash, Ctx, Violation
from ..gen import t_us, us_t


# ---------------------------------------------------------------- shared

def obs_case(ctx: Ctx, v=None, **k):
    r = ctx.rng
    v = v or r.choice([2, 3])
    m = wl.gen_pair(ctx, v, **k)
    text = wl.obs_text(ctx, m)
    src = io.StringIO(text) if r.random() < 0.15 else ctx.write("site0010.10o", text)
    return m, text, src


def rand_window(rng, times: list[int]):
    """(start, stop) in us; bounds on, next to or between epochs, outside, empty, degenerate"""
    lo, hi = min(times), max(times)
    def pick():
        x = rng.random()
        t = rng.choice(times)
        if x < 0.5:
            return t
        if x < 0.6:
            return t + rng.choice([-1, 1])
        if x < 0.7:
            return t + rng.choice([-1000, 1000, -500000, 500000])
        if x < 0.74:  # a midnight
            day = 86400 * 10**6
            return t // day * day + rng.choice([0, day])
        if x < 0.8:
            return lo - rng.choice([1, 10**6, 86400 * 10**6])
        if x < 0.9:
            return hi + rng.choice([1, 10**6, 86400 * 10**6])
        return rng.randint(lo, hi)
    a, b = pick(), pick()
    return (a, b) if a <= b else (b, a)


def spell_window(rng, w):
    a, b = us_t(w[0]), us_t(w[1])
    x = rng.random()
    if x < 0.5:
        return (a, b) if rng.random() < 0.7 else [a, b]
    sep = rng.choice(["T", " "])
    def s(t):
        if t.microsecond == t.second == t.minute == t.hour == 0 and rng.random() < 0.5:
            return t.strftime("%Y-%m-%d")
        if t.microsecond == 0 and t.second == 0 and rng.random() < 0.3:
            return t.strftime(f"%Y-%m-%d{sep}%H:%M")
        if t.microsecond == 0 and rng.random() < 0.7:
            return t.isoformat(sep=sep)
        return t.isoformat(sep=sep, timespec="microseconds")
    return (s(a), s(b)) if rng.random() < 0.7 else [s(a), s(b)]


def other_opts(ctx, m, p=0.3, no=()):
    """random further options -> (opts, use, meas)"""
    r = ctx.rng
    opts, use, meas = {}, None, None
    if "use" not in no and r.random() < p:
        opts["use"], use = wl.rand_use(r, m.systems, "GRESCJ" if m.v == 2 else "GRESCJI")
    if "meas" not in no and r.random() < p:
        opts["meas"], meas = wl.rand_meas(r, m, nomatch=0.02)
    if "ind" not in no and r.random() < p:
        opts["useindicators"] = True
    if "fast" not in no and m.v == 2 and r.random() < 0.5:
        opts["fast"] = False
    return opts, use, meas


def ref_decimate(times: list[int], interval_us: int) -> list[int]:
    out, mark = [], None
    for t in times:
        if mark is None:
            mark = t
        elif t - mark < interval_us:
            continue
        else:
            mark += interval_us
        out.append(t)
    return out


# ---------------------------------------------------------------- C08

def c08_obs(ctx: Ctx):
    r = ctx.rng
    m, text, src = obs_case(ctx, n_epochs=r.choice([1, 2, 3, 5, 8, 12]))
    for _ in range(2):
        w = rand_window(r, m.times)
        sel = [t for t in m.times if w[0] <= t <= w[1]]
        opts, use, meas = other_opts(ctx, m)
        if r.random() < 0.2:
            k = r.choice([1, 2, 5])
            gaps = [b - a for a, b in zip(m.times, m.times[1:])] or [10**6]
            iv = r.choice(gaps) * k
            opts["interval"] = timedelta(microseconds=iv)
            sel = ref_decimate(sel, iv)
        ds = wl.load(ctx, m, text, src, tlim=spell_window(r, w), **opts)
        want = wl.check_obs(ctx, ds, m, f"load(tlim={[oracle.fmt_us(x) for x in w]}, {opts})", use, meas, times=set(sel), ind=opts.get("useindicators", False))
        ctx.n["windows"] += 1
        ctx.n["windows_empty"] += not sel
        ctx.n["windows_partial"] += 0 < len(sel) < len(m.times)
        ctx.distinct(text, w, sorted(opts))
        ctx.sample = {"seed": ctx.seed, "v": m.v, "epochs": len(m.times), "window": [oracle.fmt_us(x) for x in w], "kept": len(sel), "values": len(want)}


def c08_nav(ctx: Ctx):
    r = ctx.rng
    v = r.choice([2, 2, 3])
    m = gen.gen_nav(r, v, n_recs=r.choice([2, 5, 8, 12]))
    text = wl.nav_text(ctx, m)
    src = io.StringIO(text) if r.random() < 0.15 else ctx.write(wl.nav_name(m), text)
    for _ in range(2):
        w = rand_window(r, m.times)
        opts, use = {}, None
        if v == 3 and r.random() < 0.3:
            opts["use"], use = wl.rand_use(r, sorted({x.sv[0] for x in m.recs}))
        ds = ctx.must("load-raised", f"load(tlim={w}, {opts})", gr.load, src, tlim=spell_window(r, w), **opts)
        # copies are numbered among the records inside the window
        what = f"load(tlim={[oracle.fmt_us(x) for x in w]}, {opts})"
        try:
            wl.check_nav(ctx, ds, nav_part(m, w), what, use)
        except Violation as e:
            early = early_stop(m, w)
            if v != 2 or len(early.recs) == len(nav_part(m, w).recs):
                raise
            wl.check_nav(ctx, ds, early, what + " (early stop)", use)
            ctx.finding("nav2-stops-at-first-record-after-stop", e.msg)
        ctx.n["windows"] += 1
        ctx.n["windows_partial"] += 0 < len([t for t in m.times if w[0] <= t <= w[1]]) < len(m.times)
        ctx.distinct(text, w, sorted(opts))


def nav_part(m, w):
    import copy
    q = copy.copy(m)
    q.recs = [x for x in m.recs if w[0] <= t_us(x.t) <= w[1]]
    return q


def early_stop(m, w):
    """what the recorded defect returns: reading ends at the first record behind the window"""
    import copy
    q = copy.copy(m)
    q.recs = []
    for x in m.recs:
        if t_us(x.t) > w[1]:
            break
        if t_us(x.t) >= w[0]:
            q.recs.append(x)
    return q


def c08_refuse(ctx: Ctx):
    r = ctx.rng
    if r.random() < 0.5:
        m, text, src = obs_case(ctx, n_epochs=3)
        times = m.times
    else:
        m = gen.gen_nav(r, r.choice([2, 3]))
        text = wl.nav_text(ctx, m)
        src = ctx.write(wl.nav_name(m), text)
        times = m.times
    a = r.choice(times)
    b = a - r.choice([1, 1000, 10**6, 60 * 10**6, 86400 * 10**6])
    tl = spell_window(r, (a, b))
    try:
        ctx.call(f"load(tlim={tl})", gr.load, src, tlim=tl)
    except Crash as e:
        if isinstance(e.exc, ValueError):
            ctx.n["reversed_windows_refused"] += 1
            ctx.distinct(text, tl)
            return
        raise Violation("reversed-window", f"stop before start {tl}: raised {type(e.exc).__name__} instead of ValueError: {e.exc}")
    raise Violation("reversed-window", f"stop before start {tl} was accepted")


# ---------------------------------------------------------------- C09

def c09_obs(ctx: Ctx):
    r = ctx.rng
    m, text, src = obs_case(ctx, systems=r.sample("GRESCJ", r.choice([1, 2, 3, 4, 6])))
    for _ in range(2):
        opts, _, meas = other_opts(ctx, m, 0.2, no=("use",))
        arg, use = wl.rand_use(r, m.systems, "GRESCJ" if m.v == 2 else "GRESCJI")
        ds = wl.load(ctx, m, text, src, use=arg, **opts)
        want = wl.check_obs(ctx, ds, m, f"load(use={arg!r}, {opts})", use, meas, ind=opts.get("useindicators", False))
        ctx.n["selections_" + type(arg).__name__] += 1
        ctx.n["selections_proper"] += 0 < len(want) < len(m.values())
        ctx.distinct(text, repr(arg), sorted(opts))
        ctx.sample = {"seed": ctx.seed, "v": m.v, "file_systems": m.systems, "use": repr(arg), "values": len(want)}


def c09_nav(ctx: Ctx):
    r = ctx.rng
    m = gen.gen_nav(r, 3, systems=r.sample("GRECJSI", r.choice([1, 2, 3, 5])))
    text = wl.nav_text(ctx, m)
    src = ctx.write(wl.nav_name(m), text)
    for _ in range(2):
        arg, use = wl.rand_use(r, sorted({x.sv[0] for x in m.recs}))
        ds = ctx.must("load-raised", f"load(use={arg!r})", gr.load, src, use=arg)
        want = wl.check_nav(ctx, ds, m, f"load(use={arg!r})", use)
        ctx.n["selections_" + type(arg).__name__] += 1
        ctx.distinct(text, repr(arg))


def c09_absent(ctx: Ctx):
    """a system that the file does not contain: an error or no data, never other data"""
    r = ctx.rng
    k = r.choice(["obs", "obs", "nav"])
    if k == "obs":
        m, text, src = obs_case(ctx)
        have = set(m.systems) if m.v == 2 else set(m.types)
        pool = [s for s in "GRESCJI" if s not in have and s not in m.systems]
    else:
        m = gen.gen_nav(r, 3)
        text = wl.nav_text(ctx, m)
        src = ctx.write(wl.nav_name(m), text)
        pool = [s for s in "GRECJSI" if s not in {x.sv[0] for x in m.recs}]
    if not pool:
        from ..core import Skip
        raise Skip()
    s = r.choice(pool)
    arg = r.choice([s, [s], {s}])
    try:
        ds = ctx.call(f"load(use={arg!r})", gr.load, src, use=arg)
    except Crash as e:
        if isinstance(e.exc, (LookupError, ValueError)):
            ctx.n["absent_refused"] += 1
            ctx.distinct(text, repr(arg))
            return
        raise
    got = oracle.observe(ds) if "time" in ds.dims and "sv" in ds.dims else {}
    if got:
        k = next(iter(got))
        raise Violation("absent-system", f"load(use={arg!r}) of a file without that system returns {len(got)} values, e.g. {k}")
    if oracle.svlist(ds):
        raise Violation("absent-system", f"load(use={arg!r}) of a file without that system returns satellites {oracle.svlist(ds)[:5]}")
    ctx.n["absent_empty"] += 1
    ctx.distinct(text, repr(arg))


# ---------------------------------------------------------------- C10

def c10(ctx: Ctx):
    r = ctx.rng
    m, text, src = obs_case(ctx, n_types=r.choice([1, 2, 4, 5, 6, 9, 10, 11, 13, 14, 20, 26]))
    for _ in range(2):
        opts, use, _ = other_opts(ctx, m, 0.25, no=("meas",))
        arg, meas = wl.rand_meas(r, m)
        ds = wl.load(ctx, m, text, src, meas=arg, **opts)
        want = wl.check_obs(ctx, ds, m, f"load(meas={arg!r}, {opts})", use, meas, ind=opts.get("useindicators", False))
        ctx.n["selections"] += 1
        ctx.n["selections_proper"] += 0 < len(want) < len(m.values())
        ctx.n["selections_nomatch"] += len(ds.data_vars) == 0
        ctx.distinct(text, repr(arg), sorted(opts))
        ctx.sample = {"seed": ctx.seed, "v": m.v, "types": {k: x[:8] for k, x in m.types.items()}, "meas": repr(arg), "values": len(want)}


# ---------------------------------------------------------------- C11

def c11(ctx: Ctx):
    r = ctx.rng
    n = r.choice([1, 2, 4, 8, 13, 25])
    k = {"n_epochs": n}
    if r.random() < 0.2:  # gaps of hours and days
        t = gen.rand_start(r, 1980, 2077)
        t = t.replace(year=min(t.year, 2078))
        k = {"times": [t]}
        for _ in range(n - 1):
            t += timedelta(seconds=r.choice([3600, 43200, 86400, 86400, 100000, 172800, 604800]))
            k["times"].append(t)
        ctx.n["files_with_gaps_of_days"] += 1
    m, text, src = obs_case(ctx, max_sats=r.choice([3, 9, 14]), **k)
    gaps = [b - a for a, b in zip(m.times, m.times[1:])] or [10**6]
    for _ in range(3):
        g = r.choice(gaps)
        iv = r.choice([0, g, g, 2 * g, 3 * g, g // 2, g * 3 // 2, g + 1, g - 1, 10**6, 30 * 10**6, sum(gaps), sum(gaps) + 1])
        form = r.choice(["timedelta", "float", "int"])
        if form == "timedelta":
            arg = timedelta(microseconds=iv)
        elif form == "int":
            iv = max(1, round(iv / 1e6)) * 10**6
            arg = iv // 10**6
        else:
            arg = iv / 1e6
        opts, use, meas = other_opts(ctx, m, 0.2)
        times = m.times
        if r.random() < 0.4:
            w = rand_window(r, m.times)
            opts["tlim"] = spell_window(r, w)
            times = [t for t in times if w[0] <= t <= w[1]]
        kept = ref_decimate(times, iv)
        ds = wl.load(ctx, m, text, src, interval=arg, **opts)
        want = wl.check_obs(ctx, ds, m, f"load(interval={arg!r}, {opts})", use, meas, times=set(kept), ind=opts.get("useindicators", False))
        ctx.n["decimations"] += 1
        ctx.n["decimations_proper"] += 0 < len(kept) < len(times)
        ctx.n["kept_epochs"] += len(kept)
        ctx.distinct(text, repr(arg), sorted(opts))
        ctx.sample = {"seed": ctx.seed, "v": m.v, "gaps_us": gaps[:6], "interval": repr(arg), "kept": len(kept), "of": len(times), "values": len(want)}


def c11_negative(ctx: Ctx):
    r = ctx.rng
    m, text, src = obs_case(ctx, n_epochs=2, max_sats=8)
    x = r.choice([1e-6, 0.5, 1, 30, 3600])
    arg = r.choice([-x, timedelta(seconds=-x), -int(math.ceil(x))])
    opts = {"fast": False} if r.random() < 0.5 else {}
    try:
        ctx.call(f"load(interval={arg!r})", gr.load, src, interval=arg, **opts)
    except Crash as e:
        if isinstance(e.exc, ValueError):
            ctx.n["negative_refused"] += 1
            ctx.distinct(text, repr(arg))
            return
        raise Violation("negative-interval", f"interval={arg!r}: {type(e.exc).__name__} instead of ValueError: {e.exc}")
    raise Violation("negative-interval", f"interval={arg!r} was accepted")


# ---------------------------------------------------------------- C12

def _fast_strict(ctx: Ctx, m, text, src, opts, use=None, meas=None, times=None):
    b = ctx.must("strict-raised", f"load(fast=False, {opts})", gr.load, src, fast=False, **opts)
    wl.check_obs(ctx, b, m, f"load(fast=False, {opts})", use, meas, times, ind=opts.get("useindicators", False))
    try:
        a = ctx.call(f"load(fast=True, {opts})", gr.load, src, fast=True, **opts)
    except Crash as e:
        msg = str(e.exc)
        if "fast=False" in msg or "strict" in msg:
            if not wl.fast_may_fail(m, text):
                raise Violation("fast-refused", f"load(fast=True, {opts}) refused a file averaging at least six full satellite records per epoch: {msg}")
            ctx.n["fast_refusals"] += 1
            ctx.distinct(text, "refused")
            return
        raise Violation("fast-raised", f"load(fast=True, {opts}) raised {type(e.exc).__name__}: {msg}")
    wl.check_obs(ctx, a, m, f"load(fast=True, {opts})", use, meas, times, ind=opts.get("useindicators", False))
    oracle.same_dataset(ctx, a, b, f"fast vs strict {opts}", key="fast-strict", drop=("fast_processing",))
    ctx.n["fast_used" if a.attrs.get("fast_processing") == 1 else "fast_disabled"] += 1
    ctx.n["pairs"] += 1
    ctx.distinct(text, sorted(opts))
    ctx.sample = {"seed": ctx.seed, "epochs": len(m.epochs), "sats": [len(e.sats) for e in m.epochs][:10], "options": {k: str(x) for k, x in opts.items()},
                  "fast_processing": a.attrs.get("fast_processing")}


def c12_any(ctx: Ctx):
    r = ctx.rng
    m, text, src = obs_case(ctx, 2, n_epochs=r.choice([1, 2, 5, 10, 20]))
    opts, use, meas = other_opts(ctx, m, 0.2, no=("fast",))
    times = None
    if r.random() < 0.3:
        w = rand_window(r, m.times)
        opts["tlim"] = (us_t(w[0]), us_t(w[1]))
        times = [t for t in m.times if w[0] <= t <= w[1]]
    if r.random() < 0.3:
        gaps = [b - a for a, b in zip(m.times, m.times[1:])] or [10**6]
        iv = r.choice(gaps) * r.choice([1, 2, 3])
        opts["interval"] = timedelta(microseconds=iv)
        times = ref_decimate(m.times if times is None else times, iv)
    _fast_strict(ctx, m, text, src, opts, use, meas, None if times is None else set(times))


def c12_margin(ctx: Ctx):
    """exactly at the speculation's margin: 6 and 7 satellites, full records, many epochs, few types"""
    r = ctx.rng
    n = r.choice([6, 6, 7, 8])
    m, text, src = obs_case(ctx, 2, n_epochs=r.choice([30, 80, 150]), n_types=r.choice([5, 5, 10, 15]), min_sats=n, max_sats=n, systems=r.choice([["G"], ["G", "R"], ["E", "C"]]),
                            full=True, stable_sats=True)
    _fast_strict(ctx, m, text, src, {})


def c12_alike(ctx: Ctx):
    """last line of every record short: these are not mostly empty records"""
    r = ctx.rng
    n = r.choice([6, 6, 7, 9])
    m = wl.gen_pair(ctx, 2, n_epochs=r.choice([40, 80, 150]), n_types=r.choice([6, 7, 8, 11, 12, 13, 16]), min_sats=n, max_sats=n, systems=r.choice([["G"], ["G", "R"], ["E", "C"]]), full=True, stable_sats=True)
    lay = gen.rand_layout(r, m)
    lay.trim = "trim"
    text = wl.obs_text(ctx, m, lay)
    _fast_strict(ctx, m, text, io.StringIO(text) if r.random() < 0.3 else ctx.write("site0010.10o", text), {})


def c12_few(ctx: Ctx):
    """few satellites and many epochs: speculation must refuse or be right"""
    r = ctx.rng
    m, text, src = obs_case(ctx, 2, n_epochs=r.choice([20, 60, 120]), n_types=r.choice([1, 2, 4, 5, 6, 9]), max_sats=r.choice([1, 2, 3, 5]), min_sats=1)
    _fast_strict(ctx, m, text, src, {})


def c12_big(ctx: Ctx):
    r = ctx.rng
    m, text, src = obs_case(ctx, 2, n_epochs=r.choice([500, 1200, 2881]), n_types=r.choice([5, 6, 10]), min_sats=6, max_sats=r.choice([7, 9]), systems=r.choice([["G"], ["G", "R"]]))
    _fast_strict(ctx, m, text, src, {})


_R = "; distinct by file text and options"
_A = ["text rendered by mon.gen follows the RINEX column tables",
      "RINEX 2 speculative mode may refuse files that average under six full satellite records per epoch; they are then read strictly"]
from . import real  # noqa: E402

SPECS = {
    "C08": {"workloads": {"obs": (c08_obs, 500, 12000), "nav": (c08_nav, 400, 8000), "refuse": (c08_refuse, 100, 1000), "corpus": (real.c_opt("tlim"), 60, 1500)},
            "rule": "one case = a random OBS/NAV file with two random windows (bounds on, next to, between, outside epochs; datetime or ISO strings; other options); the result must be the model's in-window part" + _R,
            "min_events": {"windows_partial": 300, "windows_empty": 50, "reversed_windows_refused": 50}, "assumptions": _A},
    "C09": {"workloads": {"obs": (c09_obs, 500, 12000), "nav": (c09_nav, 250, 5000), "absent": (c09_absent, 120, 2000), "corpus": (real.c_opt("use"), 60, 1500)},
            "rule": "one case = a random file with two random system selections in a random spelling; the result must be the model's part for these systems" + _R,
            "min_events": {"selections_proper": 150, "selections_str": 50, "selections_set": 50, "selections_list": 50, "selections_tuple": 50}, "assumptions": _A},
    "C10": {"workloads": {"obs": (c10, 600, 14000), "corpus": (real.c_opt("meas"), 60, 1500)},
            "rule": "one case = a random OBS file with two random measurement selections (names and prefixes, any order); the result must be the model's part for these types" + _R,
            "min_events": {"selections_proper": 300, "selections_nomatch": 20}, "assumptions": _A},
    "C11": {"workloads": {"obs": (c11, 400, 9000), "negative": (c11_negative, 60, 600), "corpus": (real.c_opt("interval"), 60, 1500), "corpus_any": (real.c_opt("any"), 40, 1500)},
            "rule": "one case = a random OBS file with three random intervals, alone or in a window; kept epochs follow the reference rule computed on integer microseconds and carry their own values" + _R,
            "min_events": {"decimations_proper": 200, "negative_refused": 40}, "assumptions": _A},
    "C12": {"workloads": {"any": (c12_any, 400, 9000), "margin": (c12_margin, 20, 400), "alike": (c12_alike, 24, 500), "few": (c12_few, 60, 1200), "big": (c12_big, 8, 150)},
            "rule": "one case = a random RINEX 2 OBS file and option set read in speculative and strict mode; both compared with the model and with each other" + _R,
            "min_events": {"fast_used": 100, "fast_disabled": 20, "fast_refusals": 10}, "assumptions": _A},
}
