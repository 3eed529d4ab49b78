"""C07 exact timestamps, C18 listed times = loaded times"""
from __future__ import annotations
import io
import re
from datetime import datetime, timedelta

import georinex as gr

from .. import gen, oracle, wl
from ..core import Ctx, Violation
from ..gen import t_us, us_t
from .robust import event_inserts


def hard_times(rng, n, lo, hi, unit=1):
    """increasing times with awkward fractions and calendar boundaries; unit: smallest step in us"""
    out = set()
    while len(out) < n:
        x = rng.random()
        y = rng.randint(lo, hi)
        if x < 0.25:
            t = datetime(y, rng.randint(1, 12), 1) - timedelta(microseconds=rng.choice([1, 1000, 100000, 1000000]))
        elif x < 0.4:
            t = datetime(y, rng.choice([1, 2, 3, 12]), rng.choice([1, 28])) + timedelta(seconds=rng.randrange(86400), days=rng.choice([0, 0, 1, 2, 3]))
        else:
            t = datetime(y, 1, 1) + timedelta(days=rng.randrange(365), seconds=rng.randrange(86400))
        if rng.random() < 0.8:
            t = t.replace(microsecond=rng.choice([rng.randrange(10**6), rng.randrange(1000) * 1000, rng.choice([1, 9, 29, 57, 58, 113, 999999, 290000, 580000, 70000, 140000])]))
        if not lo <= t.year <= hi:
            continue
        us = t_us(t)
        out.add(us - us % unit)
    return [us_t(x) for x in sorted(out)]


def _name(kind):
    return {"obs": "site0010.10o"}.get(kind, "site.rnx")


def _check_list(ctx, got, want, what):
    g = oracle.arr_us(got)
    ctx.n["times_compared"] += len(want)
    if g != want:
        bad = [(oracle.fmt_us(a), oracle.fmt_us(b)) for a, b in zip(g, want) if a != b]
        raise Violation("listed-times", f"{what}: {len(g)} times, file has {len(want)}; first differences (got, written): {bad[:3]}")


def c07_obs(ctx: Ctx):
    r = ctx.rng
    v = r.choice([2, 3])
    times = hard_times(r, r.choice([1, 2, 4, 6]), 1980, 2079 if v == 2 else 2099)
    m = wl.gen_pair(ctx, v, times=times, max_sats=r.choice([1, 3, 9]), n_types=r.choice([1, 2, 4]), missing=0.0)
    m.hdr["t1"] = times[-1]
    text = wl.obs_text(ctx, m)
    p = ctx.write("site0010.10o", text)
    ds = wl.load(ctx, m, text, p, **({"fast": False} if v == 2 and r.random() < 0.5 else {}))
    data_t = sorted({k[1] for k in m.values()})
    got = sorted(oracle.times_us(ds))
    ctx.n["times_compared"] += len(data_t)
    if got != data_t and not set(data_t) <= set(got) <= set(m.times):
        raise Violation("loaded-times", f"loaded times {[oracle.fmt_us(x) for x in got if x not in m.times][:3]} are not written; missing {[oracle.fmt_us(x) for x in data_t if x not in got][:3]}")
    _check_list(ctx, ctx.must("gettime-raised", "gettime", gr.gettime, p), m.times, "gettime")
    hdr = ctx.must("header-raised", "rinexheader", gr.rinexheader, p)
    if t_us(hdr["t0"]) != m.times[0]:
        raise Violation("header-t0", f"t0 {hdr['t0']} but TIME OF FIRST OBS is {times[0]}")
    if v == 2 and t_us(hdr["t1"]) != m.times[-1]:
        raise Violation("header-t1", f"t1 {hdr['t1']} but TIME OF LAST OBS is {times[-1]}")
    ctx.n["header_times"] += 1
    ctx.distinct(text)
    ctx.sample = {"seed": ctx.seed, "v": v, "times": [str(t) for t in times]}


def c07_nav(ctx: Ctx):
    r = ctx.rng
    v = r.choice([2, 3])
    m = gen.gen_nav(r, v, n_recs=r.choice([1, 3, 5]), dups=False)
    times = hard_times(r, len(m.recs), 1980, 2079 if v == 2 else 2099, 100000 if v == 2 else 10**6)
    if v == 3:
        times = [t.replace(microsecond=0) for t in times]
        times = sorted(set(times))
    r.shuffle(times)
    m.recs = m.recs[:len(times)]
    for rec, t in zip(m.recs, times):
        rec.t = t
    text = wl.nav_text(ctx, m)
    p = ctx.write(wl.nav_name(m), text)
    ds = ctx.must("load-raised", "load", gr.load, p)
    got = sorted(oracle.times_us(ds))
    if got != m.times:
        raise Violation("loaded-times", f"loaded {[oracle.fmt_us(x) for x in got]} written {[oracle.fmt_us(x) for x in m.times]}")
    wl.check_nav(ctx, ds, m, "load")
    _check_list(ctx, ctx.must("gettime-raised", "gettime", gr.gettime, p), m.times, "gettime")
    ctx.distinct(text)


def c07_sp3(ctx: Ctx):
    from .sp3 import check_sp3
    r = ctx.rng
    m = gen.gen_sp3(r, nsv=r.choice([1, 3]))
    times = hard_times(r, len(m.epochs), 1980, 2099)
    if r.random() < 0.4:
        m.hdr["carry"] = True
        times = sorted({r.choice([t.replace(second=0), t.replace(minute=0, second=0), t.replace(hour=0, minute=0, second=0, microsecond=0)]) for t in times})
        m.epochs = m.epochs[:len(times)]
        ctx.n["files_with_carried_epochs"] += 1
    m.epochs = [(t, rows) for t, (_, rows) in zip(times, m.epochs)]
    text = gen.render_sp3(m, r)
    p = ctx.write("a.sp3", text)
    ds = ctx.must("load-raised", "load", gr.load, p)
    check_sp3(ctx, ds, m, "load")
    ctx.n["times_compared"] += len(times)
    t0 = int(ds["t0"].values.astype("datetime64[us]").astype("int64"))
    if t0 != m.times[0]:
        raise Violation("header-t0", f"t0 {oracle.fmt_us(t0)} but line 1 says {times[0]}")
    ctx.distinct(text)


def c07_years(ctx: Ctx):
    """every two-digit year, every month, month ends"""
    r = ctx.rng
    times = []
    y = 1980 + (int(ctx.seed.rsplit(":", 1)[1]) % 100)
    for mo in range(1, 13):
        times.append(datetime(y, mo, 1))
        last = (datetime(y + mo // 12, mo % 12 + 1, 1) - timedelta(days=1))
        times.append(last.replace(hour=23, minute=59, second=59, microsecond=r.randrange(10**6)))
    for kind in ("obs2", "obs3", "nav2"):
        if kind.startswith("obs"):
            m = wl.gen_pair(ctx, int(kind[3]), times=times, max_sats=1, n_types=1, missing=0.0)
            text = wl.obs_text(ctx, m)
            p = ctx.write(f"{kind}.10o", text)
            _check_list(ctx, ctx.must("gettime-raised", "gettime", gr.gettime, p), m.times, f"gettime({kind})")
            ds = wl.load(ctx, m, text, p, **({"fast": False} if kind == "obs2" else {}))
            wl.check_obs(ctx, ds, m, kind)
        else:
            m = gen.gen_nav(r, 2, n_recs=24, dups=False)
            ts = [t.replace(microsecond=t.microsecond // 100000 * 100000) for t in times]
            m.recs = m.recs[:len(ts)]
            for rec, t in zip(m.recs, ts):
                rec.t = t
            text = wl.nav_text(ctx, m)
            p = ctx.write(f"{kind}.10n", text)
            _check_list(ctx, ctx.must("gettime-raised", "gettime", gr.gettime, p), m.times, "gettime(nav2)")
            wl.check_nav(ctx, ctx.must("load-raised", "load", gr.load, p), m, "load(nav2)")
    ctx.n["years_seen"] += 1
    ctx.distinct(y)


def c07_subus(ctx: Ctx):
    """epochs written with digits behind the microsecond are within a microsecond, and none is lost"""
    r = ctx.rng
    kind = r.choice(["obs2", "obs3", "sp3"])
    pat = {"obs2": r"(?m)^( \d\d [ \d]\d [ \d]\d [ \d]\d [ \d]\d[ \d]{3}\.\d{6})(0)(?=  [0-6])", "obs3": r"(?m)^(> \d{4} \d\d \d\d \d\d \d\d[ \d]{3}\.\d{6})(0)", "sp3": r"(?m)^(\*  \d{4} [ \d]\d [ \d]\d [ \d]\d [ \d]\d [ \d]\d\.\d{6})(00)"}[kind]
    times = hard_times(r, r.choice([1, 3, 5]), 1980, 2079)
    times = sorted({t.replace(microsecond=999999) if r.random() < 0.3 else t for t in times})
    if kind == "sp3":
        m = gen.gen_sp3(r, nsv=2)
        m.hdr["carry"] = False
        m.epochs = m.epochs[:len(times)]
        times = times[:len(m.epochs)]
        m.epochs = [(t, rows) for t, (_, rows) in zip(times, m.epochs)]
        text, name = gen.render_sp3(m, r), "a.sp3"
    else:
        m = wl.gen_pair(ctx, int(kind[3]), times=times, max_sats=3, n_types=2, missing=0.0)
        text, name = wl.obs_text(ctx, m), "site0010.10o"
    digits = []

    def sub(x):
        digits.append(r.choice("0123456789") + (r.choice("0599") if kind == "sp3" else ""))
        return x.group(1) + digits[-1]
    text = re.sub(pat, sub, text)
    if len(digits) != len(times):
        raise AssertionError((kind, len(digits), len(times)))
    p = ctx.write(name, text)
    got = {"loaded": sorted(oracle.times_us(ctx.must("load-raised", "load", gr.load, p, **({"fast": False} if kind == "obs2" else {}))))}
    if kind != "sp3":
        got["listed"] = oracle.arr_us(ctx.must("gettime-raised", "gettime", gr.gettime, p))
    want = [t_us(t) for t in times]
    data = {x[1] for x in m.values()} if kind != "sp3" else set(want)
    for k, g in got.items():
        lost = [w for w in (want if k == "listed" else data) if not any(w <= x <= w + 1 for x in g)]
        odd = [x for x in g if not any(w <= x <= w + 1 for w in want)]
        if lost or odd or k == "listed" and len(g) != len(want):
            raise Violation("sub-microsecond", f"{k} {[oracle.fmt_us(x) for x in g]} written {[f'{oracle.fmt_us(w)} + 0.{d} us' for w, d in zip(want, digits)]}")
        ctx.n["epochs_with_sub_microsecond_digits"] += len(g)
    ctx.distinct(text)


# ---------------------------------------------------------------- C18

def c18_obs(ctx: Ctx):
    r = ctx.rng
    v = r.choice([2, 3])
    m = wl.gen_pair(ctx, v, n_epochs=r.choice([1, 2, 4, 7, 12]))
    ins = event_inserts(r, m) if r.random() < 0.4 else None
    text = wl.obs_text(ctx, m, inserts=ins)
    src = io.StringIO(text) if r.random() < 0.2 else ctx.write("site0010.10o", text)
    listed = ctx.must("gettime-raised", "gettime", gr.gettime, src)
    _check_list(ctx, listed, m.times, "gettime")
    opts = {"fast": False} if v == 2 and r.random() < 0.5 else {}
    ds = wl.load(ctx, m, text, src, **opts)
    wl.check_obs(ctx, ds, m, f"load({opts})")
    _agree(ctx, listed, ds, {k[1] for k in m.values()})
    ctx.n["files_with_events"] += ins is not None
    ctx.distinct(text)
    ctx.sample = {"seed": ctx.seed, "v": v, "listed": len(m.times), "loaded": int(ds.sizes.get("time", 0)), "events": {k: len(x) for k, x in (ins or {}).items()}}


def c18_order(ctx: Ctx):
    """listing only: epochs out of order or written twice are listed as they are written"""
    r = ctx.rng
    v = r.choice([2, 3])
    m = wl.gen_pair(ctx, v, n_epochs=r.choice([2, 3, 5, 8]), max_sats=r.choice([2, 13]))
    for _ in range(r.choice([1, 2])):
        i, j = r.randrange(len(m.epochs)), r.randrange(len(m.epochs))
        if r.random() < 0.5:
            m.epochs[i].t = m.epochs[j].t
        else:
            m.epochs[i].t, m.epochs[j].t = m.epochs[j].t, m.epochs[i].t
    text = wl.obs_text(ctx, m)
    src = io.StringIO(text) if r.random() < 0.2 else ctx.write("site0010.10o", text)
    _check_list(ctx, ctx.must("gettime-raised", "gettime", gr.gettime, src), m.times, "gettime of unordered epochs")
    ctx.n["unordered_files"] += m.times != sorted(set(m.times))
    ctx.distinct(text)


def _agree(ctx, listed, ds, data_times):
    lt, dt = set(oracle.arr_us(listed)), set(oracle.times_us(ds))
    if dt - lt:
        raise Violation("loaded-not-listed", f"loaded times not listed: {[oracle.fmt_us(x) for x in sorted(dt - lt)][:3]}")
    if (lt & data_times) - dt:
        raise Violation("listed-not-loaded", f"listed times with data not loaded: {[oracle.fmt_us(x) for x in sorted((lt & data_times) - dt)][:3]}")


def c18_big(ctx: Ctx):
    """thousands of epochs"""
    r = ctx.rng
    v = r.choice([2, 3])
    m = wl.gen_pair(ctx, v, n_epochs=r.choice([1000, 2881]), max_sats=r.choice([1, 3, 13]), n_types=r.choice([1, 6]))
    text = wl.obs_text(ctx, m, inserts=event_inserts(r, m, 0.02))
    p = ctx.write("site0010.10o", text)
    listed = ctx.must("gettime-raised", "gettime", gr.gettime, p)
    _check_list(ctx, listed, m.times, "gettime of a long file")
    if v == 2:
        ds = wl.load(ctx, m, text, p, fast=False)
        wl.check_obs(ctx, ds, m, "load(long file)")
        _agree(ctx, listed, ds, {k[1] for k in m.values()})
    ctx.distinct(text)


def c18_nav(ctx: Ctx):
    r = ctx.rng
    m = gen.gen_nav(r, r.choice([2, 3]))
    text = wl.nav_text(ctx, m)
    src = io.StringIO(text) if r.random() < 0.2 else ctx.write(wl.nav_name(m), text)
    listed = ctx.must("gettime-raised", "gettime", gr.gettime, src)
    _check_list(ctx, listed, m.times, "gettime")
    ds = ctx.must("load-raised", "load", gr.load, src)
    _agree(ctx, listed, ds, set(m.times))
    ctx.distinct(text)


_A = ["text rendered by mon.gen follows the RINEX / SP3 column tables"]
from . import real  # noqa: E402

SPECS = {
    "C07": {"workloads": {"obs": (c07_obs, 500, 12000), "nav": (c07_nav, 300, 6000), "sp3": (c07_sp3, 150, 3000), "years": (c07_years, 100, 200), "subus": (c07_subus, 100, 2000)},
            "rule": "one case = one random file whose epochs have awkward fractions and calendar boundaries; load(), gettime() and header times compared to the microsecond; 'years' sweeps every two-digit year; distinct by file text",
            "min_events": {"files_with_carried_epochs": 20, "times_compared": 5000, "header_times": 300, "years_seen": 100, "epochs_with_sub_microsecond_digits": 100}, "assumptions": _A},
    "C18": {"workloads": {"obs": (c18_obs, 500, 12000), "nav": (c18_nav, 400, 8000), "order": (c18_order, 80, 1500), "big": (c18_big, 6, 150), "corpus": (real.c18, 100, 2500)},
            "rule": "one case = one random OBS/NAV file (40 % of OBS with event records); gettime() compared with the model and with load().time; distinct by file text",
            "min_events": {"times_compared": 3000, "files_with_events": 100, "unordered_files": 30}, "assumptions": _A},
}
