"""helpers shared by the workloads: drive georinex on a generated model and know what to expect"""
from __future__ import annotations
import io
import math
import random

import georinex as gr

from . import gen, oracle
from .core import Crash, Ctx, Violation
from .gen import t_us


def gen_pair(ctx: Ctx, v: int, **k):
    m = gen.gen_obs(ctx.rng, v, **k)
    if v == 2 and m.sysletter == "G" and ctx.rng.random() < 0.3:
        m.hdr["blank_sys"] = True
    if len(m.epochs) >= 20 and ctx.rng.random() < 0.6:
        rise_and_set(ctx, m)
    return m


def rise_and_set(ctx, m):
    """some satellites are observed only during one stretch of the epochs"""
    r, n = ctx.rng, len(m.epochs)
    svs = sorted({sv for e in m.epochs for sv, _ in e.sats})
    for sv in r.sample(svs, r.randint(0, len(svs) - 1)):
        a = r.choice([0, r.randrange(n), n - 1 - r.randrange(min(n, 4))])
        b = r.choice([n, r.randint(a + 1, n)])
        for i, e in enumerate(m.epochs):
            if not a <= i < b and len(e.sats) > 1:
                e.sats = [x for x in e.sats if x[0] != sv]
    ctx.n["files_with_rising_satellites"] += 1


def obs_text(ctx, m, lay=None, **k) -> str:
    return gen.render_obs(m, ctx.rng, lay or gen.rand_layout(ctx.rng, m), **k)


def fast_may_fail(m, text: str) -> bool:
    """body averages fewer than six full-width satellite records per epoch"""
    nl = math.ceil(len(m.types["*"]) / 5)
    if sum(len(e.sats) for e in m.epochs) >= 6 * len(m.epochs) and _alike(m, text.splitlines()[m.nheader:], nl):
        return False
    body = sum(len(x) + 1 for x in text.splitlines()[m.nheader:])
    return body < 80 * 6 * nl * len(m.epochs)


def _alike(m, lines, nl) -> bool:
    """every satellite record has at least as many full-length lines as the first record of the file"""
    i, k = 0, None
    for e in m.epochs:
        i += max(1, math.ceil(len(e.sats) / 12))
        for _ in e.sats:
            n = sum(len(x) >= 78 for x in lines[i:i + nl])
            k = n if k is None else k
            if n < k:
                return False
            i += nl
    return i == len(lines) and k is not None and k <= 8


def load(ctx: Ctx, m, text, src, what="load", **opts):
    """gr.load; the documented escape of RINEX 2 speculative preallocation is taken when it is legitimate"""
    desc = f"{what}({_short(src)}, {opts})"
    try:
        return ctx.call(desc, gr.load, src, **opts)
    except Crash as e:
        if isinstance(m, gen.ObsFile) and m.v == 2 and opts.get("fast", True) and isinstance(e.exc, IndexError) and \
                ("fast=False" in str(e.exc) or "strict" in str(e.exc)):
            if not fast_may_fail(m, text):
                raise Violation("fast-refused", f"{desc}: {e.exc}: refused although the epochs average at least six full satellite records")
            ctx.n["fast_refusals"] += 1
            opts["fast"] = False
            return ctx.must("load-raised", f"{what}({_short(src)}, {opts})", gr.load, src, **opts)
        import traceback
        tb = "".join(traceback.format_exception(e.exc)[-3:])
        raise Violation("load-raised", f"{desc} raised {type(e.exc).__name__}: {e.exc}\n{tb}") from e


def _short(src):
    return "<stream>" if isinstance(src, io.StringIO) else getattr(src, "name", str(src))


def select(vals: dict, use=None, meas=None, times=None) -> dict:
    out = {}
    for k, x in vals.items():
        if use and k[2][0] not in use:
            continue
        if meas and not any(base_of(k[0]).startswith(p) for p in meas):
            continue
        if times is not None and k[1] not in times:
            continue
        out[k] = x
    return out


def base_of(name: str) -> str:
    return name[:-3] if name.endswith(("lli", "ssi")) else name


def check_obs(ctx: Ctx, ds, m, what, use=None, meas=None, times=None, key="values", ind=False):
    """the dataset is exactly the selected part of the model"""
    want = select(m.values(), use, meas, times)
    got = oracle.observe(ds)
    gv = {k: x for k, x in got.items() if not k[0].endswith(("lli", "ssi"))}
    gi = {k: x for k, x in got.items() if k[0].endswith(("lli", "ssi"))}
    oracle.compare(ctx, gv, want, what, key)
    declared = set()
    if m.v == 2:
        declared = set(m.types["*"])
    else:
        for s, tl in m.types.items():
            if not use or s in use:
                declared |= set(tl)
    if meas:
        declared = {x for x in declared if any(x.startswith(p) for p in meas)}
    names = {str(x) for x in ds.data_vars}
    bad = {x for x in names if base_of(x) not in declared}
    if bad:
        raise Violation("type-invented", f"{what}: variables {sorted(bad)} but selected types are {sorted(declared)}")
    if not ind and any(x.endswith(("lli", "ssi")) for x in names):
        raise Violation("indicators-unrequested", f"{what}: indicator variables {sorted(names - declared)} without being requested")
    ft = set(m.times) if times is None else set(times)
    fs = {s for s in m.svs if not use or s[0] in use}
    oracle.check_axes(ctx, ds, ft, fs, {k[1] for k in want}, {k[2] for k in want}, what)
    if ind:
        check_indicators(ctx, gi, names, m, what, use, meas, times)
    return want


def check_indicators(ctx, gi, names, m, what, use, meas, times):
    lli, ssi = m.indicators()
    truth = {}
    for (k, t, s), x in lli.items():
        truth[(k + "lli", t, s)] = x
    for (k, t, s), x in ssi.items():
        truth[(k + "ssi", t, s)] = x
    truth = select(truth, use, meas, times)
    ctx.n["indicators_compared"] += len(truth)
    for k, x in gi.items():
        if k not in truth:
            raise Violation("indicator-invented", f"{what}: {k[0]} = {x} at {oracle.fmt_us(k[1])} {k[2]}, nothing is written there")
        if truth[k] != x:
            raise Violation("indicator-wrong", f"{what}: {k[0]} at {oracle.fmt_us(k[1])} {k[2]}: got {x}, written {truth[k]}")
    for k, x in truth.items():
        b = base_of(k[0])
        need = (b[0] != "S") if k[0].endswith("ssi") else (b[0] == "L" and b[1] in "12")
        if need and k not in gi:
            raise Violation("indicator-lost", f"{what}: {k[0]} = {x} at {oracle.fmt_us(k[1])} {k[2]} is missing")


def sig_obs(m, text):
    return ("obs", m.v, len(m.epochs), sorted(m.systems), text[:4000])


def rand_use(rng: random.Random, systems, letters="GRESCJI"):
    """a selection, in some spelling; -> (argument, set of letters)"""
    k = rng.randint(1, len(letters)) if rng.random() < 0.5 else rng.randint(1, max(1, len(systems)))
    sel = rng.sample(letters, min(k, len(letters)))
    if not set(sel) & set(systems):
        sel[0] = rng.choice(list(systems))
    form = rng.choice(["list", "tuple", "set", "str"])
    if form == "str" or len(sel) == 1 and rng.random() < 0.5:
        s = next(x for x in sel if x in systems)
        return s, {s}
    return {"list": list, "tuple": tuple, "set": set}.get(form, list)(sel), set(sel)


def rand_meas(rng: random.Random, m, nomatch=0.1):
    types = m.types["*"] if m.v == 2 else sorted({x for tl in m.types.values() for x in tl})
    if rng.random() < nomatch:
        sel = [rng.choice(["X9", "Z", "L9Q", "QQ"])]
    else:
        sel = rng.sample(types, rng.randint(1, min(4, len(types))))
        sel = [x[: rng.choice([1, 2, 2, 3, 3, 3])] for x in sel]
        if rng.random() < 0.1:
            sel.append("X9")
    if len(sel) == 1 and rng.random() < 0.5:
        return sel[0], sel
    if rng.random() < 0.2:
        return tuple(sel), sel
    return list(sel), sel


def us_list(times):
    return [t_us(t) for t in times]


# ---------------------------------------------------------------------------------------------
# NAV

def nav_events(m, use=None, window=None):
    """-> want {(field, t, sv): number}, blank {(field, t, sv)} (omitted or blank in the file), rows {(t, sv): set of numbers}"""
    want, blank, rows = {}, set(), {}
    seen: dict = {}
    for (name, t, vals), r in zip(m.records(), m.recs):
        if use and r.sv[0] not in use:
            continue
        if window is not None and not window[0] <= t <= window[1]:
            continue
        nums = {gen.num19(s) for s in r.slots if s is not None} | {0.0}
        rows[(t, name)] = nums
        for f, x in vals.items():
            if x is None:
                blank.add((f, t, name))
            else:
                want[(f, t, name)] = x
    return want, blank, rows


def check_nav(ctx: Ctx, ds, m, what, use=None, window=None, key="values"):
    want, blank, rows = nav_events(m, use, window)
    got = oracle.observe(ds)
    spare = {k: x for k, x in got.items() if k[0].startswith("spare")}
    for k, x in spare.items():
        nums = rows.get((k[1], k[2]))
        if nums is None or not any(oracle.close(x, y) for y in nums):
            raise Violation(key + "-invented", f"{what}: {k[0]} of {k[2]} at {oracle.fmt_us(k[1])} = {x}, not a number of that record")
    main = {}
    for k, x in got.items():
        if k[0].startswith("spare"):
            continue
        if k in blank:
            ok = x == 0.0 and m.v == 3
            if not ok:
                raise Violation(key + "-invented", f"{what}: {k[0]} of {k[2]} at {oracle.fmt_us(k[1])} = {x}, blank in the file")
            ctx.n["blanks_read_as_zero"] += 1
            continue
        main[k] = x
    if m.v == 3:
        for k in blank - set(got):
            if gen.NAVFIELDS3[k[2][0]].index(k[0]) < (15 if k[2][0] in "RS" else 27):  # not the optional last ones
                raise Violation(key + "-blank", f"{what}: {k[0]} of {k[2]} at {oracle.fmt_us(k[1])} is missing, blank in the file (zero)")
    oracle.compare(ctx, main, want, what, key)
    ctx.n["records_compared"] += len(rows)
    oracle.check_axes(ctx, ds, {k[0] for k in rows}, {k[1] for k in rows}, {k[0] for k in rows}, {k[1] for k in rows}, what)
    return want


def nav_text(ctx, m, lay=None) -> str:
    return gen.render_nav(m, ctx.rng, lay or gen.rand_layout(ctx.rng, m))


def nav_name(m) -> str:
    return {2: {"N": "site0010.10n", "G": "site0010.10g", "E": "site0010.10l"}.get(m.kind, "x.10n"), 3: "SITE00XXX_R_20100010000_01D_MN.rnx"}[m.v]
