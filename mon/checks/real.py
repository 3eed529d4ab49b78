"""
Corpus workloads: parts of the real files shipped with georinex (many producers, quirks no generator invents), with
epochs or records left out and digits changed, against the independent readers of mon.refread.
"""
from __future__ import annotations
import functools
import io

import georinex as gr
import hatanaka
import ncompress

from .. import oracle, refread, wl
from ..core import REPO, Ctx, Crash, Skip, Violation

DATA = REPO / "src" / "georinex" / "tests" / "data"
FILES = {
    "obs2": ["14601736.18o", "demo.10o", "minimal2.10o", "rinex2onesat.10o", "york0440.15d", "ab430140.18o.zip", "ac660270.18o.Z"],
    "obs3": ["demo3.10o", "minimal3.10o", "default_time_system3.10o", "ABMF00GLP_R_20181330000_01D_30S_MO.zip", "CEBR00ESP_R_20182000000_01D_30S_MO.crx.gz",
             "CEDA00USA_R_20182100000_23H_15S_MO.rnx.gz", "P43300USA_R_20190012056_17M_15S_MO.crx"],
    "nav2": ["14601736.18n", "ab422100.18n", "brdc2420.18n.gz", "brdc2800.15n", "ceda2100.18e", "demo.10n", "minimal2.10n", "p1462100.18g"],
    "nav3": ["BRDC00IGS_R_20201360000_01D_MN.rnx", "BRDM00DLR_R_20130010000_01D_MN.rnx", "CEDA00USA_R_20182100000_01D_MN.rnx.gz", "ELKO00USA_R_20182100000_01D_MN.rnx.gz",
             "VILL00ESP_R_20181700000_01D_MN.rnx.gz", "demo_nav3.10n", "demo_nav3.17n", "galileo3.15n", "minimal3.10n", "qzss_nav3.14n", "spare_filled_nav3.rnx"],
    "sp3": ["example1.sp3a", "example2.sp3a", "igs19362.sp3c", "minimal.sp3d"],
}


def text_of(p) -> str:
    import bz2
    import gzip
    import zipfile
    b = p.read_bytes()
    if b[:2] == b"\x1f\x8b":
        b = gzip.decompress(b)
    elif b[:3] == b"BZh":
        b = bz2.decompress(b)
    elif b[:2] == b"\x1f\x9d":
        b = ncompress.decompress(b)
    elif b[:2] == b"PK":
        with zipfile.ZipFile(io.BytesIO(b)) as z:
            b = z.read(z.namelist()[0])
    if b"COMPACT RINEX FORMAT" in b[:80]:
        b = hatanaka.crx2rnx(b)
    return b.decode("ascii", "ignore").replace("\r", "")


@functools.lru_cache(maxsize=3)
def parsed(kind, name):
    p = DATA / name
    if not p.is_file():
        return None
    text = text_of(p)
    if len(text) > 3_000_000:
        text = text[:3_000_000]
        cut = text.rfind("\n>" if kind == "obs3" else "\n 15 ")  # back to an epoch line
        text = text[:cut + 1]
    try:
        return getattr(refread, kind)(text)
    except (refread.Malformed, ValueError, IndexError) as e:
        return repr(e)


def digits(r, blocks, p):
    """change digits inside value cells; blank some cells of observations"""
    out = []
    for b in blocks:
        lines = list(b.lines)
        for li, col, w, key in b.cells:
            if li >= len(lines) or r.random() >= p:
                continue
            ln = lines[li]
            c = ln[col: col + w]
            idx = [i for i, ch in enumerate(c) if ch.isdigit() and (w != 19 or i < c.upper().find("D") or i < c.upper().find("E"))]
            if not c.strip() or not idx:
                continue
            c = list(c)
            for i in r.sample(idx, min(len(idx), r.choice([1, 3]))):
                c[i] = r.choice("0123456789")
            lines[li] = ln[:col] + "".join(c) + ln[col + w:]
        out.append(refread.Block(lines, b.t, b.sv, b.cells))
    return out


def choose(ctx, kind, most):
    r = ctx.rng
    name = r.choice(FILES[kind])
    q = parsed(kind, name)
    if q is None or isinstance(q, str):
        ctx.n["corpus_unreadable"] += 1
        raise Skip()
    head, extra, blocks = q
    k = r.choice([1, 2, 3, most, most])
    if len(blocks) > k:
        x = r.random()
        if x < 0.6:
            i = r.randrange(len(blocks) - k + 1)
            blocks = blocks[i: i + k]
        else:
            blocks = [blocks[i] for i in sorted(r.sample(range(len(blocks)), k))]
    blocks = digits(r, blocks, r.choice([0, 0.1, 0.5]))
    return name, head, extra, blocks


def source(ctx, head, blocks, name, end=()):
    text = "\n".join([*head, *(ln for b in blocks for ln in b.lines), *end]) + "\n"
    if ctx.rng.random() < 0.15:
        return text, io.StringIO(text)
    return text, ctx.write(name, text)


def _obs(ctx: Ctx, kind, ind=False, opt=None):
    from .options import rand_window, ref_decimate, spell_window
    r = ctx.rng
    name, head, types, blocks = choose(ctx, kind, 12 if kind == "obs2" else 5)
    if not any(b.t is not None and b.sv for b in blocks):
        raise Skip()
    ts = [b.t for b in blocks if b.t is not None]
    if len(set(ts)) != len(ts):
        raise Skip()
    text, src = source(ctx, head, blocks, "site.10o")
    opts = {"useindicators": True} if ind else {}
    if kind == "obs2" and r.random() < 0.5:
        opts["fast"] = False
    keep, use, meas = set(ts), None, None
    if opt in ("tlim", "any") and r.random() < 0.9:
        w = rand_window(r, sorted(ts))
        opts["tlim"] = spell_window(r, w)
        keep = {t for t in ts if w[0] <= t <= w[1]}
    if opt in ("interval", "any") and r.random() < 0.9:
        iv = r.choice([1, 15, 29, 30, 31, 60, 45.5, 90])
        opts["interval"] = iv
        keep = set(ref_decimate([t for t in ts if t in keep], int(iv * 1e6)))
    if opt in ("use", "any") and r.random() < 0.9:
        opts["use"], use = wl.rand_use(r, sorted({s[0] for b in blocks for s in b.sv}), "".join(types) if isinstance(types, dict) else "GRESCJ")
        if kind == "obs3" and not set(use) & set(types):
            raise Skip()
    if opt in ("meas", "any") and r.random() < 0.9:
        tl = types if isinstance(types, list) else sorted({x for q in types.values() for x in q})
        meas = [x[: r.choice([1, 2, 3])] for x in r.sample(tl, min(len(tl), r.choice([1, 2, 3])))]
        opts["meas"] = meas
    what = f"load({name}, {len(blocks)} epochs, {opts})"
    try:
        ds = ctx.call(what, gr.load, src, **opts)
    except Crash as e:
        if isinstance(e.exc, IndexError) and "fast" in str(e.exc) and opts.get("fast", True):
            ctx.n["fast_refusals"] += 1
            ds = ctx.must("load-raised", what, gr.load, src, **dict(opts, fast=False))
        else:
            raise Violation("load-raised", f"{what}: {type(e.exc).__name__}: {e.exc}") from e
    v, lli, ssi = ({k: x for k, x in q.items() if k[1] in keep and (not use or k[2][0] in use) and (not meas or any(k[0].startswith(y) for y in meas))}
                   for q in refread.obs_values(blocks))
    got = oracle.observe(ds)
    gv = {k: x for k, x in got.items() if not k[0].endswith(("lli", "ssi"))}
    oracle.compare(ctx, gv, v, what, "corpus")
    oracle.check_axes(ctx, ds, keep, {s for b in blocks for s in b.sv if not use or s[0] in use}, {k[1] for k in v}, {k[2] for k in v}, what)
    if ind:
        truth = {(k + "lli", t, s): x for (k, t, s), x in lli.items()} | {(k + "ssi", t, s): x for (k, t, s), x in ssi.items()}
        gi = {k: x for k, x in got.items() if k not in gv}
        for k, x in gi.items():
            if truth.get(k) != x:
                raise Violation("corpus-indicator", f"{what}: {k} = {x}, written {truth.get(k)}")
        for k, x in truth.items():
            b = wl.base_of(k[0])
            if ((b[0] != "S") if k[0].endswith("ssi") else (b[0] == "L" and b[1] in "12")) and k not in gi:
                raise Violation("corpus-indicator", f"{what}: {k} = {x} is missing")
        ctx.n["corpus_indicators"] += len(gi)
    ctx.n["corpus_values"] += len(v)
    ctx.n["corpus_" + name] += 1
    ctx.distinct(text)


def c01(ctx):
    _obs(ctx, "obs2")


def c02(ctx):
    _obs(ctx, "obs3")


def c03(ctx):
    _obs(ctx, ctx.rng.choice(["obs2", "obs3"]), True)


def _nav(ctx: Ctx, kind):
    name, head, _, blocks = choose(ctx, kind, 30)
    if kind == "nav2":  # one record per satellite and epoch
        keep = {}
        for b in blocks:
            keep.setdefault((b.sv[0], b.t), b)
        blocks = list(keep.values())
    text, src = source(ctx, head, blocks, "site.10n" if kind == "nav2" else "x.rnx")
    what = f"load({name}, {len(blocks)} records)"
    ds = ctx.must("load-raised", what, gr.load, src)
    want, blank, rows = refread.nav_values(blocks, int(kind[3]))
    got = oracle.observe(ds)
    main = {}
    for k, x in got.items():
        if k[0].startswith("spare") or k[0] not in {w[0] for w in want} | {b[0] for b in blank}:
            if not any(oracle.close(x, y) for y in rows.get((k[1], k[2]), ())):
                raise Violation("corpus-invented", f"{what}: {k} = {x}, not a number of that record")
        elif k in blank:
            if not (x == 0.0 and kind == "nav3"):
                raise Violation("corpus-invented", f"{what}: {k} = {x}, blank in the file")
        else:
            main[k] = x
    oracle.compare(ctx, main, want, what, "corpus")
    oracle.check_axes(ctx, ds, {k[0] for k in rows}, {k[1] for k in rows}, {k[0] for k in rows}, {k[1] for k in rows}, what)
    ctx.n["corpus_values"] += len(want)
    ctx.n["corpus_" + name] += 1
    ctx.distinct(text)


def c_opt(opt):
    def f(ctx: Ctx):
        _obs(ctx, ctx.rng.choice(["obs2", "obs3"]), opt=opt, ind=ctx.rng.random() < 0.2)
    return f


def c18(ctx: Ctx):
    r = ctx.rng
    kind = r.choice(["obs2", "obs2", "obs3", "nav2", "nav3"])
    name, head, extra, blocks = choose(ctx, kind, 12 if kind.startswith("obs") else 30)
    ts = [b.t for b in blocks if b.t is not None]
    if not ts or (kind.startswith("obs") and len(set(ts)) != len(ts)):
        raise Skip()
    text, src = source(ctx, head, blocks, "site.10o" if kind[0] == "o" else "site.10n")
    got = oracle.arr_us(ctx.must("gettime-raised", f"gettime({name})", gr.gettime, src))
    want = ts if kind.startswith("obs") else sorted(set(ts))
    if got != want:
        raise Violation("corpus-times", f"gettime({name}, {len(blocks)} blocks): {len(got)} times {[oracle.fmt_us(t) for t in got][:4]}, written {len(want)}: {[oracle.fmt_us(t) for t in want][:4]}")
    ctx.n["corpus_" + name] += 1
    ctx.n["corpus_times"] += len(want)
    ctx.distinct(text)


def c04(ctx):
    _nav(ctx, "nav2")


def c05(ctx):
    _nav(ctx, "nav3")


def c06(ctx: Ctx):
    from .sp3 import norm_sv
    name, head, svs, blocks = choose(ctx, "sp3", 8)
    text, src = source(ctx, head, blocks, "x.sp3", ["EOF"])
    if isinstance(src, io.StringIO):
        src = ctx.write("x.sp3", text)
    what = f"load({name}, {len(blocks)} epochs)"
    ds = ctx.must("load-raised", what, gr.load, src)
    want = {}
    for b in blocks:
        for li, col, w, (pv, s, ax) in b.cells:
            x = b.lines[li][col: col + w].strip()
            if not x:
                continue
            k = ({"P": "clock", "V": "dclock"}[pv], b.t, norm_sv(s)) if ax == "c" else ({"P": "position", "V": "velocity"}[pv], b.t, norm_sv(s), ax)
            want[k] = float(x)
    got = {(k[0], k[1], norm_sv(k[2])) + tuple(k[3:]): x for k, x in oracle.observe_any(ds).items() if k[0] != "t0"}
    oracle.compare(ctx, got, want, what, "corpus")
    if sorted(oracle.times_us(ds)) != sorted(b.t for b in blocks):
        raise Violation("corpus-epochs", f"{what}: epochs differ")
    if sorted(map(norm_sv, oracle.svlist(ds))) != sorted(map(norm_sv, svs)):
        raise Violation("corpus-sv", f"{what}: satellites {oracle.svlist(ds)} vs header {svs}")
    ctx.n["corpus_values"] += len(want)
    ctx.n["corpus_" + name] += 1
    ctx.distinct(text)
