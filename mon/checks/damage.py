"""C30 damage inside one record stays in that record; any content whatever ends in a result or an ordinary error"""
from __future__ import annotations
import io
import math
import time

import numpy as np
import georinex as gr

from .. import gen, oracle, wl
from ..core import Crash, Ctx, Violation
from ..gen import t_us

CALL_CPU = 30.0  # seconds of CPU one read of a file of some hundred lines may take
PRINTABLE = "0123456789" * 2 + ".-+ " * 3 + "ABDEGNRXZabdeginx#*&,;:_/\\|'\"()<>?!%$@=~^`{}[]"
CONTROL = "\x00\x01\t\x0b\x0c\x1a\x1b\x1c\x1d\x1e\x1f\x7f"


def _attrs(ds, skip=()):
    return {k: np.asarray(v).tolist() for k, v in ds.attrs.items() if k not in skip}


def same(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b)) or str(a) == str(b)


def hurt(r, ln: str, lo: int, ascii_only: bool) -> tuple[str, bytes]:
    """(kind, line): the line with characters from column lo on overwritten, cut or added"""
    pool = PRINTABLE * 3 + ("" if ascii_only else "\xe9\xff\xb0\x85" * 6) + CONTROL
    kind = r.choice(["one", "one", "some", "run", "field", "comment", "comment", "blank", "cut", "tail", "digits"])
    s = list(f"{ln:{lo + 1}s}") if len(ln) <= lo else list(ln)
    n = len(s)
    if kind == "one":
        s[r.randrange(lo, n)] = r.choice(pool)
    elif kind == "some":
        for _ in range(r.randint(2, 12)):
            s[r.randrange(lo, n)] = r.choice(pool)
    elif kind == "run":
        i = r.randrange(lo, n)
        for k in range(i, min(n, i + r.randint(2, 20))):
            s[k] = r.choice(pool)
    elif kind == "field":
        i = r.randrange(lo, n)
        c = r.choice("*?#9-. ")
        for k in range(i, min(n, i + 14)):
            s[k] = c
    elif kind == "comment":
        s[r.choice([lo, lo, r.randrange(lo, n)])] = r.choice("##%!;")
    elif kind == "blank":
        i = r.randrange(lo, n)
        for k in range(i, min(n, i + r.choice([1, 14, 16, 40]))):
            s[k] = " "
    elif kind == "cut":
        s = s[:r.randrange(lo, n)]
    elif kind == "tail":
        s = s + [r.choice(pool) for _ in range(r.randint(1, 30))]
    else:
        for _ in range(r.randint(1, 5)):
            i = r.randrange(lo, n)
            if s[i].isdigit():
                s[i] = r.choice("0123456789")
    return kind, "".join(s)


def _obs_target(r, m, lines):
    """-> (line index, first column that may change, record or None for the clock field)"""
    i = r.randrange(len(m.epochs))
    e = m.epochs[i]
    mk = m.marks[i]
    if not e.sats or r.random() < 0.06 and (m.v == 3 or 0 < len(e.sats) <= 12):
        return mk, (68 if m.v == 2 else 41), None
    k = r.randrange(len(e.sats))
    rec = (t_us(e.t), e.sats[k][0])
    if m.v == 2:
        nl = math.ceil(len(m.types["*"]) / 5)
        return mk + max(1, math.ceil(len(e.sats) / 12)) + k * nl + r.randrange(nl), 0, rec
    return mk + 1 + k, 3, rec


def _load(ctx, what, src, **opts):
    """-> dataset or None when refused with an ordinary error"""
    t0 = time.process_time()
    try:
        ds = ctx.call(what, gr.load, src, **opts)
    except Crash as e:
        ordinary(e, what)
        ctx.n["refused"] += 1
        ds = None
    dt = time.process_time() - t0
    if dt > CALL_CPU:
        raise Violation("slow", f"{what} took {dt:.0f} s of CPU time")
    return ds


def ordinary(e: Crash, what):
    if not isinstance(e.exc, Exception) or isinstance(e.exc, (MemoryError, RecursionError)):
        raise Violation("extraordinary", f"{what}: {type(e.exc).__name__}: {e.exc}") from e


def _compare(ctx, clean, dam, rec, what, blank_zero=False, epochs=()):
    """every cell outside the record `rec` = (time, satellite) is the same"""
    a, b = oracle.observe(clean), oracle.observe(dam)
    for k in set(a) | set(b):
        if rec is not None and k[1] == rec[0] and k[2].split("_")[0] == rec[1]:
            continue
        x, y = a.get(k), b.get(k)
        if x == y:
            continue
        if blank_zero and {x, y} <= {0.0, None} and k[2].split("_")[0] == rec[1]:
            continue  # an omitted spare field is zero or missing, after the other records of the satellite
        raise Violation("damage-spread", f"{what}: {k[0]} at {oracle.fmt_us(k[1])} {k[2]} is {y}, {x} without the damage")
    ctx.n["values_compared"] += len(a)
    extra = [t for t in oracle.times_us(dam) if t not in set(oracle.times_us(clean))]
    if any(t != (rec or [None])[0] for t in extra):
        raise Violation("damage-epoch", f"{what}: epochs {[oracle.fmt_us(t) for t in extra]} invented")
    bad = {s.split("_")[0] for s in oracle.svlist(dam)} - {s.split("_")[0] for s in oracle.svlist(clean)} - {rec[1] if rec else ""}
    if bad:
        raise Violation("damage-sv", f"{what}: satellites {sorted(bad)} invented")


def _damaged_text(r, text, i, lo, stream):
    lines = text.split("\n")
    cr = lines[i].endswith("\r")
    kind, new = hurt(r, lines[i].rstrip("\r"), lo, stream and r.random() < 0.8)
    lines[i] = new + ("\r" if cr else "")
    return kind, "\n".join(lines)


def _source(ctx, name, text, stream):
    return io.StringIO(text) if stream else ctx.write(name, text.encode("latin-1"))


def c30_obs(ctx: Ctx):
    r = ctx.rng
    v = r.choice([2, 3])
    m = wl.gen_pair(ctx, v, n_epochs=r.choice([1, 2, 3, 5]), max_sats=r.choice([2, 5, 13, 26]))
    text = wl.obs_text(ctx, m)
    opts = {"fast": False} if v == 2 else {}
    use = None
    if r.random() < 0.3:
        opts["useindicators"] = True
    if r.random() < 0.5:
        opts["use"], use = wl.rand_use(r, m.systems, "GRESCJ")
    if r.random() < 0.2:
        opts["meas"], _ = wl.rand_meas(r, m, nomatch=0)
    clean = ctx.must("load-raised", f"load(intact, {opts})", gr.load, io.StringIO(text), **opts)
    listed = oracle.arr_us(ctx.must("gettime-raised", "gettime(intact)", gr.gettime, io.StringIO(text)))
    for _ in range(3):
        i, lo, rec = _obs_target(r, m, text.split("\n"))
        stream = r.random() < 0.3
        kind, t2 = _damaged_text(r, text, i, lo, stream)
        what = f"load({opts}) with line {i + 1} damaged ({kind}) from column {lo + 1}: {t2.split(chr(10))[i]!r}"
        src = _source(ctx, "site0010.10o", t2, stream)
        ctx.n["damage_" + kind] += 1
        ctx.distinct(t2, sorted(opts))
        ds = _load(ctx, what, src, **opts)
        if ds is not None:
            _compare(ctx, clean, ds, rec, what)
            ctx.n["contained"] += 1
            ctx.n["contained_in_deselected"] += bool(use and rec and rec[1][0] not in use)
            a, b = _attrs(clean, ("time_offset", "filename", "interval")), _attrs(ds, ("time_offset", "filename", "interval"))
            if not all(same(a.get(k), b.get(k)) for k in set(a) | set(b)):
                raise Violation("damage-metadata", f"{what}: metadata {b}, {a} without the damage")
        if stream and not t2.isascii():
            continue
        got = oracle.arr_us(ctx.must("gettime-raised", f"gettime of the file: {what}", gr.gettime, src))
        if got != listed:
            raise Violation("damage-gettime", f"listed times differ: {what}")
        ctx.n["listings"] += 1
    ctx.sample = {"seed": ctx.seed, "v": v, "last": what[:200]}


def c30_nav(ctx: Ctx):
    r = ctx.rng
    v = r.choice([2, 3, 3])
    m = gen.gen_nav(r, v, n_recs=r.choice([1, 2, 4, 8]))
    text = wl.nav_text(ctx, m)
    clean = ctx.must("load-raised", "load(intact)", gr.load, io.StringIO(text))
    listed = oracle.arr_us(ctx.must("gettime-raised", "gettime(intact)", gr.gettime, io.StringIO(text)))
    for _ in range(3):
        k = r.randrange(len(m.recs))
        rec = (t_us(m.recs[k].t), m.recs[k].sv)
        nrow = (m.marks[1:] + [m.nlines])[k] - m.marks[k] - (m.recs[k].lay == "19")
        j = r.randrange(nrow)
        i, lo = m.marks[k] + j, 23 if j == 0 else 4
        stream = r.random() < 0.3
        kind, t2 = _damaged_text(r, text, i, lo, stream)
        what = f"load with line {i + 1} damaged ({kind}) from column {lo + 1}: {t2.split(chr(10))[i]!r}"
        src = _source(ctx, wl.nav_name(m), t2, stream)
        ctx.n["damage_" + kind] += 1
        ctx.distinct(t2)
        ds = _load(ctx, what, src)
        if ds is not None:
            _compare(ctx, clean, ds, rec, what, blank_zero=v == 3)
            ctx.n["contained"] += 1
        got = oracle.arr_us(ctx.must("gettime-raised", f"gettime of the file: {what}", gr.gettime, src))
        if got != listed:
            raise Violation("damage-gettime", f"listed times differ: {what}")
        ctx.n["listings"] += 1


def _sp3_cells(ds):
    out = {}
    ts, svs = oracle.times_us(ds), [str(x) for x in ds.sv.values.tolist()]
    for name in ds.data_vars:
        if "time" not in ds[name].dims:
            continue
        a = ds[name].values
        for i, t in enumerate(ts):
            for j, s in enumerate(svs):
                x = a[i, j]
                out[(name, t, s)] = tuple(np.atleast_1d(x).tolist())
    return out


def c30_sp3(ctx: Ctx):
    r = ctx.rng
    m = gen.gen_sp3(r, nsv=r.choice([1, 3, 18]), n_epochs=r.choice([1, 2, 4]))
    m.hdr["extras"] = False
    text = gen.render_sp3(m, r, gen.Layout(trim=r.choice(["trim", "pad"])))
    clean = _sp3_cells(ctx.must("load-raised", "load(intact)", gr.load, ctx.write("a.sp3", text)))
    lines = text.split("\n")
    body = [i for i, ln in enumerate(lines) if i >= m.nheader and ln[:1] in ("P", "V")]
    if not body:
        return
    for _ in range(3):
        i = r.choice(body)
        t = max(k for k, mk in enumerate(m.marks) if mk <= i)
        sv = clean and lines[i][1:4].replace(" ", "")
        kind, t2 = _damaged_text(r, text, i, 4, False)
        what = f"load with line {i + 1} damaged ({kind}): {t2.split(chr(10))[i]!r}"
        ctx.n["damage_" + kind] += 1
        ctx.distinct(t2)
        ds = _load(ctx, what, ctx.write("b.sp3", t2.encode("latin-1")))
        if ds is None:
            continue
        got = _sp3_cells(ds)
        if set(got) != set(clean):
            raise Violation("damage-epoch", f"{what}: epochs, satellites or variables differ from those without the damage")
        for k, x in clean.items():
            if k[1] == m.times[t] and k[2].replace("0", "") == sv.replace("0", ""):
                continue
            if str(got[k]) != str(x):
                raise Violation("damage-spread", f"{what}: {k} is {got[k]}, {x} without the damage")
        ctx.n["contained"] += 1
        ctx.n["values_compared"] += len(clean)


# ---------------------------------------------------------------- lines of a record lost, doubled, split, joined

def break_lines(r, lines, i):
    """-> (kind, lines): line i of a record lost, doubled, split in two or joined with the next"""
    kind = r.choice(["lost", "lost", "doubled", "split", "joined"])
    out = list(lines)
    if kind == "lost":
        del out[i]
    elif kind == "doubled":
        out.insert(i, out[i])
    elif kind == "split":
        k = r.randrange(5, max(len(out[i]), 6))
        out[i:i + 1] = [out[i][:k], out[i][k:]]
    elif i + 1 < len(out):
        out[i:i + 2] = [out[i] + out[i + 1]]
    return kind, out


def c30_lines(ctx: Ctx):
    r = ctx.rng
    k = r.choice(["o2", "o3", "o3", "n2", "n3"])
    v = int(k[1])
    opts = {}
    if k[0] == "o":
        m = wl.gen_pair(ctx, v, n_epochs=r.choice([2, 3, 5, 6]), max_sats=r.choice([2, 5, 13, 26]))
        text, name = wl.obs_text(ctx, m), "site0010.10o"
        opts = {"fast": False} if v == 2 else {}
        items = [(t, None) for t in m.times]
    else:
        m = gen.gen_nav(r, v, n_recs=r.choice([2, 4, 8]))
        text, name = wl.nav_text(ctx, m), wl.nav_name(m)
        items = [(t_us(q.t), q.sv) for q in m.recs]
    clean = ctx.must("load-raised", "load(intact)", gr.load, io.StringIO(text), **opts)
    a = oracle.observe(clean)
    lines = text.split("\n")
    for _ in range(3):
        j = r.randrange(len(items))
        last = (m.marks[1:] + [m.nlines])[j]
        if last - m.marks[j] < 2:
            continue
        kind, out = break_lines(r, lines, r.randrange(m.marks[j] + 1, last))
        t2 = "\n".join(out)
        hit = items[j:j + 2]
        what = f"load({opts}) with a line of {'epoch' if k[0] == 'o' else 'record'} {j + 1} of {len(items)} {kind}"
        ctx.n["lines_" + kind] += 1
        ctx.distinct(t2)
        ds = _load(ctx, what, ctx.write(name, t2), **opts)
        if ds is None:
            continue
        b = oracle.observe(ds)
        ctx.n["values_compared"] += len(a)
        ctx.n["contained_lines"] += 1
        for q in set(a) | set(b):
            base = q[2].split("_")[0]
            if any(q[1] == t and sv in (None, base) for t, sv in hit):
                continue
            x, y = a.get(q), b.get(q)
            if x == y or k == "n3" and {x, y} <= {0.0, None} and base in {sv for _, sv in hit}:
                continue
            raise Violation("lines-spread", f"{what}: {q[0]} at {oracle.fmt_us(q[1])} {q[2]} is {y}, {x} without the damage")
        bad = set(oracle.times_us(ds)) - set(oracle.times_us(clean)) - {t for t, _ in items}
        if bad:
            raise Violation("lines-epoch", f"{what}: epochs {[oracle.fmt_us(t) for t in bad]} invented")


# ---------------------------------------------------------------- anything at all

def havoc(r, b: bytearray, other: bytes) -> bytearray:
    for _ in range(r.choice([1, 1, 2, 3, 6, 15])):
        k = r.random()
        n = max(len(b), 1)
        i = r.randrange(n)
        if k < 0.25:
            b[i:i + 1] = bytes([r.choice([r.randrange(256), r.choice(b"0123456789.-+ #*>\n\rABDEGR")])])
        elif k < 0.35:
            b[i:i] = bytes(r.choice([b"\n", b" ", b"9", b"-", b"\x00", b"\r", b">", b"> ", b"999", b"#"]))
        elif k < 0.45:
            del b[i:i + r.choice([1, 2, 16, 80, 81, 500])]
        else:
            ls = bytes(b).split(b"\n")
            j = r.randrange(len(ls))
            if k < 0.55:
                del ls[j]
            elif k < 0.62:
                ls.insert(j, ls[r.randrange(len(ls))])
            elif k < 0.7:
                q = r.randrange(len(ls))
                ls[j], ls[q] = ls[q], ls[j]
            elif k < 0.8:  # a number becomes extreme
                ln = bytearray(ls[j])
                d = [x for x in range(len(ln)) if 48 <= ln[x] < 58]
                if d:
                    x = r.choice(d)
                    ln[max(0, x - 2):x + 1] = r.choice([b"999", b" -1", b"  0", b"1e9", b"nan", b"inf", b"   ", b"9e9"])
                ls[j] = bytes(ln)
            elif k < 0.9:
                ls[j:j] = other.split(b"\n")[r.randrange(5):][:r.choice([1, 3, 30])]
            else:
                ls = ls[:j]
            b = bytearray(b"\n".join(ls))
    return b


def _any_text(ctx, r):
    k = r.choice(["o2", "o2", "o3", "o3", "n2", "n3", "sp3"])
    if k[0] == "o":
        m = wl.gen_pair(ctx, int(k[1]), n_epochs=r.choice([1, 2, 4]), max_sats=r.choice([2, 5, 13, 26]))
        return wl.obs_text(ctx, m), "site0010.10o"
    if k[0] == "n":
        m = gen.gen_nav(r, int(k[1]), n_recs=r.choice([1, 3, 6]))
        return wl.nav_text(ctx, m), wl.nav_name(m)
    m = gen.gen_sp3(r, nsv=r.choice([1, 3, 18]), n_epochs=r.choice([1, 3]))
    return gen.render_sp3(m, r, gen.Layout()), "a.sp3"


def c30_havoc(ctx: Ctx):
    r = ctx.rng
    a, name = _any_text(ctx, r)
    other, _ = _any_text(ctx, r)
    b = bytes(havoc(r, bytearray(a.encode()), other.encode()))
    src = ctx.write(name, b)
    opts = {}
    if r.random() < 0.4:
        opts["fast"] = False
    if r.random() < 0.3:
        opts["useindicators"] = True
    if r.random() < 0.2:
        opts["use"] = r.choice(["G", "R", ["G", "E"]])
    if r.random() < 0.15:
        opts["interval"] = 60
    for what, fn, kw in (("load", gr.load, opts), ("gettime", gr.gettime, {}), ("rinexheader", gr.rinexheader, {})):
        t0 = time.process_time()
        try:
            ctx.call(f"{what}({kw}) of mutated {name}", fn, src, **kw)
            ctx.n[f"{what}_returned"] += 1
        except Crash as e:
            ordinary(e, what)
            ctx.n[f"{what}_refused_{type(e.exc).__name__}"] += 1
        if time.process_time() - t0 > CALL_CPU:
            raise Violation("slow", f"{what} of a mutated {name} of {len(b)} bytes took {time.process_time() - t0:.0f} s of CPU time")
    if src.read_bytes() != b:
        raise Violation("input-changed", f"the input file {name} was modified")
    ctx.distinct(b)


SPECS = {
    "C30": {"workloads": {"obs": (c30_obs, 400, 9000), "nav": (c30_nav, 300, 7000), "sp3": (c30_sp3, 150, 3000), "lines": (c30_lines, 300, 6000), "havoc": (c30_havoc, 900, 20000)},
            "rule": "obs / nav / sp3: one case = one random file, three times one record damaged (characters of every class overwritten, runs, fields, cuts, tails), loaded and compared cell by cell with the load of the intact file outside that record; havoc: one file mutated as bytes and lines, every read ending in a result or an ordinary exception within 30 s of CPU; distinct by resulting text",
            "min_events": {"contained": 900, "refused": 100, "contained_in_deselected": 40, "load_returned": 250, "listings": 1200, "contained_lines": 200},
            "assumptions": ["damage does not touch line breaks nor the epoch, satellite and count columns (obs, nav, sp3 workloads)"]},
}
