"""C13 containers and path forms, C14 Hatanaka, C23 insignificant layout"""
from __future__ import annotations
import bz2
import gzip
import io
import os
import random
import zipfile
from datetime import timedelta
from pathlib import Path

import georinex as gr
import hatanaka
import ncompress
import numpy as np

from .. import gen, oracle, wl
from ..core import Crash, Ctx, Skip, Violation
from ..gen import t_us, us_t
from .options import other_opts, rand_window, spell_window

KINDS = ["obs2", "obs3", "nav2", "nav3", "sp3"]


def any_file(ctx: Ctx, kind=None, small=True, **k):
    """-> (kind, model, text, plain name)"""
    r = ctx.rng
    kind = kind or r.choice(KINDS)
    if kind.startswith("obs"):
        v = int(kind[3])
        m = wl.gen_pair(ctx, v, **({"max_sats": r.choice([3, 9, 14, 30]), "n_epochs": r.choice([1, 2, 4])} | k if small else k))
        text = wl.obs_text(ctx, m)
        name = r.choice(["site0010.10o", "SITE00XXX_R_20100010000_01D_30S_MO.rnx", "obsfile"])
    elif kind.startswith("nav"):
        m = gen.gen_nav(r, int(kind[3]), **k)
        text = wl.nav_text(ctx, m)
        name = r.choice([wl.nav_name(m), "navfile"])
    else:
        m = gen.gen_sp3(r, **k)
        text = gen.render_sp3(m, r)
        name = r.choice(["igs12345.sp3", "orbit.sp3c", "orbit"])
    if r.random() < 0.25:
        name = r.choice([name.upper(), name.upper(), "my file " + name, "v1.2-" + name, "x+[1]" + name, "\u00e5" + name, name + "."])
        ctx.n["odd_names"] += 1
    return kind, m, text, name


def pack(rng, data: bytes, how: str, name: str) -> bytes:
    if how == "plain":
        return data
    if how == "gz":
        x = rng.random()
        if x < 0.2 and len(data) > 10:  # two gzip members are one stream
            i = rng.randrange(1, len(data))
            return gzip.compress(data[:i]) + gzip.compress(data[i:])
        if x < 0.5:
            b = io.BytesIO()
            with gzip.GzipFile(filename=name, mode="wb", fileobj=b, compresslevel=rng.choice([1, 6, 9])) as f:
                f.write(data)
            return b.getvalue()
        return gzip.compress(data, rng.choice([1, 6, 9]))
    if how == "bz2":
        if rng.random() < 0.2 and len(data) > 10:
            i = rng.randrange(1, len(data))
            return bz2.compress(data[:i]) + bz2.compress(data[i:])
        return bz2.compress(data, rng.choice([1, 9]))
    if how == "zip":
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
            z.writestr(rng.choice(["", "sub/"]) + name, data)
        return b.getvalue()
    if how == "Z":
        return ncompress.compress(data)
    raise KeyError(how)


SUFFIX = {"plain": [""], "gz": [".gz", ".GZ", ".Gz", ""], "bz2": [".bz2", ".BZ2", ""], "zip": [".zip", ".ZIP", ".Zip", ""], "Z": [".Z", ".z", ""]}
FNDROP = ("filename", "fast_processing")


def outcome(ctx, m, text, what, fn, src, **k):
    """result of an entry point, or the type of its error"""
    try:
        return "ok", ctx.call(what, fn, src, **k)
    except Crash as e:
        return "raised", e.exc


def canon(x):
    """comparable form of headers and infos"""
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, np.generic):
        return canon(x.item())
    if isinstance(x, float) and x != x:
        return "NaN"
    return x


def same_outcome(ctx, a, b, what, key, cmp):
    if a[0] != b[0]:
        bad = a[1] if a[0] == "raised" else b[1]
        raise Violation(key + "-raised", f"{what}: {a[0]} vs {b[0]}: {type(bad).__name__}: {bad}")
    if a[0] == "raised":
        ctx.n["both_refused"] += 1
        return False
    cmp(a[1], b[1])
    return True


def cmp_header(what, key, eol=True):
    def f(x, y):
        x, y = canon(x), canon(y)
        if x != y:
            ks = [k for k in set(x) | set(y) if x.get(k) != y.get(k)]
            raise Violation(key, f"{what}: header entries differ: " + "; ".join(f"{k}: {x.get(k)!r} vs {y.get(k)!r}" for k in ks[:3]))
    return f


def cmp_times(what, key):
    def f(x, y):
        if oracle.arr_us(x) != oracle.arr_us(y):
            raise Violation(key, f"{what}: listed times differ: {len(x)} vs {len(y)}")
    return f


def check_model(ctx, kind, m, ds, what):
    if kind.startswith("obs"):
        wl.check_obs(ctx, ds, m, what)
    elif kind.startswith("nav"):
        wl.check_nav(ctx, ds, m, what)
    else:
        from .sp3 import check_sp3
        check_sp3(ctx, ds, m, what)


NONASCII = ["São Paulo, Instituto Geográfico", "Tromsø Ægir", "Žilina 日本", "\x80\xff latin"]


def spoil(rng, text: str, kind: str) -> bytes:
    """put non-ASCII bytes into comments of the header"""
    lines = text.split("\n")
    enc = rng.choice(["utf-8", "latin-1"])
    s = rng.choice(NONASCII)
    if enc == "latin-1":
        s = s.encode("latin-1", "ignore").decode("latin-1")
    raw = s.encode(enc)
    if kind == "sp3":
        i = next(k for k, x in enumerate(lines) if x.startswith("/*"))
        new = b"/* " + raw
        out = [x.encode() for x in lines]
        out[i] = new
    else:
        i = next(k for k, x in enumerate(lines) if "END OF HEADER" in x)
        out = [x.encode() for x in lines]
        w = len(s) if enc == "latin-1" or rng.random() < 0.5 else len(raw)
        out.insert(i, raw + b" " * (60 - w) + b"COMMENT")
    return b"\n".join(out)


def c13(ctx: Ctx):
    """with a home directory and a working directory inside the case"""
    old, home = os.getcwd(), os.environ.get("HOME")
    (ctx.dir / "ref").mkdir()
    os.environ["HOME"] = str(ctx.dir)
    os.chdir(ctx.dir / "ref")
    try:
        _c13(ctx)
    finally:
        os.chdir(old)
        if home is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = home


def _c13(ctx: Ctx):
    r = ctx.rng
    kind, m, text, name = any_file(ctx)
    if r.random() < 0.08 and kind.startswith("obs"):
        kind, m, text, name = any_file(ctx, kind, small=False, n_epochs=40, min_sats=20, n_types=10)
    elif r.random() < 0.02:  # hundreds of kilobytes
        kind, m, text, name = any_file(ctx, "obs2", small=False, n_epochs=r.choice([400, 1200]), min_sats=6, max_sats=9, n_types=6)
        ctx.n["big_files"] += 1
    if kind == "obs2" and r.random() < 0.1:  # the header declares another number of types than it lists: tolerated, with a log message
        i = text.index("# / TYPES OF OBSERV")
        n = int(text[i - 60:i - 54])
        k = r.choice([x for x in range(1, n + 6) if x != n and -(-x // 5) == -(-n // 5)])
        text = text[:i - 60] + f"{k:6d}" + text[i - 54:]
        ctx.n["miscounted_headers"] += 1
    nonascii = r.random() < 0.35
    crlf = r.random() < 0.3
    if r.random() < 0.25:  # blank lines before the header, within the documented allowance
        text = r.choice(["\n", "\n", " \n", " " * 80 + "\n"]) * r.randrange(1, 9) + text
        ctx.n["leading_blank_files"] += 1
    data = spoil(r, text, kind) if nonascii else text.encode()
    d0 = data
    if crlf:
        data = data.replace(b"\n", b"\r\n")
    # reference: plain file, unix line ends, plain ASCII, Path
    p0 = ctx.write("ref/" + name, text)
    ref = wl.load(ctx, m, text, p0)
    check_model(ctx, kind, m, ref, "load(plain)")
    # header of the plain file with the same bytes
    p1 = ctx.write("plain/" + name, d0)
    for how in r.sample(["plain", "gz", "bz2", "zip", "Z"], 3) + (["stream"] if kind != "sp3" else []):
        what = f"{kind} in {how}" + (" non-ASCII" if nonascii else "") + (" CRLF" if crlf else "")
        if how == "stream":
            t = data.decode("ascii", "ignore") if r.random() < 0.5 else data.decode("latin-1")
            if nonascii and "\ufffd" in t:
                raise Skip()
            def mk():
                return io.StringIO(t)
            base = mk()
            if r.random() < 0.3:
                base.read(r.randrange(len(t)))  # position of the stream is the caller's business
            src = base
            hdr_cmp = not nonascii
        else:
            fn = f"{how}{r.randrange(100)}/" + name + r.choice(SUFFIX[how])
            path = ctx.write(fn, pack(r, data, how, name))
            form = r.choice(["abs", "abs", "abs", "link", "relative", "home"])
            if form == "link":  # a link to a file with another name
                q = path
                path = ctx.dir / f"l{r.randrange(10**9)}" / ("n" + name + path.name[len(name):])
                path.parent.mkdir(parents=True)
                path.symlink_to(q if r.random() < 0.5 else os.path.relpath(q, path.parent))
            src = path
            if form == "home":
                src = Path("~") / path.relative_to(ctx.dir)
            elif form == "relative":
                src = Path(os.path.relpath(path, ctx.dir / "ref"))
            ctx.n["path_" + form] += 1
            src = str(src) if r.random() < 0.5 else src
            what += f" as {src if form != 'abs' else path.name} ({type(src).__name__}, {form})"
            hdr_cmp = True
        ctx.n["container_" + how] += 1
        ds = wl.load(ctx, m, text, src, what=what)
        oracle.same_dataset(ctx, ds, ref, what, key="container-" + how, drop=FNDROP)
        if how != "stream":
            fnm = ds.attrs.get("filename")
            if kind != "sp3" and fnm is not None and fnm != path.name:
                raise Violation("filename", f"{what}: filename attribute {fnm!r}, file is {path.name}")
        a = outcome(ctx, m, text, what + " rinexinfo", gr.rinexinfo, src)
        b = outcome(ctx, m, text, "plain rinexinfo", gr.rinexinfo, p1)
        same_outcome(ctx, a, b, what + " rinexinfo", "info-" + how, cmp_header(what, "info-" + how))
        if hdr_cmp:
            a = outcome(ctx, m, text, what + " rinexheader", gr.rinexheader, src)
            b = outcome(ctx, m, text, "plain rinexheader", gr.rinexheader, p1)
            if same_outcome(ctx, a, b, what + " rinexheader", "header-" + how, cmp_header(what, "header-" + how)):
                ctx.n["headers_compared"] += 1
        if kind != "sp3":
            a = outcome(ctx, m, text, what + " gettime", gr.gettime, src)
            b = outcome(ctx, m, text, "plain gettime", gr.gettime, p1)
            if same_outcome(ctx, a, b, what + " gettime", "times-" + how, cmp_times(what, "times-" + how)):
                ctx.n["times_lists_compared"] += 1
        ctx.distinct(text, how, nonascii, crlf, getattr(src, "name", str(src))[-8:] if how != "stream" else "")
    ctx.n["nonascii_files"] += nonascii
    ctx.n["crlf_files"] += crlf
    ctx.sample = {"seed": ctx.seed, "kind": kind, "nonascii": nonascii, "crlf": crlf, "calls": ctx.trace[-8:]}


# ---------------------------------------------------------------- C14

def to_crx(text: str) -> bytes:
    try:
        crx = hatanaka.rnx2crx(text.encode())
        hatanaka.crx2rnx(crx)  # some headers are not taken back by the tool itself
        return crx
    except Exception as e:  # not compressible: outside the domain
        raise Skip() from e


def c14(ctx: Ctx):
    r = ctx.rng
    v = r.choice([2, 3])
    big = {"small": False, "n_epochs": r.choice([300, 900]) if v == 2 else 90, "min_sats": 6, "max_sats": 9, "n_types": 6} if r.random() < 0.02 else {}
    kind, m, text, name = any_file(ctx, f"obs{v}", **big)
    ctx.n["big_files"] += bool(big)
    if v == 2 and m.hdr.get("blank_sys"):
        raise Skip()
    crx = to_crx(text)
    p0 = ctx.write("ref/site0010.10o", text)
    how = r.choice(["plain", "gz", "bz2", "zip", "Z"])
    base = r.choice(["site0010.10d", "SITE00XXX_R_20100010000_01D_30S_MO.crx", "compact"])
    suffix = r.choice(SUFFIX[how])
    p = ctx.write("c/" + base + suffix, pack(r, crx, how, base))
    what = f"CRINEX of RINEX {m.version} in {how} ({p.name})"
    a = ctx.must("crx-gettime-raised", what + " gettime", gr.gettime, p)
    if oracle.arr_us(a) != m.times:
        raise Violation("crx-times", f"{what}: lists {len(a)} times, original has {len(m.times)}")
    for k in range(2):
        opts, use, meas = ({}, None, None) if k == 0 else other_opts(ctx, m, 0.4)
        times = None
        if k and r.random() < 0.4:
            w = rand_window(r, m.times)
            opts["tlim"] = spell_window(r, w)
            times = {t for t in m.times if w[0] <= t <= w[1]}
        src = str(p) if r.random() < 0.3 else p
        # decompression trims lines, so the speculation is judged on the trimmed text
        trimmed = "\n".join(x.rstrip() for x in text.split("\n"))
        ds = wl.load(ctx, m, trimmed, src, what=what, **opts)
        wl.check_obs(ctx, ds, m, f"{what} {opts}", use, meas, times, ind=opts.get("useindicators", False))
        ref = wl.load(ctx, m, text, p0, **opts)
        oracle.same_dataset(ctx, ds, ref, f"{what} vs original, {opts}", key="crx", drop=FNDROP + ("version",))
        ctx.n["pairs_compared"] += 1
        ctx.distinct(text, how, sorted(opts))
    ctx.n["crx_" + how] += 1
    ctx.n[f"crx_v{v}"] += 1
    ctx.sample = {"seed": ctx.seed, "what": what, "plain_bytes": len(text), "compact_bytes": len(crx)}


# ---------------------------------------------------------------- C23

def split_header(text: str):
    lines = text.split("\n")
    i = next((k for k, x in enumerate(lines) if "END OF HEADER" in x), None)
    return lines, i


MULTI = ("# / TYPES OF OBSERV", "SYS / # / OBS TYPES", "GLONASS SLOT / FRQ #", "SYS / PHASE SHIFT", "SYS / SCALE FACTOR", "PRN / # OF OBS", "SYS / DCBS APPLIED", "SYS / PCVS APPLIED")


def rewrite_hdr_order(rng, text):
    """shuffle header records, keeping records of one label in order and first and last in place"""
    lines, i = split_header(text)
    if i is None:
        return text
    k0 = next(k for k, x in enumerate(lines) if x.strip())
    if "CRINEX" in lines[k0]:
        return text
    head = lines[k0 + 1:i]
    blocks, order = {}, []
    for n, x in enumerate(head):
        lab = x[60:].strip()
        key = lab if lab in MULTI or lab == "APPROX POSITION XYZ" else (lab, n)
        if key not in blocks:
            blocks[key] = []
            order.append(key)
        blocks[key].append(x)
    rng.shuffle(order)
    return "\n".join(lines[:k0 + 1] + [x for k in order for x in blocks[k]] + lines[i:])


def rewrite_comments(rng, text):
    lines, i = split_header(text)
    if i is None:
        return text
    k0 = next(k for k, x in enumerate(lines) if x.strip())
    for _ in range(rng.randint(1, 3)):
        # never between continuation lines
        ok = [k for k in range(k0 + 1, i + 1) if not (lines[k - 1][60:].strip() in MULTI and lines[k][60:].strip() == lines[k - 1][60:].strip())]
        lines.insert(rng.choice(ok), f"{rng.choice(['inserted comment', '', 'x' * 60, '> 2010 03 05', ' 10  3  5  0  0  0.0']):60s}COMMENT")
        i += 1
    return "\n".join(lines)


def rewrites(rng, text, kind):
    """-> [(name, new text)] each equivalent to text"""
    out = []
    nl = text.endswith("\n")
    body = text[:-1] if nl else text
    lines = body.split("\n")
    out.append(("crlf", text.replace("\n", "\r\n")))
    out.append(("trim", "\n".join(x.rstrip() for x in lines) + ("\n" if nl else "")))
    w = 79 if kind == "nav2" else 80
    out.append(("pad", "\n".join(f"{x:{w}s}" for x in lines) + ("\n" if nl else "")))
    out.append(("extra-blanks", "\n".join(x + " " * rng.choice([0, 0, 1, 3]) for x in lines) + ("\n" if nl else "")))
    out.append(("no-final-newline", body))
    out.append(("lead-blank", ("\n" if rng.random() < 0.5 else "   \n") * rng.randint(1, 8) + text))
    out.append(("comments", rewrite_comments(rng, text)))
    out.append(("header-order", rewrite_hdr_order(rng, text)))
    combo = rewrite_comments(rng, rewrite_hdr_order(rng, text))
    combo = "\n".join(x.rstrip() for x in combo.split("\n")).rstrip("\n")
    if rng.random() < 0.5:
        combo = "\n" * rng.randint(0, 8) + combo
    out.append(("combined", combo.replace("\n", "\r\n") if rng.random() < 0.7 else combo))
    return out


def body_blanks(rng, m, text):
    """blank lines between epochs or records, and at the end of the file"""
    lines = text.split("\n")
    p = rng.choice([0.2, 1.0])
    for k in sorted(m.marks + [m.nlines], reverse=True):
        if rng.random() < p:
            lines[k:k] = [rng.choice(["", "", " " * 80, "   "]) for _ in range(rng.choice([1, 1, 2, 3]))]
    return "\n".join(lines)


def drop_spares(ds):
    return ds.drop_vars([v for v in ds.data_vars if str(v).startswith("spare")])


def c23(ctx: Ctx):
    r = ctx.rng
    kind, m, text, name = any_file(ctx)
    p = ctx.write("ref/" + name, text)
    ref = wl.load(ctx, m, text, p)
    check_model(ctx, kind, m, ref, "load(original)")
    rw = rewrites(r, text, kind)
    rw.append(("body-blanks", body_blanks(r, m, text)))
    for nm, t in r.sample(rw, 4):
        if t == text:
            continue
        stream = kind != "sp3" and r.random() < 0.3
        src = io.StringIO(t) if stream else ctx.write(f"{nm}/{name}", t)
        opts = {"fast": False} if kind == "obs2" and r.random() < 0.5 else {}
        ds = wl.load(ctx, m, t, src, what=f"{kind} rewritten: {nm}" + (" stream" if stream else ""), **opts)
        a, b = (drop_spares(ds), drop_spares(ref)) if kind.startswith("nav") else (ds, ref)
        oracle.same_dataset(ctx, a, b, f"{kind} rewritten: {nm}" + (" stream" if stream else ""), key="layout-" + nm, drop=FNDROP)
        ctx.n["rewrite_" + nm] += 1
        ctx.distinct(text, nm, t[:2000])
    ctx.sample = {"seed": ctx.seed, "kind": kind, "calls": ctx.trace[-5:]}


def c23_svpad(ctx: Ctx):
    """same model rendered with blank and with zero padded satellite numbers"""
    r = ctx.rng
    kind, m, text, name = any_file(ctx)
    seed = r.random()
    out = []
    for zp in (True, False, "mixed"):
        lay = gen.rand_layout(random.Random(seed), m)
        lay.zero_pad_sv = zp
        rr = random.Random(seed)
        t = gen.render_obs(m, rr, lay) if kind.startswith("obs") else gen.render_nav(m, rr, lay) if kind.startswith("nav") else gen.render_sp3(m, rr, lay)
        src = ctx.write(f"pad{zp}/{name}", t)
        ds = wl.load(ctx, m, t, src, what=f"{kind} satellite numbers {'zero' if zp is True else 'blank' if zp is False else 'variously'} padded")
        out.append(ds)
        if zp is True:
            check_model(ctx, kind, m, ds, "zero padded")
        ctx.distinct(t)
    oracle.same_dataset(ctx, out[0], out[1], f"{kind}: zero vs blank padded satellite numbers", key="layout-svpad", drop=FNDROP)
    oracle.same_dataset(ctx, out[0], out[2], f"{kind}: zero vs variously padded satellite numbers", key="layout-svpad", drop=FNDROP)
    ctx.n["svpad_" + kind] += 1


from . import real  # noqa: E402

_A = ["text rendered by mon.gen follows the RINEX / SP3 column tables"]
SPECS = {
    "C13": {"workloads": {"gen": (c13, 320, 8000)},
            "rule": "one case = one random file of any kind put into three containers and a stream (suffix in any case or none, multi-member gzip/bzip2, stored/deflated zip; 35 % with non-ASCII comments, 30 % with CRLF); load, rinexinfo, rinexheader and gettime compared with the plain file; distinct by (text, container, suffix, spoiling)",
            "min_events": {"container_gz": 100, "container_bz2": 100, "container_zip": 100, "container_Z": 100, "container_stream": 100, "headers_compared": 300, "nonascii_files": 50, "crlf_files": 50, "path_link": 30, "path_relative": 30, "path_home": 30}, "assumptions": _A},
    "C14": {"workloads": {"gen": (c14, 320, 8000)},
            "rule": "one case = one random OBS file compressed by hatanaka.rnx2crx, in a container, loaded with default and random options and compared with the original and the model; distinct by (text, container, options)",
            "min_events": {"pairs_compared": 300, **{"crx_" + h: 25 for h in ("plain", "gz", "bz2", "zip", "Z")}, "crx_v2": 80, "crx_v3": 80},
            "assumptions": _A + ["the installed hatanaka package compresses correctly"]},
    "C23": {"workloads": {"rewrite": (c23, 320, 8000), "svpad": (c23_svpad, 160, 3000)},
            "rule": "one case = one random file and four rewrites of its insignificant layout, each loaded and compared with the original; distinct by (text, rewrite)",
            "min_events": {"rewrite_" + n: 60 for n in ("crlf", "trim", "pad", "extra-blanks", "no-final-newline", "lead-blank", "comments", "header-order", "combined", "body-blanks")}, "assumptions": _A + ["at most eight blank lines before the header", "spare NAV slots are not data"]},
}
