"""C25 history independence and side effects, C26 determinism, C27 concurrent reads"""
from __future__ import annotations
import copy
import csv
import decimal
import gc
import gzip
import io
import locale
import logging
import os
import pickle
import random
import subprocess
import sys
import tempfile
import threading
import time
import warnings
import zipfile
from datetime import datetime, timedelta
from pathlib import Path

import georinex as gr
import numpy as np
import pandas
import xarray

from .. import gen, wl
from ..core import ROOT, ZONES, Ctx, Skip, Violation
from ..gen import us_t
from ..pristine import canon, differs, digest, materialize, nc_digest, pristine, run_spec, unordered
from .container import any_file, pack
from .options import rand_window, spell_window

SRC = str(Path(gr.__file__).resolve().parent)


# ---------------------------------------------------------------- specs

BAD = [b"", b"\n\n\n", b"not RINEX\n", b"     2.11           CLOCK DATA          G                   RINEX VERSION / TYPE\n", b"\x1f\x8b\x08\x00broken",
       b"     2.11           OBSERVATION DATA    G                   RINEX VERSION / TYPE\n", b"PK\x03\x04broken", b"     3.02           N: GNSS NAV DATA    M                   RINEX VERSION / TYPE\n"]


class File:
    def __init__(self, ctx, name, kind=None):
        r = ctx.rng
        self.name = name
        if kind == "bad":
            self.kind, self.m, self.text = "bad", None, None
            self.data = r.choice(BAD)
        else:
            self.kind, self.m, self.text, _ = any_file(ctx, kind, n_epochs=r.choice([1, 2, 3]), max_sats=r.choice([3, 9, 14])) if kind and kind.startswith("obs") else any_file(ctx, kind)
            if r.random() < 0.15:  # characters of the body damaged
                at = self.text.find("END OF HEADER") + 1
                cs = [i for i in range(at, len(self.text)) if self.text[i].isdigit() and self.text[i - 1] in "0123456789."] or [0]
                b = list(self.text)
                for i in r.sample(cs, min(len(cs), r.choice([1, 1, 2, 4]))):
                    b[i] = r.choice("x?_x9")
                self.text = "".join(b)
                ctx.n["damaged_files"] += 1
            how = r.choice(["plain"] * 6 + ["gz", "bz2", "zip", "Z"])
            self.data = pack(r, self.text.encode("ascii"), how, "inner.10o")
            if r.random() < 0.06:
                self.data = self.data[: r.randrange(len(self.data))]
        self.us = sorted(set(self.times())) or [0]

    def times(self):
        m = self.m
        if m is None:
            return []
        if self.kind.startswith("obs"):
            return list(m.times)
        if self.kind.startswith("nav"):
            return [t for _, t, _ in m.records()]
        return [gen.t_us(t) if isinstance(t, datetime) else t for t in m.times]


def rand_spec(ctx, f: File, form=None):
    r = ctx.rng
    x = r.random()
    if f.kind == "sp3":
        fn = r.choice(["load", "load", "load_sp3", "rinexinfo", "rinexheader", "gettime"])
    elif x < 0.6:
        fn = "load"
    elif x < 0.7:
        fn = {"o": "rinexobs", "n": "rinexnav"}.get(f.kind[0], "load")
    else:
        fn = r.choice(["rinexheader", "gettime", "rinexinfo", "get_locations"])
    kw = {}
    if fn in ("load", "rinexobs", "rinexnav"):
        if r.random() < 0.3:
            kw["tlim"] = spell_window(r, rand_window(r, f.us)) if r.random() < 0.9 else (datetime(2010, 1, 2), datetime(2010, 1, 1))
        if r.random() < 0.3:
            kw["use"] = r.choice(["G", ["G", "R"], {"R", "E"}, ("G", "E", "C"), {"S"}, ["R"], {"G", "R", "E", "C"}, {"I", "G"}, {"X", "G", "R"}, ["X", "R", "R"]])
        if fn != "rinexnav":
            if f.m is not None and f.kind.startswith("obs") and r.random() < 0.3:
                kw["meas"], _ = wl.rand_meas(r, f.m)
            if r.random() < 0.3:
                kw["useindicators"] = True
            if r.random() < 0.4:
                kw["fast"] = False
            if r.random() < 0.2:
                kw["interval"] = r.choice([30, 1.5, timedelta(seconds=15), 0, -1, timedelta(hours=3)])
    forms = ["path", "path", "str", "stream"] if f.text is not None else ["path", "str"]
    form = form or r.choice(forms)
    if fn == "get_locations":
        form = r.choice(["path", "paths"])
    if fn == "load_sp3":
        form = "path"
    src = (form, f.text) if form == "stream" else ("paths", [f.name]) if form == "paths" else (form, f.name)
    return {"fn": fn, "src": src, "kw": kw}


def short(spec):
    s = spec["src"]
    return f"{spec['fn']}({'<stream>' if s[0] == 'stream' else s[1]} as {s[0]}, {spec['kw']}{', out=' + spec['out'] if spec.get('out') else ''})"


# ---------------------------------------------------------------- C25

_audit_log = None


def _hook(event, args):
    if _audit_log is not None:
        if event == "open" and args and isinstance(args[0], (str, bytes)):
            mode, flags = args[1], args[2]
            if (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                _audit_log.append(("write", os.fsdecode(args[0])))
        elif event in ("os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chdir", "os.putenv", "os.utime", "shutil.rmtree", "tempfile.mkstemp", "tempfile.mkdtemp"):
            _audit_log.append((event, str(args[0]) if args else ""))


_hooked = False


def audit_start():
    global _audit_log, _hooked
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked = True
    _audit_log = []


def audit_stop():
    global _audit_log
    x, _audit_log = _audit_log, None
    return x


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            pass
    return {k: v for k, v in out.items() if not v.startswith("/proc/")}


def surroundings(ctx):
    return {"cwd": os.getcwd(), "environ": dict(os.environ), "errstate": np.geterr(), "random": hash(random.getstate()), "nprandom": hash(np.random.get_state()[1].tobytes()),
            "tmp": sorted(os.listdir(tempfile.gettempdir())), "xopts": dict(xarray.get_options()), "recursion": sys.getrecursionlimit(),
            "sigprof": None, "syspath": list(sys.path), "warnings": [repr(f) for f in warnings.filters], "showwarning": repr(warnings.showwarning),
            "logging": (logging.getLogger().level, logging.root.manager.disable), "locale": locale.setlocale(locale.LC_ALL),
            "decimal": repr(decimal.getcontext()), "print": np.get_printoptions(), "gc": gc.isenabled(), "switch": sys.getswitchinterval(), "std": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
            "threads": threading.active_count(), "timezone": (time.tzname, time.timezone), "hooks": (sys.gettrace(), sys.getprofile(), sys.excepthook),
            "maxwidth": pandas.get_option("display.max_rows"), "csv": csv.field_size_limit()}


CORE_STATE = {"cwd", "environ", "errstate", "random", "nprandom", "tmp", "xopts", "recursion"}


def snap(args, kw):
    """comparable copy of the arguments, streams by contents"""
    def one(x):
        if isinstance(x, io.StringIO):
            return ("stream", x.getvalue(), x.closed)
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, [one(v) for v in x])
        if isinstance(x, (set, frozenset)):
            return ("set", sorted(map(repr, x)))
        return repr(x)
    return [one(a) for a in args], {k: one(v) for k, v in kw.items()}


def spoil(x, r):
    """the caller does what it likes with what it got"""
    try:
        if isinstance(x, xarray.Dataset):
            for v in list(x.data_vars):
                a = x[v].values
                if a.dtype.kind == "f" and a.flags.writeable:
                    a[...] = 12345.678
            if "time" in x.coords and r.random() < 0.5:
                del x["time"]
            for v in x.attrs.values():
                if isinstance(v, list):
                    v.clear()
            x.attrs.clear()
        elif isinstance(x, dict):
            for v in x.values():
                if isinstance(v, (list, dict)):
                    v.clear()
                elif isinstance(v, xarray.Dataset):
                    spoil(v, r)
            x.clear()
        elif isinstance(x, np.ndarray) and x.size and x.flags.writeable:
            x[...] = x[0]
        elif hasattr(x, "iloc"):
            x.iloc[:, :] = 0
    except (ValueError, TypeError, KeyError):
        pass


class Boom(KeyboardInterrupt):
    pass


def interrupt_after(n):
    """trace function raising Boom at the n-th line executed inside georinex"""
    left = [n]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] <= 0:
                sys.settrace(None)
                raise Boom
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(SRC) else None
    return glob


def observed_call(ctx: Ctx, spec, stream=None, boom=None, keep_results=None):
    """run one spec in this process under the side-effect monitors -> outcome digest"""
    r = ctx.rng
    fn, args, kw = materialize(spec, ctx.dir)
    if stream is not None:
        args[0] = stream
        stream.seek(r.choice([0, r.randrange(len(stream.getvalue()) + 1), len(stream.getvalue())]))
    before_args = snap(args, kw)
    keep = copy.deepcopy(kw)
    what = short(spec)
    contents = {p: p.read_bytes() for p in ctx.dir.rglob("*") if p.is_file()}
    env0, fd0, nmod = surroundings(ctx), fds(), len(sys.modules)
    audit_start()
    res = exc = held = None
    try:
        ctx.n["api_calls"] += 1
        ctx.trace.append(what + (f" interrupted after {boom} lines" if boom else ""))
        if boom:
            sys.settrace(interrupt_after(boom))
        try:
            res = fn(*args, **kw)
        finally:
            if boom:
                sys.settrace(None)
        out = None
    except Exception as e:
        exc, held = type(e).__name__, e
    except Boom:
        exc = "Boom"
        ctx.n["interrupted_calls"] += 1
    log = audit_stop()
    # descriptors, with the result or the exception still held by the caller
    fd1 = fds()
    if fd1 != fd0 and held is None:
        gc.collect()
        fd1 = fds()
    held = None
    new = {k: v for k, v in fd1.items() if fd0.get(k) != v}
    nc = spec["src"][0] in ("path", "str") and str(spec["src"][1]).endswith(".nc")
    if new and not nc:
        raise Violation("left-open", f"{what} -> {exc or 'result'}: left open {new}")
    ctx.n["descriptor_checks"] += 1
    out = ("raised", exc) if exc else ("ok", digest(res))
    if not exc:
        for v in [res] if isinstance(res, xarray.Dataset) else res.values() if isinstance(res, dict) else []:
            if nc and isinstance(v, xarray.Dataset):
                v.close()
    env1 = surroundings(ctx)
    bad = [k for k in env0 if env0[k] != env1[k]]
    if len(sys.modules) != nmod:  # a module imported at first use may configure the process
        bad = [k for k in bad if k in CORE_STATE]
    ctx.n["process_state_checks"] += 1
    if bad:
        raise Violation("side-effect-" + bad[0], f"{what}: changed {bad[0]}: {env0[bad[0]]!r:.300} -> {env1[bad[0]]!r:.300}")
    after_args = snap(args, kw)
    if after_args != before_args or {k: type(v) for k, v in kw.items()} != {k: type(v) for k, v in keep.items()}:
        raise Violation("argument-changed", f"{what}: arguments were {before_args!r:.300}, now {after_args!r:.300}")
    allowed = {str(ctx.dir / spec["out"])} if spec.get("out") else set()
    for ev, p in log:
        ctx.n["write_events_audited"] += 1
        if ev == "write" and p not in allowed and p != os.devnull and "__pycache__" not in p and os.path.exists(p) and not p.startswith("/proc/"):
            raise Violation("wrote-file", f"{what}: created or opened for writing {p}")
    now = {p: p.read_bytes() for p in ctx.dir.rglob("*") if p.is_file() and str(p) not in allowed}
    if now != {p: b for p, b in contents.items() if str(p) not in allowed}:
        raise Violation("wrote-file", f"{what}: files changed: {sorted({str(p) for p in set(now) ^ set(contents)} | {str(p) for p in now if contents.get(p) != now[p]})[:4]}")
    if not exc and spec.get("out") and (ctx.dir / spec["out"]).is_file():
        out = out + (nc_digest(ctx.dir / spec["out"]),)
    if not exc and r.random() < 0.5:
        spoil(res, r)
        ctx.n["results_spoiled"] += 1
    elif not exc and keep_results is not None and not nc:
        keep_results.append((what, out[1], res))
    return out


def still_same(ctx, kept):
    """what a caller holds is not touched by later calls"""
    for what, dig, res in kept:
        ctx.n["held_results_checked"] += 1
        d = differs(digest(res), dig)
        if d:
            raise Violation("result-changed", f"the result of {what}, held by the caller, was changed by a later call: {d}\n" + "\n".join(ctx.trace[-8:]))


def c25(ctx: Ctx):
    r = ctx.rng
    P = pristine()
    old_tmp = tempfile.tempdir
    td = tempfile.mkdtemp(prefix="tmpd", dir=ctx.base)
    tempfile.tempdir = td
    try:
        names = r.sample(["site0010.10o", "site0010.10n", "a.rnx", "b.rnx", "x.sp3", "c.gz", "d"], r.choice([1, 2, 3]))
        files: dict[str, File] = {}
        streams: dict[str, io.StringIO] = {}
        specs: list = []
        ncs: list = []
        stamp = time.time() - 1000
        nout = 0
        kept: list = []

        def put(name):
            kind = r.choice(["obs2", "obs2", "obs3", "obs3", "nav2", "nav3", "sp3", "bad"])
            f = File(ctx, name, kind)
            old = files.get(name)
            if old is not None and old.text is not None and r.random() < 0.4:  # as long as before, other digits
                f = copy.copy(old)
                b = old.text.index("END OF HEADER") if "END OF HEADER" in old.text else len(old.text) // 2
                digits = [i for i in range(b, len(f.text)) if f.text[i].isdigit()]
                for i in r.sample(digits, min(len(digits), 3)):
                    f.text = f.text[:i] + r.choice("123456789") + f.text[i + 1:]
                f.data = f.text.encode("ascii")
                ctx.n["rewrites_same_length"] += 1
            if name.endswith(".gz") and f.data[:2] not in (b"\x1f\x8b", b"BZ", b"PK", b"\x1f\x9d"):
                f.data = gzip.compress(f.data, 0, mtime=0) if r.random() < 0.7 else pack(r, f.data, "gz", "inner")
            p = ctx.dir / name
            if p.exists() and r.random() < 0.5:  # replaced by rename: new inode
                q = ctx.dir / (name + ".new")
                q.write_bytes(f.data)
                os.replace(q, p)
            else:
                p.write_bytes(f.data)
            ctx.files[name] = f.data
            if r.random() < 0.7:
                os.utime(p, (stamp, stamp))  # same timestamp as before
            files[name] = f
            ctx.trace.append(f"-- {name} is now {f.kind} ({len(f.data)} bytes)")
            ctx.n["rewrites"] += 1
        for n in names:
            put(n)
        for step in range(r.choice([4, 6, 9])):
            x = r.random()
            if x < 0.3 and step:
                put(r.choice(names))
            if specs and x > 0.7:  # the same call again, after whatever happened since
                spec = dict(r.choice(specs))
                spec.pop("out", None)
                if spec["src"][0] == "stream" or (ctx.dir / (spec["src"][1] if isinstance(spec["src"][1], str) else spec["src"][1][0])).exists():
                    ctx.n["calls_repeated"] += 1
            elif ncs and x < 0.1:
                spec = {"fn": r.choice(["load", "rinexheader", "rinexinfo"]), "src": ("path", r.choice(ncs)), "kw": {}}
            else:
                spec = rand_spec(ctx, files[r.choice(names)])
                if spec["fn"] == "load" and spec["src"][0] in ("path", "str") and r.random() < 0.15:
                    nout += 1
                    spec["out"] = f"out{nout}.nc"
            specs.append(spec)
            st = None
            if spec["src"][0] == "stream":
                st = streams.setdefault(spec["src"][1], io.StringIO(spec["src"][1]))
            if r.random() < 0.2 and not spec.get("out"):  # a call that is interrupted; its only trace may be its absence
                observed_call(ctx, spec, st, boom=int(10 ** r.uniform(0, 3.5)))
            want = P.do(run_spec, dict(spec, out="p_" + spec["out"]) if spec.get("out") else spec, ctx.dir)
            if want[0] == "died":
                raise RuntimeError(f"reference run failed: {want}")
            if spec.get("out"):
                p = ctx.dir / ("p_" + spec["out"])
                if p.exists():
                    p.unlink()
            got = observed_call(ctx, spec, st, keep_results=kept)
            still_same(ctx, kept)
            ctx.n["results_compared"] += 1
            ctx.n["results_refused"] += got[0] == "raised"
            d = differs(list(got), list(want))
            if d:
                raise Violation("history", f"{short(spec)} after {len(specs) - 1} calls (history below) differs from the same call in a new process: {d}\n" + "\n".join(ctx.trace[-14:]))
            if spec.get("out") and got[0] == "ok" and (ctx.dir / spec["out"]).exists():
                ncs.append(spec["out"])
        ctx.distinct(*[f.data for f in files.values()], len(specs))
        ctx.sample = {"seed": ctx.seed, "history": ctx.trace[-12:]}
        ctx.n["histories"] += 1
    finally:
        tempfile.tempdir = old_tmp
        audit_stop()
        sys.settrace(None)
        import shutil
        shutil.rmtree(td, ignore_errors=True)


def c25_replaced(ctx: Ctx):
    """one name, several contents of the same length and time stamp (and inode): every read gives the current one"""
    r = ctx.rng
    P = pristine()
    how = r.choice(["plain", "plain", "gz", "zip", "bare gz"])
    name = r.choice(["a.10o", "b.rnx", "x.sp3", "d"]) + {"gz": ".gz", "zip": ".zip"}.get(how, "")
    f = File(ctx, name, r.choice(["obs2", "obs2", "obs3", "obs3", "nav2", "nav3", "sp3"]))
    text = f.text
    b = text.index("\n") + 1
    p = ctx.dir / name
    specs = [{"fn": "load", "src": ("path", name), "kw": {}}] + [rand_spec(ctx, f, form="path" if r.random() < 0.7 else None) for _ in range(r.choice([1, 2]))]
    specs = [x for x in specs if x["src"][0] != "stream"]
    specs += [{"fn": r.choice(["rinexheader", "gettime", "rinexinfo"]), "src": ("path", name), "kw": {}}]
    stamp = time.time() - 1000
    old_tmp = tempfile.tempdir
    td = tempfile.mkdtemp(prefix="tmpd", dir=ctx.base)
    tempfile.tempdir = td
    seen = 0
    last: dict = {}
    try:
        for version in range(r.choice([2, 3, 4])):
            if version:
                digits = [i for i in range(b, len(text)) if text[i].isdigit()]
                for i in r.sample(digits, min(len(digits), r.choice([1, 3, 20]))):
                    text = text[:i] + r.choice("123456789") + text[i + 1:]
                if b == 81 and r.random() < 0.4:  # another version, kind or system
                    text = text[:5] + r.choice("23") + text[6] + r.choice("0123") + text[8:] if r.random() < 0.5 else text[:20] + r.choice("ON") + text[21:] if r.random() < 0.3 else text[:40] + r.choice("GREM ") + text[41:]
            data = text.encode("ascii")
            if how.endswith("gz"):
                data = gzip.compress(data, 0, mtime=0)
            elif how == "zip":
                z = io.BytesIO()
                with zipfile.ZipFile(z, "w", zipfile.ZIP_STORED) as zf:
                    zf.writestr(zipfile.ZipInfo("inner"), data)
                data = z.getvalue()
            p.write_bytes(data)
            os.utime(p, (stamp, stamp))
            ctx.files[name] = data
            ctx.trace.append(f"-- {name} is version {version} ({len(data)} bytes, {f.kind}, {how})")
            for j in r.sample(range(len(specs)), len(specs)):
                want = P.do(run_spec, specs[j], ctx.dir)
                if want[0] == "died":
                    raise RuntimeError(f"reference run failed: {want}")
                got = observed_call(ctx, specs[j], None, keep_results=[])
                ctx.n["replaced_compared"] += 1
                if version and differs(list(want), last[j]):
                    seen += 1
                last[j] = list(want)
                d = differs(list(got), list(want))
                if d:
                    raise Violation("history", f"{short(specs[j])} of version {version} differs from the same call in a new process: {d}\n" + "\n".join(ctx.trace[-14:]))
        ctx.n["replacements_that_matter"] += seen
        ctx.distinct(data, how, len(specs))
        ctx.sample = {"seed": ctx.seed, "history": ctx.trace[-12:]}
    finally:
        tempfile.tempdir = old_tmp
        audit_stop()
        sys.settrace(None)
        import shutil
        shutil.rmtree(td, ignore_errors=True)


# ---------------------------------------------------------------- C26

def c26_seeds(ctx: Ctx):
    """the same calls in interpreters with other hash seeds, poisoned heaps, time zones, locales, working directories"""
    r = ctx.rng
    specs = []
    for i in range(14):
        f = File(ctx, f"f{i}" + r.choice([".10o", ".rnx", ""]), r.choice(["obs2", "obs2", "obs2", "obs3", "obs3", "obs3", "nav2", "nav3", "nav3", "sp3"]))
        (ctx.dir / f.name).write_bytes(f.data)
        ctx.files[f.name] = f.data
        specs += [rand_spec(ctx, f) for _ in range(3)]
        specs.append({"fn": "load", "src": ("path", f.name), "kw": {}})
    (ctx.dir / "specs.pkl").write_bytes(pickle.dumps(specs))
    runs = []
    for i in range(3 if ctx.tier == "thorough" or r.random() < 0.5 else 2):
        hs = str(r.randrange(1, 2**32)) if i else "0"
        perturb = str(r.choice([165, r.randrange(1, 255)])) if i else "0"
        # nor on time zone, locale, working directory, umask or python -O
        zone, loc, flags, cwd, mask = ("UTC0", "C", [], ROOT, 0o022) if i == 0 else (
            r.choice(ZONES[1:]), r.choice(["C", "C.utf8", "xx_YY"]), r.choice([[], ["-O"], ["-X", "utf8"], ["-X", "utf8=0"]]), r.choice([ROOT, "/", ctx.dir]), r.choice([0o022, 0o077]))
        env = dict(os.environ, PYTHONHASHSEED=hs, MALLOC_PERTURB_=perturb, PYTHONPATH=str(ROOT), TZ=zone, LC_ALL=loc, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-W", "ignore", *flags, "-m", "mon.hashrun", str(ctx.dir)], env=env, cwd=cwd, umask=mask, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if p.returncode:
            raise RuntimeError(f"hash-seed run failed: {p.stderr.decode()[-1500:]}")
        # the tools print while saving; the pickle comes last
        runs.append((f"{hs} TZ={zone} LC_ALL={loc} {' '.join(flags)} cwd={cwd}", perturb, pickle.loads(p.stdout)))
        ctx.n["interpreters"] += 1
    for hs, pt, res in runs[1:]:
        for spec, a, b in zip(specs, runs[0][2], res):
            ctx.n["results_compared"] += 1
            d = differs(list(a), list(b))
            if d:
                raise Violation("seed", f"{short(spec)}: hash seed {runs[0][0]} and malloc pattern {runs[0][1]} against {hs}, {pt}: {d}")
    ctx.distinct(ctx.seed)
    ctx.sample = {"seed": ctx.seed, "interpreters": [(h, p) for h, p, _ in runs], "calls": [short(s) for s in specs[:4]]}


class poisoned:
    """numpy.empty returns memory that held something else"""

    def __init__(self, pat):
        self.pat = pat
        self.n = 0

    def fill(self, a):
        if a.dtype.kind in "fciub" and a.size:
            self.n += 1
            v = a.reshape(-1).view(np.uint8) if a.flags.c_contiguous else None
            if v is not None:
                v[:] = np.resize(np.frombuffer(self.pat, np.uint8), v.size) if a.dtype.kind != "b" else (self.pat[0] & 1)
        return a

    def __enter__(self):
        self.e, self.el = np.empty, np.empty_like
        np.empty = lambda *a, **k: self.fill(self.e(*a, **k))
        np.empty_like = lambda *a, **k: self.fill(self.el(*a, **k))
        return self

    def __exit__(self, *a):
        np.empty, np.empty_like = self.e, self.el


PATTERNS = [b"\x00", b"\xff", np.array([4242.25]).tobytes(), np.array([-1e-7, 20000000.125]).tobytes(), b"\x01", b"\x7f\xf0\x00\x00\x00\x00\x00\x00"]


def c26_memory(ctx: Ctx):
    r = ctx.rng
    f = File(ctx, "f" + r.choice([".10o", ".rnx", ""]), r.choice(["obs2", "obs2", "obs3", "nav2", "nav3", "sp3"]))
    (ctx.dir / f.name).write_bytes(f.data)
    ctx.files[f.name] = f.data
    for _ in range(2):
        spec = rand_spec(ctx, f)
        if spec["fn"] in ("rinexinfo", "rinexheader", "get_locations"):
            spec = {"fn": "load", "src": ("path", f.name), "kw": {}}
        ref = None
        for pat in r.sample(PATTERNS, 3):
            with poisoned(pat) as p:
                got = run_spec(spec, ctx.dir)
            ctx.n["arrays_poisoned"] += p.n
            ctx.n["results_compared"] += 1
            if ref is None:
                ref = got
                continue
            d = differs(list(got), list(ref))
            if d:
                raise Violation("memory", f"{short(spec)}: result depends on what was in memory: {d}")
    ctx.distinct(f.data)


def c26_order(ctx: Ctx):
    """selections are sets: neither order, nor repetition, nor container type matter"""
    r = ctx.rng
    kind = r.choice(["obs2", "obs2", "obs3", "obs3", "nav3"])
    f = File(ctx, "f.rnx", kind)
    (ctx.dir / f.name).write_bytes(f.data)
    ctx.files[f.name] = f.data
    m = f.m
    kw = {}
    if r.random() < 0.3:
        kw["useindicators"] = True if kind != "nav3" else False
    if kind == "nav3":
        kw.pop("useindicators", None)
    sysl = sorted(set(m.systems)) if kind.startswith("obs") else sorted({x.sv[0] for x in m.recs})
    use = meas = None
    if r.random() < 0.8:
        use = r.sample(sysl, r.randint(1, len(sysl))) + r.sample([x for x in "GRESCJI" if x not in sysl], r.choice([0, 1, 2]) if len(sysl) < 6 else 0)
    if kind.startswith("obs") and (use is None or r.random() < 0.6):
        types = sorted({x for tl in m.types.values() for x in tl})
        meas = [x[: r.choice([1, 2, 3, 3])] for x in r.sample(types, min(len(types), r.choice([2, 3, 4])))]
    if use is None and meas is None:
        use = sysl

    def spell(x, isuse):
        y = list(x)
        r.shuffle(y)
        if r.random() < 0.2:
            y.append(r.choice(y))
        if isuse:
            return r.choice([list, tuple, set, frozenset])(y) if len(y) > 1 or r.random() < 0.5 else y[0]
        return r.choice([list, tuple])(y) if len(set(y)) > 1 or r.random() < 0.5 else y[0]
    ref = None
    for i in range(4):
        k = dict(kw)
        if use is not None:
            k["use"] = use if i == 0 else spell(use, True)
        if meas is not None:
            k["meas"] = meas if i == 0 else spell(meas, False)
        spec = {"fn": "load", "src": ("path", f.name), "kw": k}
        got = run_spec(spec, ctx.dir)
        got = [unordered(x) for x in got]
        ctx.n["results_compared"] += 1
        if ref is None:
            ref, k0 = got, k
            continue
        d = differs(got, ref)
        if d:
            raise Violation("selection-order", f"load with {k} and with {k0}: {d}")
    ctx.distinct(f.data, use, meas)


# ---------------------------------------------------------------- C27

def c27(ctx: Ctx):
    r = ctx.rng
    nfiles = r.choice([1, 1, 2, 4])
    files = []
    for i in range(nfiles):
        f = File(ctx, f"f{i}" + r.choice([".10o", ".rnx", ""]), r.choice(["obs2", "obs2", "obs3", "obs3", "nav2", "nav3", "nav3", "sp3", "sp3", "bad"]))
        (ctx.dir / f.name).write_bytes(f.data)
        ctx.files[f.name] = f.data
        files.append(f)
    nthreads = r.choice([2, 3, 4, 8])
    ncalls = r.choice([1, 2, 3])
    pool = [rand_spec(ctx, r.choice(files)) for _ in range(r.choice([1, 2, 6]))]
    plan = [[r.choice(pool) for _ in range(ncalls)] for _ in range(nthreads)]
    refs = {}
    for s in pool:
        refs[id(s)] = run_spec(s, ctx.dir)
    got = [[None] * ncalls for _ in range(nthreads)]
    bar = threading.Barrier(nthreads)
    active = [0]
    peak = [0]
    lock = threading.Lock()
    order: list[int] = []
    mode = r.choice(["switch", "yield", "yield"])
    prob = r.choice([0.01, 0.05, 0.3])

    def tracer(tid, rng):
        def local(frame, event, arg):
            if event == "line" and rng.random() < prob:
                order.append(tid)
                time.sleep(0)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(SRC) else None
        return glob

    def work(tid):
        rng = random.Random(f"{ctx.seed}:{tid}")
        bar.wait(30)
        for k in range(ncalls):
            with lock:
                active[0] += 1
                peak[0] = max(peak[0], active[0])
            if mode == "yield":
                sys.settrace(tracer(tid, rng))
            try:
                got[tid][k] = run_spec(plan[tid][k], ctx.dir)
            except BaseException as e:  # noqa: BLE001
                got[tid][k] = ("error", f"{type(e).__name__}: {e}")
            finally:
                sys.settrace(None)
            with lock:
                active[0] -= 1
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    flt = warnings.filters[:]
    try:
        ths = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(nthreads)]
        for t in ths:
            t.start()
        end = time.time() + 120
        for t in ths:
            t.join(max(0.1, end - time.time()))
        if any(t.is_alive() for t in ths):
            raise Violation("hang", f"threads did not finish: {[short(s) for p in plan for s in p][:6]}")
    finally:
        sys.setswitchinterval(old)
        warnings.filters[:] = flt
    for tid in range(nthreads):
        for k in range(ncalls):
            s = plan[tid][k]
            ctx.n["results_compared"] += 1
            d = differs(list(got[tid][k]), list(refs[id(s)]))
            if d:
                raise Violation("interference", f"{short(s)} in one of {nthreads} threads: differs from the lone call: {d}; others ran {[short(x) for x in pool][:6]}")
    ctx.n["threads"] += nthreads
    ctx.n["peak_over_1"] += peak[0] > 1
    ctx.n["yields_injected"] += len(order)
    ctx.n["context_changes_at_yields"] += sum(a != b for a, b in zip(order, order[1:]))
    ctx.distinct(tuple(order) or ctx.seed)
    ctx.sample = {"seed": ctx.seed, "threads": nthreads, "calls": [short(s) for s in pool][:4], "peak": peak[0], "mode": mode, "yields": len(order)}


SPECS = {
    "C25": {"workloads": {"history": (c25, 200, 6000), "replaced": (c25_replaced, 80, 2000)}, "rule": "one case = a history of reads, failed and interrupted reads, conversions and rewrites over a few file names; each result is compared with the same call made first in a new process",
            "min_events": {"replaced_compared": 400, "replacements_that_matter": 100, "results_compared": 900, "rewrites": 400, "interrupted_calls": 100, "descriptor_checks": 900, "results_spoiled": 200, "calls_repeated": 100}},
    "C26": {"workloads": {"memory": (c26_memory, 240, 8000), "order": (c26_order, 200, 6000), "seeds": (c26_seeds, 16, 240)},
            "rule": "one case = calls repeated under other hash seeds, heap contents or spellings of the selection; results compared bit for bit including the order of coordinates",
            "min_events": {"results_compared": 3000, "interpreters": 32, "arrays_poisoned": 500}},
    "C27": {"workloads": {"threads": (c27, 130, 4000)}, "workers": 6, "rule": "one case = 2..8 threads calling georinex on shared files with forced context switches inside georinex; distinct by sequence of switches",
            "min_events": {"results_compared": 600, "peak_over_1": 100, "context_changes_at_yields": 3000}},
}
