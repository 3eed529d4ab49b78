"""
Reference executions for the process-level checks.

A *spec* describes one call into georinex as plain data; run_spec executes it and reduces what came back to plain data
(order of variables and of coordinates, dtypes, values bit for bit, attributes).  Pristine executes specs in a process
forked from a parent that has imported georinex and never called it: the result of a lone first call.
"""
from __future__ import annotations
import hashlib
import io
import os
import pickle
import resource
import select
import signal
import struct
import sys
import warnings
from pathlib import Path

import georinex as gr
import georinex.geo
import georinex.keplerian
import georinex.rio
import numpy as np
import xarray


def canon(x):
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    if isinstance(x, np.generic):
        return canon(x.item())
    if isinstance(x, float) and x != x:
        return "NaN"
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    return repr(x)


def arr(a):
    a = np.asarray(a)
    if a.dtype.kind == "f":
        a = np.where(np.isnan(a), np.nan, a) + 0.0
    if a.dtype.kind in "OUS":
        return (a.dtype.kind, a.shape, [str(x) for x in a.ravel().tolist()][:5000])
    b = np.ascontiguousarray(a).tobytes()
    return (a.dtype.str, a.shape, hashlib.sha1(b).hexdigest(), [str(x) for x in a.ravel()[:3]])


def digest(x):
    if isinstance(x, xarray.Dataset):
        # xarray keeps attributes and variables in dicts, their order is part of what the user sees
        return {"what": "dataset", "vars": {str(k): (v.dims, arr(v.values), canon(v.attrs)) for k, v in x.data_vars.items()}, "order": [str(k) for k in x.data_vars],
                "coords": {str(k): (v.dims, arr(v.values)) for k, v in x.coords.items()}, "dims": dict(x.sizes), "attrs": canon(x.attrs)}
    if isinstance(x, dict) and any(isinstance(v, xarray.Dataset) for v in x.values()):
        return {k: digest(v) for k, v in x.items()}
    if isinstance(x, dict):
        return {"what": "dict", "items": canon(x), "order": [str(k) for k in x]}
    if isinstance(x, (np.ndarray, xarray.DataArray)):
        return {"what": "array", "a": arr(x if isinstance(x, np.ndarray) else x.values)}
    if hasattr(x, "index") and hasattr(x, "columns"):
        return {"what": "table", "index": [str(i) for i in x.index], "cols": [str(c) for c in x.columns], "cells": canon([list(map(float, r)) for r in x.values.tolist()])}
    if isinstance(x, (tuple, list)):
        return [digest(v) if isinstance(v, (np.ndarray, xarray.DataArray)) else canon(v) for v in x]
    return canon(x)


def unordered(d):
    """forget the order of variables and entries (not of coordinates)"""
    if isinstance(d, dict) and "order" in d:
        d = dict(d, order=sorted(d["order"]))
    return d


def differs(a, b, path="result") -> str:
    """description of the first difference, or ''"""
    if type(a) is not type(b):
        return f"{path}: {a!r:.200} vs {b!r:.200}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f"{path}.{k}: only in {'second' if k in b else 'first'}"
            s = differs(a[k], b[k], f"{path}.{k}")
            if s:
                return s
        return ""
    if isinstance(a, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            s = differs(x, y, f"{path}[{i}]")
            if s:
                return s
        return ""
    return "" if a == b else f"{path}: {a!r:.200} vs {b!r:.200}"


FUNCS = {"load": lambda: gr.load, "rinexheader": lambda: gr.rinexheader, "gettime": lambda: gr.gettime, "rinexinfo": lambda: gr.rinexinfo, "rinexobs": lambda: gr.rinexobs,
         "rinexnav": lambda: gr.rinexnav, "load_sp3": lambda: gr.load_sp3, "get_locations": lambda: georinex.geo.get_locations}


def materialize(spec: dict, base: Path):
    """-> function, positional arguments, keyword arguments"""
    kind, val = spec["src"]
    if kind == "path":
        src = base / val
    elif kind == "str":
        src = str(base / val)
    elif kind == "stream":
        src = io.StringIO(val)
    elif kind == "paths":
        src = [base / v for v in val]
    kw = dict(spec["kw"])
    if spec.get("out"):
        kw["out"] = base / spec["out"]
    fn = FUNCS[spec["fn"]]()
    args = [src]
    if spec["fn"] in ("rinexobs", "rinexnav", "load_sp3"):
        o = kw.pop("out", None)
        args.append(o)
    return fn, args, kw


def run_spec(spec: dict, base: Path):
    """-> ('ok', digest) or ('raised', type name)"""
    fn, args, kw = materialize(spec, base)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            x = fn(*args, **kw)
        except Exception as e:
            return ("raised", type(e).__name__)
        d = digest(x)
        for v in [x] if isinstance(x, xarray.Dataset) else x.values() if isinstance(x, dict) else []:
            if isinstance(v, xarray.Dataset):
                v.close()
    if spec.get("out") and (base / spec["out"]).is_file():
        return ("ok", d, nc_digest(base / spec["out"]))
    return ("ok", d)


def nc_digest(fn: Path):
    out = {}
    for g in ("OBS", "NAV", None):
        try:
            with xarray.open_dataset(fn, group=g) as ds:
                out[str(g)] = digest(ds)
        except OSError:
            pass
    return out


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recvn(fd, n, timeout):
    out = b""
    while len(out) < n:
        if timeout is not None and not select.select([fd], [], [], timeout)[0]:
            raise TimeoutError
        x = os.read(fd, n - len(out))
        if not x:
            raise EOFError
        out += x
    return out


def _recv(fd, timeout=None):
    n = struct.unpack("<Q", _recvn(fd, 8, timeout))[0]
    return pickle.loads(_recvn(fd, n, timeout))


class Pristine:
    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                self._serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def _serve(self, rfd, wfd):
        signal.signal(signal.SIGPROF, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_PROF, 0)
        while True:
            try:
                fn, args = _recv(rfd)
            except EOFError:
                return
            cr, cw = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(cr)
                    signal.alarm(100)
                    resource.setrlimit(resource.RLIMIT_CPU, (90, 90))
                    _send(cw, fn(*args))
                except BaseException as e:  # noqa: BLE001
                    try:
                        _send(cw, ("died", f"{type(e).__name__}: {e}"))
                    except BaseException:  # noqa: BLE001
                        pass
                finally:
                    os._exit(0)
            os.close(cw)
            chunks = []
            while True:
                b = os.read(cr, 1 << 20)
                if not b:
                    break
                chunks.append(b)
            os.close(cr)
            os.waitpid(pid, 0)
            b = b"".join(chunks)
            if not b:
                _send(wfd, ("died", "no result"))
            else:
                while b:
                    b = b[os.write(wfd, b):]

    def do(self, fn, *args):
        _send(self.w, (fn, args))
        return _recv(self.r, 120)


_P = None


def pristine() -> Pristine:
    """made on first use, which must come before any call into georinex of this process"""
    global _P
    if _P is None or _P[0] != os.getpid():
        _P = (os.getpid(), Pristine())
    return _P[1]


def hashrun(d: str):
    """subprocess entry: run every spec of d/specs.pkl, write digests"""
    base = Path(d)
    import logging
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    specs = pickle.loads((base / "specs.pkl").read_bytes())
    out = [run_spec(s, base) for s in specs]
    sys.stdout.buffer.write(pickle.dumps(out))

