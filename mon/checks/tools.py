"""C28 receiver location table, C29 command-line tools"""
from __future__ import annotations
import contextlib
import gzip
import io
import os
import re
import subprocess
import sys
import traceback
from pathlib import Path

import georinex as gr
import georinex.geo
import hatanaka
import numpy as np
import xarray

from .. import gen, oracle, wl
from ..core import ROOT, Crash, Ctx, Violation
from ..pristine import differs, nc_digest, pristine
from .container import any_file, pack
from .header import geodetic
from .netcdf import rand_opts, small_file
from .options import rand_window, spell_window


# ---------------------------------------------------------------- C28

BADFILES = [b"", b"junk\n", b"\x1f\x8b\x08\x00cut", b"PK\x03\x04 nothing", b"BZh9 nothing", bytes(range(256)),
            b"     2.11           METEOROLOGICAL DATA                     RINEX VERSION / TYPE\n" + b" " * 60 + b"END OF HEADER       \n",
            b"     9.99           OBSERVATION DATA    M                   RINEX VERSION / TYPE\n"]


def c28(ctx: Ctx):
    r = ctx.rng
    n = r.choice([1, 1, 2, 3, 4, 6]) if r.random() < 0.97 else 40
    paths, want = [], []
    stems = [f"st{i}" + (r.choice([".x", " b", "A+", "_00[1]"]) if r.random() < 0.15 else "") for i in range(n)]
    if r.random() < 0.25:
        stems = [r.choice(stems[:2]) for _ in stems]
    kinds = []
    for i, stem in enumerate(stems):
        d = f"d{i}/"
        x = r.random()
        if x < 0.2:
            bad = r.choice(["junk", "missing", "nav", "sp3", "cut", "nc-nav", "nc-junk", "missing-nc"])
            kinds.append(bad)
            if bad == "junk":
                p = ctx.write(d + stem + r.choice([".10o", ".gz", ".rnx.gz", ".zip"]), r.choice(BADFILES))
            elif bad == "missing":
                p = ctx.dir / (d + stem + ".10o")
            elif bad == "missing-nc":
                p = ctx.dir / (d + stem + ".nc")
            elif bad == "nc-junk":
                p = ctx.write(d + stem + ".nc", b"not NetCDF")
            elif bad == "cut":
                _, m, text, _ = any_file(ctx, "obs2")
                b = gzip.compress(text.encode())
                p = ctx.write(d + stem + ".10o.gz", b[: r.randrange(5, 40)])
            elif bad == "nc-nav":
                _, m, text, name = any_file(ctx, r.choice(["nav2", "nav3"]))
                q = ctx.write(d + "src.n", text)
                p = ctx.dir / (d + stem + ".nc")
                ctx.must("convert", "load nav to file", gr.load, q, p)
            else:
                _, m, text, name = any_file(ctx, "nav3" if bad == "nav" else "sp3")
                p = ctx.write(d + stem + (".sp3" if bad == "sp3" else ".10n"), text)
            paths.append(p)
            continue
        v = r.choice([2, 3])
        m = wl.gen_pair(ctx, v, max_sats=r.choice([2, 9]), n_epochs=r.choice([1, 2, 4]), n_types=r.choice([1, 3, 10]))
        h = m.hdr
        if h.get("position") and r.random() < 0.15:
            h["position"] = r.choice([[6378137.0, 0.0, 0.0], [0.0, -6378137.0, 0.0], [-6378137.0, 0.0001, 12.5], [0.0, 0.0, 6356752.3142], [1.5, 0.0, -6356752.3142]])
        if r.random() < 0.1:
            h["interval"] = 0.0
        if h.get("position") and r.random() < 0.1:  # the first one counts
            h["more_positions"] = [[round(x + r.uniform(-5e4, 5e4), 4) for x in h["position"]] for _ in range(r.choice([1, 2]))]
        text = wl.obs_text(ctx, m)
        if h.get("more_positions"):  # the header is shuffled
            ln = next(x for x in text.splitlines() if x[60:].startswith("APPROX POSITION XYZ"))
            h["position"] = [float(ln[i:i + 14]) for i in (0, 14, 28)]
            ctx.n["repeated_positions"] += 1
        how = r.choice(["plain", "plain", "gz", "bz2", "zip", "Z", "crx", "crx.gz", "nc", "nc"])
        data = text.encode("ascii")
        if how.startswith("crx"):
            try:
                data = hatanaka.rnx2crx(data)
                hatanaka.crx2rnx(data)
            except Exception:  # the tool does not take every header
                how = "plain"
                data = text.encode("ascii")
        if how == "nc":
            q = ctx.write(d + "src.o", data)
            p = ctx.dir / (d + stem + ".nc")
            try:
                ctx.call("load obs to file", gr.load, q, p, fast=False)
            except Crash as e:
                raise Violation("convert", str(e))
        elif how == "plain":
            p = ctx.write(d + stem + r.choice([".10o", ".rnx", ""]), data)
        elif how == "crx":
            p = ctx.write(d + stem + ".crx", data)
        elif how == "crx.gz":
            p = ctx.write(d + stem + ".crx.gz", gzip.compress(data))
        else:
            p = ctx.write(d + stem + r.choice([".10o.", ".rnx."]) + how, pack(r, data, how, "inner.10o"))
        kinds.append(how)
        paths.append(p)
        if h.get("position"):
            want.append((p.name, h["position"], h.get("interval"), how))
    order = list(range(len(paths)))
    r.shuffle(order)
    paths = [paths[i] for i in order]
    arg = paths[0] if len(paths) == 1 and r.random() < 0.5 else paths
    loc = ctx.must("raised", f"get_locations({[p.name for p in paths]})", georinex.geo.get_locations, arg)
    ctx.n["tables"] += 1
    rows = [(str(i), [float(x) if x is not None else float("nan") for x in row]) for i, row in zip(loc.index, loc[["lat", "lon", "interval"]].values.tolist())]
    if sorted(n for n, _ in rows) != sorted(w[0] for w in want):
        raise Violation("rows", f"table rows {sorted(n for n, _ in rows)}, files with a position {sorted(w[0] for w in want)}, of {list(zip([p.name for p in paths], [kinds[i] for i in order]))}")
    left = list(rows)
    want.sort(key=lambda w: (abs(geodetic(*w[1])[2]) > 50e3, w[2] is None and w[3] == "nc"))  # those that are compared strictly first
    for name, pos, iv, how in want:
        lat, lon, alt = geodetic(*pos)
        ctx.n["rows_compared"] += 1
        ctx.n["rows_" + how] += 1

        def ok(row):
            if row[0] != name:
                return False
            a, b, c = row[1]
            if abs(alt) <= 50e3 and (abs(a - lat) > 1e-7 or abs((b - lon + 180) % 360 - 180) > 1e-7 / max(np.cos(np.radians(lat)), 1e-9)):
                return False
            if iv is not None:
                return abs(c - iv) <= 1e-9 * max(1, iv)
            return how == "nc" or np.isnan(c)  # a converted file carries the derived interval
        hit = [x for x in left if ok(x)]
        if not hit:
            raise Violation("row", f"no row for {name} ({how}): expected lat {lat:.8f} lon {lon:.8f} interval {iv}; rows {left}")
        left.remove(hit[0])
    ctx.distinct([p.name for p in paths], rows)
    for k in kinds:
        ctx.n["kind_" + k] += 1
    ctx.sample = {"seed": ctx.seed, "files": [p.name for p in paths], "kinds": kinds, "rows": rows[:2]}


# ---------------------------------------------------------------- C29

def cli(module: str, argv: list, cwd: str, env: dict):
    """run a command-line module in this (forked, single-use) process -> exit code, stdout, stderr"""
    import logging
    import runpy
    import warnings
    out, err = io.StringIO(), io.StringIO()
    os.chdir(cwd)
    os.environ.update(env)
    sys.argv = [module] + argv
    logging.disable(logging.NOTSET)
    code = 0
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            runpy.run_module(module, run_name="__main__", alter_sys=True)
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            code = 1
    return code, out.getvalue(), err.getvalue()[-3000:]


def run_cli(ctx, module, argv, cwd, env=None):
    ctx.trace.append(f"python -m {module} {' '.join(argv)}")
    if ctx.rng.random() < (0.02 if ctx.tier == "quick" else 0.05):  # the real thing
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", module, *argv], cwd=cwd, env=dict(os.environ, **(env or {})), stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=200)
        ctx.n["interpreter_runs"] += 1
        return p.returncode, p.stdout, p.stderr[-3000:]
    x = pristine().do(cli, module, argv, str(cwd), env or {})
    if x[0] == "died":
        raise Violation("tool-died", f"{module} {argv}: {x[1]}")
    return x


def api(fn, *a, **k):
    """outcome of an API call in a new process, like the tool"""
    return pristine().do(_api, fn, a, k)


def _api(fn, a, k):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            {"load": gr.load, "batch": gr.batch_convert}[fn](*a, **k)
        except Exception as e:
            return ("raised", f"{type(e).__name__}: {e}")
    return ("ok", "")


def rand_flags(ctx, kind, m, interval=True):
    """-> argv part, API keyword arguments"""
    r = ctx.rng
    groups, kw = [], {}
    systems = sorted(m.systems) if kind.startswith("obs") else sorted({x.sv[0] for x in m.recs}) if kind.startswith("nav") else ["G"]
    if r.random() < 0.4:
        use = r.sample("GCESJRI", r.choice([1, 1, 2, 3]))
        if r.random() < 0.8:
            use[0] = r.choice(systems)
        use = list(dict.fromkeys(use))
        groups.append([r.choice(["-u", "--use"]), *use])
        kw["use"] = use
    if kind.startswith("obs") and r.random() < 0.4:
        _, meas = wl.rand_meas(r, m)
        groups.append([r.choice(["-m", "--meas"]), *meas])
        kw["meas"] = list(meas)
    if kind != "sp3" and r.random() < 0.4:
        w = spell_window(r, rand_window(r, m.times))
        w = [x if isinstance(x, str) else x.isoformat() for x in w]
        groups.append([r.choice(["-t", "--tlim"]), *w])
        kw["tlim"] = w
    if r.random() < 0.4:
        groups.append(["-useindicators"])
        kw["useindicators"] = True
    if r.random() < 0.4:
        groups.append(["-strict"])
        kw["fast"] = False
    if r.random() < 0.2:
        groups.append([r.choice(["-v", "--verbose"])])
        kw["verbose"] = True
    if interval and kind.startswith("obs") and r.random() < 0.4:
        iv = r.choice([30.0, 1.0, 0.5, 15.0, 60.0, 0.0, 7.25, 3600.0])
        groups.append(["-interval", repr(iv) if r.random() < 0.7 else f"{iv:g}"])
        kw["interval"] = iv
    r.shuffle(groups)
    return groups, kw


def compare_nc(ctx, a: Path, b: Path, what, key):
    x, y = nc_digest(a), nc_digest(b)
    ctx.n["outputs_compared"] += 1
    ctx.n["variables_compared"] += sum(len(g["vars"]) for g in x.values())
    d = differs(x, y)
    if d:
        raise Violation(key, f"{what}: tool output differs from API output: {d}")


def c29_read(ctx: Ctx):
    r = ctx.rng
    pristine()
    kind, m, text, _ = small_file(ctx)
    name = {"o": "site0010.10o", "n": "site0010.10n", "s": "orbit.sp3"}[kind[0]]
    if r.random() < 0.2:
        name = r.choice([name.upper(), "my file " + name, "v1.2 " + name])
    how = r.choice(["plain", "plain", "plain", "gz", "bz2", "zip", "Z"])
    src = ctx.write("in/" + name + ("" if how == "plain" else "." + how), pack(r, text.encode("ascii"), how, name))
    groups, kw = rand_flags(ctx, kind, m)
    toout = r.random() < 0.85
    (ctx.dir / "toold").mkdir()
    (ctx.dir / "apid").mkdir()
    env = {}
    if toout:
        o = r.choice(["toold", "toold/x.nc"])
        tool_out = ctx.dir / o
        api_out = ctx.dir / o.replace("toold", "apid")
        groups.insert(r.randrange(len(groups) + 1), [r.choice(["-o", "--out"]), r.choice([str(tool_out), o])])
        kw["out"] = api_out
    path = r.choice([str(src), "in/" + src.name, "~/in/" + src.name])
    if path[0] == "~":
        env["HOME"] = str(ctx.dir)
    i = 0
    if groups and r.random() < 0.3:  # the file name need not come first, unless it would be taken for a list entry
        i = next((j + 1 for j, g in enumerate(groups) if g[0] not in ("-u", "--use", "-m", "--meas")), 0)
    argv = [x for g in groups[:i] for x in g] + [path] + [x for g in groups[i:] for x in g]
    want = api("load", src, **kw)
    code, out, err = run_cli(ctx, "georinex.read", argv, ctx.dir, env)
    what = f"python -m georinex.read {' '.join(argv)} ({kind})"
    ctx.n["tool_runs"] += 1
    if want[0] == "raised":
        ctx.n["both_refuse"] += 1
        if code == 0:
            raise Violation("exit-code", f"{what}: exit 0, but load({kw}) raised {want[1]}")
    elif code != 0:
        raise Violation("tool-failed", f"{what}: exit {code}, but load({kw}) succeeds\n{err}")
    a = sorted(os.listdir(ctx.dir / "apid"))
    b = sorted(os.listdir(ctx.dir / "toold"))
    if a != b:
        raise Violation("output-files", f"{what}: tool wrote {b}, API wrote {a}")
    for x in a:
        compare_nc(ctx, ctx.dir / "toold" / x, ctx.dir / "apid" / x, what, "output")
    for k in kw:
        ctx.n["flag_" + k] += want[0] == "ok"
    ctx.distinct(text, argv)
    ctx.sample = {"seed": ctx.seed, "argv": argv, "exit": code, "outputs": b}


def c29_batch(ctx: Ctx):
    r = ctx.rng
    pristine()
    models = []
    for i in range(r.choice([1, 2, 3])):
        kind, m, text, _ = small_file(ctx, r.choice(["obs2", "obs2", "obs3", "nav3", "nav2"]))
        how = r.choice(["plain", "plain", "gz", "zip", "Z"])
        name = f"s{i}.10" + kind[0] + ("" if how == "plain" else "." + how)
        ctx.write("in/" + name, pack(r, text.encode("ascii"), how, "x.10o"))
        models.append((kind, m))
    if r.random() < 0.3:
        ctx.write("in/bad.10o", r.choice(BADFILES))
    kind, m = r.choice(models)
    groups, kw = rand_flags(ctx, kind, m, interval=False)
    glob = r.choice(["*", "*", "*o", "*.10o*", "*n", "s0*", "nothing*"])
    (ctx.dir / "toold").mkdir()
    (ctx.dir / "apid").mkdir()
    env = {}
    ind = r.choice([str(ctx.dir / "in"), "in", "~/in"])
    if ind[0] == "~":
        env["HOME"] = str(ctx.dir)
    groups.insert(r.randrange(len(groups) + 1), [r.choice(["-o", "--out"]), r.choice([str(ctx.dir / "toold"), "toold"])])
    pos = [ind] + ([] if glob == "*" and r.random() < 0.5 else [glob])
    argv = pos + [x for g in groups for x in g]
    want = api("batch", ctx.dir / "in", glob, ctx.dir / "apid", **kw)
    code, out, err = run_cli(ctx, "georinex.rinex2hdf5", argv, ctx.dir, env)
    what = f"python -m georinex.rinex2hdf5 {' '.join(argv)}"
    ctx.n["tool_runs"] += 1
    if (want[0] == "ok") != (code == 0):
        raise Violation("exit-code", f"{what}: exit {code}, API: {want}\n{err}")
    a, b = sorted(os.listdir(ctx.dir / "apid")), sorted(os.listdir(ctx.dir / "toold"))
    if a != b:
        raise Violation("output-files", f"{what}: tool wrote {b}, API wrote {a}\n{err}")
    for x in a:
        compare_nc(ctx, ctx.dir / "toold" / x, ctx.dir / "apid" / x, what, "output")
    ctx.n["batch_outputs"] += len(a)
    ctx.distinct(argv, sorted(a))


ISO = re.compile(r"\d{4}-\d\d-\d\d[T ]\d\d:\d\d(?::\d\d(?:\.\d+)?)?")


def us(s):
    return int(np.datetime64(s.replace(" ", "T"), "us").astype("int64"))


def c29_time(ctx: Ctx):
    r = ctx.rng
    pristine()
    n = r.choice([1, 1, 2, 4])
    exp = {}
    for i in range(n):
        kind, m, text, _ = small_file(ctx, r.choice(["obs2", "obs2", "obs3", "obs3", "nav2", "nav3"]))
        how = r.choice(["plain", "plain", "gz", "bz2", "zip", "Z"])
        name = f"s{i}.10" + kind[0] + ("" if how == "plain" else "." + how)
        if kind.startswith("obs") and r.random() < 0.1:
            m.hdr["interval"] = 0.0
            text = wl.obs_text(ctx, m)
        p = ctx.write("in/" + name, pack(r, text.encode("ascii"), how, "x.10o"))
        exp[name] = (p, m, kind)
    bad = []
    isdir = n > 1 or r.random() < 0.3
    if isdir and r.random() < 0.5:
        for i in range(r.choice([1, 2])):
            nm = f"bad{i}." + r.choice(["10o", "gz", "zip", "sp3", "nc"])
            ctx.write("in/" + nm, r.choice(BADFILES) if r.random() < 0.8 else gzip.compress(b"     2.11           OBSERVATION DATA    G\n" * 20)[:40])
            bad.append(nm)
    env = {}
    if isdir:
        arg = r.choice([str(ctx.dir / "in"), "in", "~/in"])
        globs = r.choice([None, ["*"], ["*o"], ["*o", "*n"], ["*.gz", "*.zip", "*.Z"], ["s0*", "s1*"]])
        sel = {x for x in exp if globs is None or any(Path(x).match(g) for g in globs)}
    else:
        nm = next(iter(exp))
        arg = r.choice([str(ctx.dir / "in" / nm), "in/" + nm, "~/in/" + nm])
        globs, sel = None, {nm}
    if arg[0] == "~":
        env["HOME"] = str(ctx.dir)
    argv = [arg] + ([] if globs is None else ["-glob", *globs])
    code, out, err = run_cli(ctx, "georinex.time", argv, ctx.dir, env)
    what = f"python -m georinex.time {' '.join(argv)}"
    ctx.n["tool_runs"] += 1
    if code:
        raise Violation("tool-failed", f"{what}: exit {code} on {sorted(exp)} and bad {bad}\n{err}")
    # cut the output into one part per file
    parts: dict = {}
    cur = None
    for ln in out.splitlines():
        h = next((x for x in list(exp) + bad if ln.startswith(x + ":")), None)
        if h is not None:
            if h in parts and h in exp:
                raise Violation("listed-twice", f"{what}: {h} listed twice")
            cur = parts.setdefault(h, [])
        if cur is not None:
            cur.append(ln)
    if set(parts) & set(exp) != sel:
        raise Violation("listed-files", f"{what}: listed {sorted(set(parts) & set(exp))}, expected {sorted(sel)}\n{err}")
    for x in sel:
        p, m, kind = exp[x]
        t = oracle.arr_us(ctx.must("gettime", "gettime", gr.gettime, p))
        hdr = ctx.must("rinexheader", "rinexheader", gr.rinexheader, p)
        first = parts[x][0][len(x) + 1:]
        got = [us(s) for s in ISO.findall(first)]
        rest = ISO.sub("", first).split()
        if got != [t[0], t[-1]]:
            raise Violation("range", f"{what}: {x}: printed range {got}, API times {oracle.fmt_us(t[0])} .. {oracle.fmt_us(t[-1])}: {parts[x][0]!r}")
        if not rest or int(rest[0]) != len(t):
            raise Violation("count", f"{what}: {x}: printed {rest}, API lists {len(t)} times")
        iv = hdr.get("interval")
        if iv is not None and (len(rest) < 2 or abs(float(rest[1]) - iv) > 1e-9):
            raise Violation("interval", f"{what}: {x}: printed {rest}, header interval {iv}")
        lst = [us(s) for ln in parts[x][1:] for s in ISO.findall(ln)]
        if len(t) <= 1000 and lst != t:
            raise Violation("times", f"{what}: {x}: printed {len(lst)} times {lst[:3]}, API lists {len(t)}: {t[:3]}")
        ctx.n["listings_compared"] += 1
        ctx.n["times_compared"] += len(lst)
    ctx.distinct(out)


def c29_bad(ctx: Ctx):
    """a tool given something that is not there or not RINEX says so by its exit code and writes nothing"""
    r = ctx.rng
    pristine()
    (ctx.dir / "out").mkdir()
    ctx.write("junk.10o", r.choice([b for b in BADFILES if b"METEO" not in b]))
    name = r.choice(["junk.10o", "missing.10o"])
    mod = r.choice(["georinex.read", "georinex.time"])
    argv = [name] + (["-o", "out"] if mod == "georinex.read" and r.random() < 0.7 else [])
    code, out, err = run_cli(ctx, mod, argv, ctx.dir)
    ctx.n["tool_runs"] += 1
    if code == 0:
        raise Violation("exit-code", f"python -m {mod} {argv}: exit 0 for {name}: {ctx.files['junk.10o'][:60]!r}\n{out[-500:]}")
    if os.listdir(ctx.dir / "out"):
        raise Violation("wrote", f"python -m {mod} {argv}: wrote {os.listdir(ctx.dir / 'out')}")
    ctx.distinct(argv, ctx.files["junk.10o"])


SPECS = {
    "C28": {"workloads": {"table": (c28, 500, 12000)}, "rule": "one case = a set of OBS files (plain, compressed, Hatanaka, converted), with and without position and interval, among NAV, SP3, damaged and missing files; the whole table is compared with the headers as generated; distinct by names and rows",
            "min_events": {"rows_compared": 400, "tables": 300, "rows_nc": 50, "kind_junk": 10, "kind_cut": 10, "kind_missing": 10},
            "assumptions": ["latitude and longitude are compared for positions within 50 km of the ellipsoid", "the interval of a converted file may be the derived one"]},
    "C29": {"workloads": {"read": (c29_read, 300, 8000), "batch": (c29_batch, 100, 3000), "time": (c29_time, 160, 5000), "bad": (c29_bad, 40, 600)},
            "rule": "one case = one run of a command-line module with random options on generated files, compared with the API call with the same options; distinct by arguments and files",
            "min_events": {"tool_runs": 500, "outputs_compared": 250, "listings_compared": 150, "flag_interval": 10, "flag_meas": 20, "flag_use": 20, "flag_tlim": 20},
            "assumptions": ["the printed listing of more than 1000 times is abbreviated and only its range and number are compared"]},
}
