"""C15 NetCDF round trip, C16 no unrequested overwriting, C17 batch conversion"""
from __future__ import annotations
import fnmatch
import gc
import hashlib
import io
import logging
import os
import sys
from pathlib import Path

import georinex as gr
import numpy as np
import xarray

from .. import gen, oracle, wl
from ..core import Crash, Ctx, Skip, Violation
from ..gen import t_us, us_t
from .container import any_file, check_model, pack
from .options import other_opts, rand_window, spell_window

DIST = ("filename",)


def small_file(ctx, kind=None):
    r = ctx.rng
    kind = kind or r.choice(["obs2", "obs2", "obs3", "obs3", "nav2", "nav3", "sp3"])
    kw = {}
    if kind.startswith("obs"):
        kw = {"max_sats": r.choice([2, 9, 14]), "n_epochs": r.choice([1, 2, 5]), "n_types": r.choice([1, 3, 5, 6, 10])}
        if kind == "obs3" and r.random() < 0.7:
            kw["systems"] = r.sample("GRESCJI", r.choice([1, 2]))
    elif kind.startswith("nav"):
        kw = {"n_recs": r.choice([1, 3, 6])}
    else:
        kw = {"nsv": r.choice([1, 5, 18]), "n_epochs": r.choice([1, 2, 3])}
    if kind.startswith("obs"):
        if kind == "obs2" and r.random() < 0.02:  # several chunks of the output file
            kw |= {"n_epochs": r.choice([300, 1200]), "max_sats": r.choice([2, 9]), "n_types": r.choice([1, 5])}
            ctx.n["big_files"] += 1
        return any_file(ctx, kind, small=False, **kw)
    return any_file(ctx, kind, **kw)


def rand_opts(ctx, kind, m, p=0.4):
    r = ctx.rng
    if kind.startswith("obs"):
        opts, use, meas = other_opts(ctx, m, p * 0.6)
        if r.random() < p * 0.5:
            w = rand_window(r, m.times)
            opts["tlim"] = spell_window(r, w)
        if r.random() < p * 0.3:
            opts["interval"] = r.choice([1, 30, 0.5])
        return opts
    opts = {}
    if kind == "nav3" and r.random() < p:
        opts["use"], _ = wl.rand_use(r, sorted({x.sv[0] for x in m.recs}))
    if kind.startswith("nav") and r.random() < p * 0.5:
        opts["tlim"] = spell_window(r, rand_window(r, m.times))
    return opts


def readback(ctx, p: Path, kind: str, what: str):
    """the dataset stored in a converted file, fully in memory"""
    if kind == "sp3":
        with xarray.open_dataset(p) as d:
            return d.load()
    src = str(p) if ctx.rng.random() < 0.3 else p
    d = ctx.must("readback-raised", f"load({p.name})", gr.load, src)
    if isinstance(d, dict):
        return {k: close_load(x) for k, x in d.items()}
    return close_load(d)


def close_load(d):
    try:
        return d.load()
    finally:
        d.close()


def meta(ctx, mem, back, what):
    a, b = oracle.attrs_of(mem), oracle.attrs_of(back)
    d = oracle.diff_attrs(a, b)
    if d:
        raise Violation("roundtrip-attrs", f"{what}: metadata differ after the round trip: {d}")
    ctx.n["attributes_compared"] += len(a)


def c15(ctx: Ctx):
    r = ctx.rng
    kind, m, text, name = small_file(ctx)
    p = ctx.write("in/" + name, text)
    opts = rand_opts(ctx, kind, m)
    if kind == "obs2" and "fast" not in opts and wl.fast_may_fail(m, text):
        opts["fast"] = False
    outd = ctx.dir / "out"
    outd.mkdir()
    form = r.choice(["dir", "file", "file"])
    target = outd / (name + ".nc") if form == "dir" else outd / r.choice(["x.nc", "a.b.nc"])
    arg = outd if form == "dir" else target
    if r.random() < 0.3:
        arg = str(arg)
    src = p
    if form == "file" and kind != "sp3" and r.random() < 0.25:
        src = io.StringIO(text)
    what = f"{kind} {opts} -> {form}"
    plain = wl.load(ctx, m, text, src, **opts)
    conv = dict(opts)
    if r.random() < 0.3:  # in place of an earlier conversion; SP3 output always replaces the file
        k0, _, t0, n0 = small_file(ctx, "sp3" if kind == "sp3" else None)
        try:
            gr.load(ctx.write("prev/" + n0, t0), target)
        except Exception:  # speculative mode
            target.unlink(missing_ok=True)
        if target.is_file():
            if kind != "sp3":
                conv["overwrite"] = True
            what += f" over the conversion of a {k0}"
            ctx.n["roundtrips_replacing"] += 1
    mem = ctx.must("convert-raised", f"load({wl._short(src)}, {arg}, {conv}) {what}", gr.load, src, arg, **conv)
    if not target.is_file():
        raise Violation("no-output", f"{what}: {target.name} was not written; directory holds {os.listdir(outd)}")
    if os.listdir(outd) != [target.name]:
        raise Violation("extra-output", f"{what}: directory holds {os.listdir(outd)}")
    oracle.same_dataset(ctx, mem, plain, f"{what}: result of converting load vs plain load", key="convert")
    back = readback(ctx, target, kind, what)
    if isinstance(back, dict):
        raise Violation("roundtrip-groups", f"{what}: a file with one group gives {sorted(back)}")
    oracle.same_dataset(ctx, plain, back, f"{what}: in memory vs read back", key="roundtrip", attrs=False)
    meta(ctx, plain, back, what)
    ctx.n["roundtrips_" + kind] += 1
    ctx.n["roundtrips_empty"] += not oracle.observe_any(plain)
    ctx.distinct(text, form, sorted(opts))
    ctx.sample = {"seed": ctx.seed, "what": what, "variables": len(plain.data_vars), "attrs": sorted(map(str, plain.attrs))}


def c15_both(ctx: Ctx):
    """OBS and NAV in one file, either first"""
    r = ctx.rng
    fs = {}
    for g, kind in (("obs", r.choice(["obs2", "obs3"])), ("nav", r.choice(["nav2", "nav3"]))):
        kind, m, text, name = small_file(ctx, kind)
        p = ctx.write(f"in_{g}/" + name, text)
        opts = {"fast": False} if kind == "obs2" else {}
        fs[g] = (p, opts, ctx.must("load-raised", f"load({p.name})", gr.load, p, **opts), kind, text)
    order = r.sample(["obs", "nav"], 2)
    out = ctx.dir / "both.nc"
    for g in order:
        p, opts, mem, kind, _ = fs[g]
        fn = gr.load if r.random() < 0.7 else {"obs": gr.rinexobs, "nav": gr.rinexnav}[g]
        ctx.must("convert-raised", f"{fn.__name__}({p.name}, both.nc) as {order.index(g) + 1}. group", fn, p, out, **opts)
    back = readback(ctx, out, "both", "both")
    if not isinstance(back, dict) or set(back) != {"obs", "nav"}:
        raise Violation("roundtrip-groups", f"file with OBS and NAV groups (written {order}) gives {type(back).__name__} {sorted(back) if isinstance(back, dict) else ''}")
    for g in ("obs", "nav"):
        oracle.same_dataset(ctx, fs[g][2], back[g], f"{g} group of a file written {order}", key="roundtrip", attrs=False)
        meta(ctx, fs[g][2], back[g], g)
        one = ctx.must("readback-raised", f"group {g}", {"obs": gr.rinexobs, "nav": gr.rinexnav}[g], out)
        oracle.same_dataset(ctx, fs[g][2], close_load(one), f"{g} group alone", key="roundtrip", attrs=False)
    ctx.n["two_group_files"] += 1
    ctx.distinct(fs["obs"][4], fs["nav"][4], order)


# ---------------------------------------------------------------- C16

WRITES: list = []
_hooked = False


def _audit(event, args):
    if event == "open" and _on[0]:
        path, mode, flags = args
        if isinstance(path, int):
            return
        if (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
            WRITES.append(os.path.abspath(os.fsdecode(path)))
    elif event in ("os.remove", "os.rename", "os.truncate", "shutil.rmtree", "os.rmdir") and _on[0]:
        WRITES.append(event + " " + os.path.abspath(os.fsdecode(args[0])) if not isinstance(args[0], int) else event)


_on = [False]


def watch():
    global _hooked
    if not _hooked:
        sys.addaudithook(_audit)
        _hooked = True
    WRITES.clear()


def snapshot(root: Path) -> dict:
    out = {}
    for d, _, fns in os.walk(root):
        for f in fns:
            q = os.path.join(d, f)
            st = os.lstat(q)
            out[q] = (st.st_size, st.st_mtime_ns, st.st_ino, hashlib.sha1(Path(q).read_bytes()).hexdigest())
    return out


def groups_of(ctx, p: Path) -> dict:
    out = {}
    for g in ("OBS", "NAV"):
        try:
            with xarray.open_dataset(p, group=g) as d:
                out[g] = d.load()
        except OSError:
            continue
    return out


def c16(ctx: Ctx):
    r = ctx.rng
    watch()
    files = []
    for i in range(r.choice([2, 3, 4])):
        kind, m, text, name = small_file(ctx, r.choice(["obs2", "obs3", "nav2", "nav3"]))
        name = f"f{i}_{name}"
        p = ctx.write("in/" + name, text)
        opts = {"fast": False} if kind == "obs2" else {}
        files.append((p, opts, ctx.must("load-raised", f"load({name})", gr.load, p, **opts), kind[:3].upper(), name))
    bad = [ctx.write("in/bad1.10o", r.choice(["", "garbage\n", "\n\n"])), ctx.write("in/bad2.10o", "     9.99           OBSERVATION DATA    G                   RINEX VERSION / TYPE\n"), ctx.dir / "in" / "missing.10o"]
    outd = ctx.dir / "out"
    outd.mkdir()
    cwd = ctx.dir / "cwd"
    cwd.mkdir()
    old = os.getcwd()
    os.chdir(cwd)
    state: dict = {}  # path -> {group: dataset}
    keep = []  # exceptions the caller may still hold
    try:
        for step in range(r.choice([4, 6, 9])):
            target = outd / r.choice(["a.nc", "b.nc"])
            before = snapshot(ctx.dir)
            WRITES.clear()
            x = r.random()
            if x < 0.15:  # failing conversion
                q = r.choice(bad)
                _on[0] = True
                try:
                    ctx.call(f"{step}: load({q.name}, {target.name})", gr.load, q, target, overwrite=r.random() < 0.5)
                    raise Violation("bad-accepted", f"step {step}: {q.name} was converted")
                except Crash:
                    ctx.n["failed_conversions"] += 1
                finally:
                    _on[0] = False
                allowed = set()
            elif x < 0.35:  # reads only
                p, opts, mem, g, name = r.choice(files)
                fn = r.choice([gr.load, gr.gettime, gr.rinexheader, gr.rinexinfo])
                _on[0] = True
                try:
                    ctx.must("read-raised", f"{step}: {fn.__name__}({name})", fn, p, **(opts if fn is gr.load else {}))
                    if target.is_file():
                        d = ctx.must("read-raised", f"{step}: load({target.name})", gr.load, target)
                        for q in (d.values() if isinstance(d, dict) else [d]):
                            q.close()
                        if r.random() < 0.5:
                            ctx.must("read-raised", f"{step}: rinexinfo({target.name})", gr.rinexinfo, target)
                finally:
                    _on[0] = False
                allowed = set()
            else:
                p, opts, mem, g, name = r.choice(files)
                ow = r.random() < 0.3
                direct = r.random() < 0.2
                if direct:
                    target = outd / (name + ".nc")
                fn = gr.load if r.random() < 0.7 else {"OBS": gr.rinexobs, "NAV": gr.rinexnav}[g]
                arg = outd if direct and fn is gr.load else target
                has = g in state.get(target, {})
                _on[0] = True
                try:
                    ctx.call(f"{step}: {fn.__name__}({name}, {Path(arg).name}, overwrite={ow})", fn, p, arg, overwrite=ow, **opts)
                    err = None
                except Crash as e:
                    err = e.exc
                    if r.random() < 0.5:
                        keep.append(err)
                finally:
                    _on[0] = False
                if has and not ow:
                    if err is None:
                        raise Violation("overwritten", f"step {step}: {name} replaced the {g} group of {target.name} without the overwrite option")
                    if not isinstance(err, ValueError):
                        raise Violation("refusal-type", f"step {step}: refusing to replace {g} raised {type(err).__name__}: {err}")
                    ctx.n["refusals"] += 1
                    allowed = set()
                else:
                    if err is not None:
                        raise Violation("convert-raised", f"step {step}: converting {name} into {target.name} (groups {sorted(state.get(target, {}))}, overwrite={ow}) raised {type(err).__name__}: {err}")
                    if ow:
                        # other groups: the option asks for replacing; only the written group is specified
                        left = groups_of(ctx, target)
                        state[target] = {k: v for k, v in state.get(target, {}).items() if k in left and k != g}
                        ctx.n["overwrites"] += 1
                    else:
                        ctx.n["additions"] += 1
                    state.setdefault(target, {})[g] = mem
                    allowed = {str(target)}
            err = None
            gc.collect()
            after = snapshot(ctx.dir)
            changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
            if changed - allowed:
                raise Violation("side-effect", f"step {step} ({ctx.trace[-1]}): files changed: {sorted(os.path.relpath(k, ctx.dir) for k in changed - allowed)}")
            out = [w for w in WRITES if w not in allowed and not w.startswith(("/dev/null", "/proc/"))]
            # temporary files are allowed if they are gone
            out = [w for w in out if " " in w or os.path.exists(w)]
            out = [w for w in out if not (w.startswith("os.remove /tmp") and "verif_" not in w)]
            if out:
                raise Violation("side-effect-open", f"step {step} ({ctx.trace[-1]}): opened for writing {out[:3]}")
            for t, gs in state.items():
                now = groups_of(ctx, t)
                if set(now) != set(gs):
                    raise Violation("groups", f"step {step} ({ctx.trace[-1]}): {t.name} has groups {sorted(now)}, expected {sorted(gs)}")
                for g2, d in gs.items():
                    oracle.same_dataset(ctx, d, now[g2], f"step {step} ({ctx.trace[-1]}): group {g2} of {t.name}", key="group", attrs=False)
                    dd = oracle.diff_attrs(oracle.attrs_of(d), oracle.attrs_of(now[g2]))
                    if dd:
                        raise Violation("group-attrs", f"step {step}: group {g2} of {t.name}: {dd}")
            ctx.n["steps"] += 1
        ctx.distinct(*[t for t in ctx.trace])
    finally:
        _on[0] = False
        os.chdir(old)
        keep.clear()
    ctx.sample = {"seed": ctx.seed, "steps": ctx.trace[-9:]}


# ---------------------------------------------------------------- C17

HDR_OBS = "     2.11           OBSERVATION DATA    G (GPS)             RINEX VERSION / TYPE\n"


def bad_file(ctx, i):
    """-> (name, bytes)"""
    r = ctx.rng
    kind, m, text, name = small_file(ctx, r.choice(["obs2", "obs3", "nav2", "nav3"]))
    lines = text.splitlines(keepends=True)
    x = r.choice(["empty", "blank", "binary", "version", "met", "clock", "firstline", "geo", "cutgz", "badzip", "badZ", "badcrx", "notypes", "sp3", "short", "noend", "v4nav", "numbers"])
    ext = r.choice([".10o", ".10n", ".rnx", ".txt"])
    if x == "empty":
        b = b""
    elif x == "blank":
        b = b"\n" * r.choice([1, 5, 30])
    elif x == "binary":
        b = bytes(r.randrange(256) for _ in range(500))
        b = b"\x00\x01" + b
    elif x == "version":
        b = ("     7.00" + text[9:]).encode()
    elif x == "v4nav":
        b = b"     4.00           NAVIGATION DATA     M                   RINEX VERSION / TYPE\n" + b" " * 60 + b"END OF HEADER\n"
    elif x == "met":
        b = b"     2.11           METEOROLOGICAL DATA                     RINEX VERSION / TYPE\n" + b" " * 60 + b"END OF HEADER\n"
    elif x == "clock":
        b = b"     3.00           CLOCK DATA          G                   RINEX VERSION / TYPE\n" + b" " * 60 + b"END OF HEADER\n"
    elif x == "firstline":
        b = ("X" + text[1:r.choice([5, 30, 59])] + "\n" + "".join(lines[1:])).encode()
    elif x == "geo":
        b = b"     2.11           H: GEO NAV MSG DATA                     RINEX VERSION / TYPE\n" + b" " * 60 + b"END OF HEADER\n"
    elif x == "cutgz":
        z = pack(r, text.encode(), "gz", name)
        b, ext = z[:max(20, len(z) // 2)], ext + ".gz"
    elif x == "badzip":
        b, ext = b"PK\x03\x04" + b"junk" * 30, ext + ".zip"
    elif x == "badZ":
        b, ext = b"\x1f\x9d\x90" + bytes(r.randrange(256) for _ in range(60)), ext + ".Z"
    elif x == "badcrx":
        b, ext = b"1.0                 COMPACT RINEX FORMAT                    CRINEX VERS   / TYPE\ngarbage\n", ".10d"
    elif x == "notypes":
        b = (HDR_OBS + " " * 60 + "END OF HEADER\n").encode()
    elif x == "sp3":
        b, ext = b"#cP2010 12  2\n", ".sp3"
    elif x == "short":
        b = HDR_OBS[:r.choice([1, 5, 15, 21, 40])].encode()
    elif x == "noend":
        b = "".join(lines[:max(1, m.nheader // 2)]).encode()
    else:
        b = text.replace("0", "x").encode()
    return f"b{i}_{x}{ext}", b


class LogCatch(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.msgs = []

    def emit(self, rec):
        self.msgs.append((rec.levelno, rec.getMessage()))


def c17(ctx: Ctx):
    r = ctx.rng
    n = r.choice([1, 2, 3, 4])
    kinds, opts = [], {}
    if r.random() < 0.3:
        opts["use"] = r.choice([{"G"}, {"R"}, ["G", "E"], "G"])
    if r.random() < 0.2:
        opts["meas"] = r.choice([["C1"], ["L"], "S1"])
    if r.random() < 0.2:
        opts["useindicators"] = True
    if r.random() < 0.6:
        opts["fast"] = False
    window = r.random() < 0.35  # bounds are drawn from the epochs of one of the files
    ind = ctx.dir / "in"
    names, models = [], {}
    todo = ["good"] * n + ["bad"] * r.choice([0, 1, 2, 3])
    r.shuffle(todo)
    for i, t in enumerate(todo):
        if t == "good":
            kind, m, text, name = small_file(ctx, r.choice(["obs2", "obs3", "nav2", "nav3", "sp3"]))
            how = r.choice(["plain", "plain", "gz", "zip", "Z", "bz2"])
            base = f"g{i}_{name}"
            end = {"plain": "", "gz": ".gz", "zip": ".zip", "Z": ".Z", "bz2": ".bz2"}[how]
            if models and r.random() < 0.4:  # files of one station and day, or of one name but in another container
                other = Path(r.choice(sorted(models))).name
                if Path(other).suffix.lower() in {".gz", ".zip", ".z", ".bz2"}:
                    other = Path(other).stem
                base = r.choice([other.split(".")[0] + "." + name.split(".", 1)[-1], other, other.swapcase()])
                ctx.n["shared_stems"] += 1
            name = r.choice(["", "", "", "", "sub/"]) + base + end
            if name in names:
                name = f"g{i}_{name}" if "/" not in name else f"sub/g{i}_{Path(name).name}"
            if r.random() < 0.15:  # a link to a file of another name in another directory
                q = ctx.write(f"store/{i:03d}.dat", pack(r, text.encode(), how, "inner"))
                (ind / name).parent.mkdir(parents=True, exist_ok=True)
                (ind / name).symlink_to(q if r.random() < 0.5 else os.path.relpath(q, (ind / name).parent))
                ctx.n["links_in_batch"] += 1
            else:
                ctx.write("in/" + name, pack(r, text.encode(), how, "inner"))
            models[name] = (kind, m, text)
        else:
            name, b = bad_file(ctx, i)
            name = r.choice(["", "", "", "", "sub/"]) + name
            ctx.write("in/" + name, b)
        names.append(name)
    if r.random() < 0.3:
        (ind / "g_dir.10o").mkdir(parents=True)
    if window and models:
        times = r.choice(list(models.values()))[1].times
        opts["tlim"] = spell_window(r, rand_window(r, times))
    ind.mkdir(exist_ok=True)
    glob = r.choice(["*", "*", "*", "*", "g*", "g*", "*o", "*o", "*.gz", "*n*", "nothing*", "sub/*", "**/*", "**/g*", "*/*"])
    # alone, with the same options
    alone = {}
    match = [x for x in names if _matches(x, glob)]
    ctx.n["files_in_subdirectories"] += sum("/" in x for x in names)
    for x in match:
        d = ctx.dir / "alone" / x
        d.mkdir(parents=True)
        try:
            ctx.call(f"load({x}, alone, {opts})", gr.load, ind / x, d, **opts)
            if os.listdir(d) != [Path(x).name + ".nc"]:
                raise Violation("alone-name", f"load({x}, directory) wrote {os.listdir(d)}, not {Path(x).name}.nc")
            alone[x] = _stored(d / (Path(x).name + ".nc"))
        except Crash as e:
            alone[x] = e.exc
        gc.collect()
    for x, a in alone.items():
        if x in models and isinstance(a, Exception) and not opts.get("use") and not (models[x][0] == "obs2" and opts.get("fast", True)):
            raise Violation("good-file-raised", f"{x} ({models[x][0]}) alone raised {type(a).__name__}: {a}")
    outd = ctx.dir / "out"
    outd.mkdir()
    before = snapshot(ind)
    cat = LogCatch()
    lg = logging.getLogger()
    logging.disable(logging.NOTSET)
    lg.addHandler(cat)
    try:
        a = str(ind) if r.random() < 0.3 else ind
        ctx.must("batch-raised", f"batch_convert({names}, {glob!r}, {opts})", gr.batch_convert, a, glob, outd if r.random() < 0.7 else str(outd), **opts)
    finally:
        lg.removeHandler(cat)
        logging.disable(logging.CRITICAL)
    gc.collect()
    if snapshot(ind) != before:
        raise Violation("batch-input", f"batch_convert changed its input directory: {sorted(os.listdir(ind))}")
    want = {Path(x).name + ".nc" for x, a in alone.items() if not isinstance(a, Exception)}
    got = set(os.listdir(outd))
    if want - got:
        x = sorted(want - got)[0]
        raise Violation("batch-missing", f"batch_convert({glob!r}, {opts}) wrote no {x} although the file converts alone; log: {cat.msgs[:4]}")
    if got - want:
        raise Violation("batch-extra", f"batch_convert({glob!r}) wrote {sorted(got - want)}; matching files {match}")
    for x, a in alone.items():
        if isinstance(a, Exception):
            if not any(Path(x).name in msg and lv >= logging.WARNING for lv, msg in cat.msgs):
                raise Violation("batch-unreported", f"{x} failed ({type(a).__name__}) but was not reported; log: {cat.msgs[:4]}")
            ctx.n["bad_files_skipped"] += 1
            continue
        b = _stored(outd / (Path(x).name + ".nc"))
        if set(a) != set(b):
            raise Violation("batch-groups", f"{x}: groups {sorted(b)} vs {sorted(a)} alone")
        for g in a:
            oracle.same_dataset(ctx, a[g], b[g], f"batch output of {x} group {g} vs alone", key="batch")
        ctx.n["outputs_compared"] += 1
        if x in models and not opts:
            kind, m, text = models[x]
            check_model(ctx, kind, m, next(iter(b.values())), f"batch output of {x}")
            ctx.n["outputs_checked_against_model"] += 1
    ctx.distinct(*[ (ind / x).read_bytes() for x in names], glob, sorted(opts))
    ctx.sample = {"seed": ctx.seed, "files": names, "glob": glob, "options": str(opts), "outputs": sorted(got), "log": cat.msgs[:3]}


def _matches(rel: str, glob: str) -> bool:
    """does the file (relative to the directory) match the pattern"""
    d, _, name = rel.rpartition("/")
    gd, _, gname = glob.rpartition("/")
    return fnmatch.fnmatchcase(name, gname) and (gd == "**" or (not d and not gd) or bool(d and gd and fnmatch.fnmatchcase(d, gd)))


def _stored(p: Path) -> dict:
    out = {}
    for g in ("OBS", "NAV", None):
        try:
            with xarray.open_dataset(p, group=g) as d:
                if g or d.data_vars:
                    out[g or "root"] = d.load()
        except OSError:
            continue
    return out


_A = ["text rendered by mon.gen follows the RINEX / SP3 column tables", "xarray and netCDF4 read back what is stored"]
SPECS = {
    "C15": {"workloads": {"gen": (c15, 200, 5000), "both": (c15_both, 60, 1500)},
            "rule": "one case = one random file converted with random options into a file or directory, compared in memory with a plain load and after reading back (values, missing cells, coordinates, metadata), or OBS and NAV into one file in either order; distinct by (text, form, options)",
            "min_events": {"roundtrips_obs2": 25, "roundtrips_obs3": 25, "roundtrips_nav2": 10, "roundtrips_nav3": 10, "roundtrips_sp3": 10, "two_group_files": 40, "attributes_compared": 500},
            "assumptions": _A + ["an SP3 conversion is read back with xarray (load() of .nc knows OBS and NAV groups)", "a metadata list of one element may come back as a scalar (NetCDF attributes)"]},
    "C16": {"workloads": {"gen": (c16, 100, 2500)},
            "rule": "one case = a random history of 4-9 conversions, refused conversions, failing conversions and reads over 2-4 inputs and shared outputs; after every step every group of every output equals the model, all other files are unchanged (size, mtime, inode, hash) and no file outside the output was opened for writing (audit hook); distinct by history",
            "min_events": {"steps": 300, "refusals": 30, "additions": 100, "overwrites": 40, "failed_conversions": 30}, "assumptions": _A + ["writes by the HDF5 C library are observed through the file snapshots, Python-level ones through sys.addaudithook"]},
    "C17": {"workloads": {"gen": (c17, 120, 3000)},
            "rule": "one case = a random directory of 1-4 good (plain or compressed) and 0-3 bad files converted as a batch; outputs compared with converting each file alone; distinct by directory contents and options",
            "min_events": {"outputs_compared": 80, "bad_files_skipped": 60, "outputs_checked_against_model": 15}, "assumptions": _A},
}
