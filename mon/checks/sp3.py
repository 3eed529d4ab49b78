"""C06: SP3 orbit files"""
from __future__ import annotations
import georinex as gr

from .. import gen, oracle
from ..core import Ctx, Violation
from . import real


def norm_sv(s: str) -> str:
    s = s.replace(" ", "")
    return str(int(s)) if s[0].isdigit() else f"{s[0]}{int(s[1:]):02d}"


def check_sp3(ctx: Ctx, ds, m, what, epochs=None, key="values", partial=False):
    """epochs: indices that must be complete; partial: other epochs may be there in part"""
    truth = m.values()
    names = [norm_sv(s) for s in oracle.svlist(ds)]
    if len(set(names)) != len(names):
        raise Violation("sv-dup", f"{what}: duplicate satellites {names}")
    if set(names) != {norm_sv(s) for s in m.svs}:
        raise Violation("sv-set", f"{what}: satellites {sorted(set(names) ^ set(map(norm_sv, m.svs)))[:6]} only on one side of header list / result")
    got = {}
    for k, x in oracle.observe_any(ds).items():
        if k[0] == "t0":
            continue
        got[(k[0], k[1], norm_sv(k[2])) + tuple(k[3:])] = x
    truth = {(k[0], k[1], norm_sv(k[2])) + tuple(k[3:]): x for k, x in truth.items()}
    times = oracle.times_us(ds)
    if not partial:
        if sorted(times) != sorted(m.times):
            raise Violation("epochs", f"{what}: epochs {[oracle.fmt_us(t) for t in times][:5]} ({len(times)}), written {[oracle.fmt_us(t) for t in m.times][:5]} ({len(m.times)})")
        need = truth
    else:
        full = {m.times[i] for i in epochs}
        if full - set(times):
            raise Violation("epochs-lost", f"{what}: complete epochs missing: {sorted(full - set(times))}")
        if set(times) - set(m.times):
            raise Violation("epochs-invented", f"{what}: epochs {sorted(set(times) - set(m.times))} not written")
        need = {k: x for k, x in truth.items() if k[1] in full}
        got = {k: x for k, x in got.items() if not (k not in need and k in truth and oracle.close(truth[k], x))}
    for v in ("position", "clock"):
        if v not in ds.data_vars:
            raise Violation("var-lost", f"{what}: variable {v} missing")
    oracle.compare(ctx, got, need, what, key)
    ctx.n["epochs_observed"] += len(times)
    ctx.n["satellites_observed"] += len(names)


def check_sp3_attrs(ctx, ds, m, what):
    a = ds.attrs
    want = {"Nepoch": len(m.epochs), "coord_sys": m.hdr["coord"], "orbit_type": m.hdr["orbit"], "agency": m.hdr["agency"]}
    for k, x in want.items():
        y = a.get(k)
        y = y.strip() if isinstance(y, str) else y
        if y != x:
            raise Violation("attrs", f"{what}: {k} is {a.get(k)!r}, header says {x!r}")
    if "t0" in ds:
        t0 = int(ds["t0"].values.astype("datetime64[us]").astype("int64"))
        if t0 != m.times[0]:
            raise Violation("t0", f"{what}: t0 {oracle.fmt_us(t0)}, header says {oracle.fmt_us(m.times[0])}")


def _sp3(ctx: Ctx, **k):
    m = gen.gen_sp3(ctx.rng, **k)
    text = gen.render_sp3(m, ctx.rng)
    p = ctx.write("igs19362.sp3", text)
    fn = ctx.rng.choice([gr.load, gr.load, gr.load_sp3])
    with poisoned(ctx.rng.random() < 0.7):
        ds = ctx.must("load-raised", f"{fn.__name__}", fn, p) if fn is gr.load else ctx.must("load-raised", "load_sp3", fn, p, None)
    check_sp3(ctx, ds, m, f"{fn.__name__}(sp3-{m.ver})")
    check_sp3_attrs(ctx, ds, m, fn.__name__)
    ctx.n["files_sp3" + m.ver] += 1
    ctx.n["files_with_velocity"] += any(v is not None for _, rows in m.epochs for _, _, v in rows)
    ctx.n["files_with_omissions"] += any(len(rows) < len(m.svs) for _, rows in m.epochs)
    ctx.distinct(text)
    ctx.sample = {"seed": ctx.seed, "ver": m.ver, "satellites": len(m.svs), "epochs": len(m.epochs), "values": len(m.values())}


class poisoned:
    """numpy.empty hands out memory full of recognisable numbers, as a long-running process would"""
    import numpy as _np

    def __init__(self, on=True, fill=12345.678):
        self.on, self.fill = on, fill

    def __enter__(self):
        if self.on:
            np = self._np
            self.old = np.empty
            old, fill = self.old, self.fill

            def empty(*a, **k):
                x = old(*a, **k)
                try:
                    if x.dtype.kind in "fc":
                        x.fill(fill)
                    elif x.dtype.kind in "iub":
                        x.fill(1)
                except (ValueError, TypeError):
                    pass
                return x
            np.empty = empty
        return self

    def __exit__(self, *a):
        if self.on:
            self._np.empty = self.old


def c06_gen(ctx):
    _sp3(ctx)


def c06_many(ctx):
    r = ctx.rng
    _sp3(ctx, ver=r.choice(["d", "d", "c"]), nsv=r.choice([34, 51, 68, 85]), n_epochs=2)


def c06_big(ctx):
    r = ctx.rng
    _sp3(ctx, nsv=r.choice([5, 32]), n_epochs=r.choice([96, 289]))


SPECS = {
    "C06": {"workloads": {"gen": (c06_gen, 500, 12000), "many": (c06_many, 60, 1000), "big": (c06_big, 3, 100), "corpus": (real.c06, 60, 1000)},
            "rule": "one case = one random SP3 a/c/d file loaded (70 % with numpy.empty returning poisoned memory) and compared value by value with its model; distinct by file text",
            "min_events": {"values_compared": 20000, "files_sp3a": 50, "files_sp3c": 50, "files_sp3d": 50, "files_with_velocity": 100, "files_with_omissions": 50},
            "assumptions": ["text rendered by mon.gen follows the SP3 a/c/d documents; checked against real files by the corpus workload"]},
}
