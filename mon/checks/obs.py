"""C01 / C02 / C03: observation files, values and indicators"""
from __future__ import annotations
import io

import georinex as gr

from .. import gen, oracle, wl
from ..core import Ctx, Violation


def _source(ctx, text):
    if ctx.rng.random() < 0.2:
        return io.StringIO(text)
    return ctx.write("site0010." + ("10o"), text)


def _values(ctx: Ctx, v: int, force_ind=False, **k):
    m = wl.gen_pair(ctx, v, **k)
    text = wl.obs_text(ctx, m)
    src = _source(ctx, text)
    opts = {}
    if v == 2 and ctx.rng.random() < 0.5:
        opts["fast"] = False
    ds = wl.load(ctx, m, text, src, **opts)
    want = wl.check_obs(ctx, ds, m, f"load({opts})")
    if force_ind or ctx.rng.random() < 0.25 and len(m.epochs) < 200:  # the values do not depend on reading the indicators too
        ds = wl.load(ctx, m, text, src, useindicators=True, **opts)
        ds = ds.drop_vars([x for x in ds.data_vars if str(x).endswith(("lli", "ssi"))])
        wl.check_obs(ctx, ds, m, f"load({opts}, useindicators=True)")
        ctx.n["read_with_indicators"] += 1
    if want:
        ctx.distinct(text)
    ctx.n["systems_seen"] += len(m.systems)
    if any(len(e.sats) > 12 for e in m.epochs):
        ctx.n["files_with_satlist_continuation"] += 1
    if max(len(t) for t in m.types.values()) > (9 if v == 2 else 13):
        ctx.n["files_with_type_continuation"] += 1
    if any(e.clk for e in m.epochs):
        ctx.n["files_with_clock_offset"] += 1
    ctx.sample = {"seed": ctx.seed, "version": m.version, "systems": m.systems, "types": {k: len(x) for k, x in m.types.items()}, "epochs": len(m.epochs),
                  "values": len(want), "first_lines": text.splitlines()[m.nheader:m.nheader + 3]}


def c01_gen(ctx):
    _values(ctx, 2)


def c01_wide(ctx):
    r = ctx.rng
    _values(ctx, 2, n_types=r.choice([10, 18, 19, 20, 26]), min_sats=r.choice([13, 25, 37]), systems=r.sample("GRESCJ", r.choice([3, 5, 6])), n_epochs=r.choice([2, 6]))


def c01_long(ctx):
    r = ctx.rng
    _values(ctx, 2, n_types=r.choice([2, 5, 6]), min_sats=r.choice([6, 9]), max_sats=14, systems=r.choice([["G"], ["G", "R"]]), n_epochs=r.choice([40, 90]))


def c01_single(ctx):
    """one satellite, one type, one system at a time: every satellite number of every system"""
    r = ctx.rng
    s = r.choice("GRESCJ")
    _values(ctx, 2, n_types=r.choice([1, 5, 6]), systems=[s], max_sats=r.choice([1, 2]), n_epochs=r.choice([1, 2]), sysletter=r.choice([s, "M"]))


def c01_big(ctx):
    """hundreds of kilobytes, thousands of epochs"""
    r = ctx.rng
    _values(ctx, 2, n_types=r.choice([2, 5, 6]), min_sats=6, max_sats=r.choice([8, 14]), systems=r.choice([["G"], ["G", "R"]]), n_epochs=r.choice([300, 700, 1500, 2881]))


def c01_sparse(ctx):
    """a day or more of many types: the arrays are far larger than the file"""
    r = ctx.rng
    _values(ctx, 2, n_types=r.choice([20, 25, 26]), max_sats=1, systems=[r.choice("GRE")], n_epochs=r.choice([2880, 3200]), indicators=0.0, force_ind=True)


def c02_big(ctx):
    r = ctx.rng
    _values(ctx, 3, max_sats=r.choice([5, 14]), systems=r.choice([["G"], ["G", "E"]]), n_epochs=r.choice([110, 150, 270]), n_types=r.choice([2, 4]))


def c02_gen(ctx):
    _values(ctx, 3)


def c02_wide(ctx):
    r = ctx.rng
    _values(ctx, 3, min_sats=r.choice([13, 30, 50]), systems=r.sample("GRESCJI", r.choice([3, 5, 7])), n_epochs=r.choice([2, 4]))


def c02_hundred(ctx):
    r = ctx.rng
    _values(ctx, 3, min_sats=r.choice([99, 100, 101, 130]), max_sats=130, systems=list("GRESCJI"), n_epochs=r.choice([1, 2]), n_types=r.choice([1, 3]))


def c02_long(ctx):
    r = ctx.rng
    _values(ctx, 3, max_sats=r.choice([3, 14]), systems=r.choice([["G"], ["G", "E"], ["R"]]), n_epochs=r.choice([20, 40, 90]), n_types=r.choice([2, 8]))


def c02_single(ctx):
    r = ctx.rng
    s = r.choice("GRESCJI")
    _values(ctx, 3, n_types=r.choice([1, 13, 14]), systems=[s], max_sats=r.choice([1, 2]), n_epochs=r.choice([1, 2]), sysletter=r.choice([s, "M"]))


def _ind(ctx: Ctx, v: int, **k):
    r = ctx.rng
    m = wl.gen_pair(ctx, v, indicators=r.choice([0.3, 0.9, 1.0]), **k)
    text = wl.obs_text(ctx, m)
    src = _source(ctx, text)
    opts: dict = {}
    use = meas = None
    if r.random() < 0.45:
        opts["use"], use = wl.rand_use(r, m.systems, "GRESCJ" if v == 2 else "GRESCJI")
    if r.random() < 0.5:
        opts["meas"], meas = wl.rand_meas(r, m, nomatch=0.03)
    if v == 2 and r.random() < 0.5:
        opts["fast"] = False
    a = wl.load(ctx, m, text, src, useindicators=True, **opts)
    wl.check_obs(ctx, a, m, f"load(useindicators=True, {opts})", use, meas, ind=True)
    if r.random() < 0.4:
        b = wl.load(ctx, m, text, src, useindicators=False, **opts)
        wl.check_obs(ctx, b, m, f"load(useindicators=False, {opts})", use, meas)
    ctx.distinct(text, sorted(opts), str(use), str(meas))
    ctx.sample = {"seed": ctx.seed, "v": v, "options": {k: str(x) for k, x in opts.items()}, "indicators": [len(x) for x in m.indicators()]}


def c03_v2(ctx):
    _ind(ctx, 2)


def c03_v3(ctx):
    _ind(ctx, 3)


def c03_big(ctx):
    r = ctx.rng
    v = r.choice([2, 2, 3])
    _ind(ctx, v, n_epochs=r.choice([300, 800]) if v == 2 else 90, max_sats=r.choice([8, 14]), n_types=r.choice([3, 6]))


from . import real  # noqa: E402

_A = ["text rendered by mon.gen follows the RINEX column tables; checked against real files by the corpus workload",
      "RINEX 2 speculative mode may refuse (IndexError naming strict mode) files that average under six full satellite records per epoch; they are then read strictly"]
SPECS = {
    "C01": {"workloads": {"gen": (c01_gen, 420, 9000), "wide": (c01_wide, 40, 900), "long": (c01_long, 24, 500), "single": (c01_single, 200, 3000), "big": (c01_big, 8, 150), "sparse": (c01_sparse, 2, 40), "corpus": (real.c01, 100, 2500)},
            "rule": "one case = one random RINEX 2 file (systems, types, satellites, blanks, layout drawn) loaded and compared value by value with its model; non-trivial = the model contains at least one observation; distinct by file text",
            "min_events": {"values_compared": 20000, "files_with_satlist_continuation": 20, "files_with_type_continuation": 20}, "assumptions": _A},
    "C02": {"workloads": {"gen": (c02_gen, 330, 7000), "wide": (c02_wide, 40, 900), "hundred": (c02_hundred, 8, 100), "long": (c02_long, 16, 300), "single": (c02_single, 150, 2000), "big": (c02_big, 4, 80), "corpus": (real.c02, 80, 2500)},
            "rule": "one case = one random RINEX 3 file loaded and compared value by value with its model; non-trivial = at least one observation; distinct by file text",
            "min_events": {"values_compared": 20000, "files_with_type_continuation": 20}, "assumptions": _A[:1]},
    "C03": {"workloads": {"v2": (c03_v2, 300, 6000), "v3": (c03_v3, 240, 5000), "big": (c03_big, 6, 100), "corpus": (real.c03, 60, 1500)},
            "rule": "one case = one random OBS file with random indicator digits loaded with indicators under random use/meas/fast; distinct by text and options",
            "min_events": {"indicators_compared": 10000}, "assumptions": _A[:1]},
}
