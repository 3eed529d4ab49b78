"""C04 / C05: navigation files"""
from __future__ import annotations
import io

import georinex as gr

from .. import gen, wl
from ..core import Ctx
from . import real


def _nav(ctx: Ctx, v, **k):
    m = gen.gen_nav(ctx.rng, v, **k)
    text = wl.nav_text(ctx, m)
    src = io.StringIO(text) if ctx.rng.random() < 0.2 else ctx.write(wl.nav_name(m), text)
    fn = gr.rinexnav if ctx.rng.random() < 0.2 else gr.load
    ds = ctx.must("load-raised", f"{fn.__name__}({wl._short(src)})", fn, src)
    wl.check_nav(ctx, ds, m, "load")
    ctx.distinct(text)
    for s in {r.sv[0] for r in m.recs}:
        ctx.n[f"files_with_{s}"] += 1
    if any("_" in r[0] for r in m.records()):
        ctx.n["files_with_repeats"] += 1
    ctx.sample = {"seed": ctx.seed, "version": m.version, "kind": m.kind, "layout": m.layout, "records": [(r.sv, str(r.t)) for r in m.recs][:6]}


def c04_gen(ctx):
    _nav(ctx, 2)


def c04_large(ctx):
    _nav(ctx, 2, n_recs=ctx.rng.choice([40, 80]))


def c04_big(ctx):
    _nav(ctx, 2, n_recs=ctx.rng.choice([300, 600, 1100]))


def c05_big(ctx):
    _nav(ctx, 3, n_recs=ctx.rng.choice([150, 300, 600]), dups=ctx.rng.random() < 0.3)


def c05_gen(ctx):
    _nav(ctx, 3)


def c05_single(ctx):
    s = ctx.rng.choice("GRECJSI")
    _nav(ctx, 3, systems=[s], n_recs=ctx.rng.choice([1, 2, 3]))


def c05_all(ctx):
    """every constellation of the format in one file"""
    _nav(ctx, 3, systems=ctx.rng.sample("GRECJSI", 7), n_recs=ctx.rng.choice([7, 8, 14]), cover=True)
    ctx.n["files_with_all_systems"] += 1


def c04_repeats(ctx):
    _nav(ctx, 2, dups=True, n_recs=ctx.rng.choice([3, 5, 12, 30]))


def c05_repeats(ctx):
    _nav(ctx, 3, dups=True, n_recs=ctx.rng.choice([5, 12, 30]), systems=ctx.rng.sample("GRECJSI", ctx.rng.choice([1, 2, 3])))


_A = ["text rendered by mon.gen follows the RINEX tables; checked against real files by the corpus workload",
      "an optional parameter omitted at the end of a RINEX 3 record (fit interval) may be returned as zero or missing"]
SPECS = {
    "C04": {"workloads": {"gen": (c04_gen, 900, 20000), "large": (c04_large, 40, 800), "repeats": (c04_repeats, 150, 3000), "big": (c04_big, 5, 150), "corpus": (real.c04, 120, 3000)},
            "rule": "one case = one random RINEX 2 NAV file loaded and compared value by value with its model; distinct by file text",
            "min_events": {"records_compared": 3000, "files_with_repeats": 100, "files_with_G": 50, "files_with_R": 50, "files_with_E": 50}, "assumptions": _A[:1]},
    "C05": {"workloads": {"gen": (c05_gen, 500, 10000), "single": (c05_single, 250, 4000), "all": (c05_all, 30, 600), "repeats": (c05_repeats, 150, 3000), "big": (c05_big, 6, 150), "corpus": (real.c05, 120, 3000)},
            "rule": "one case = one random RINEX 3 NAV file loaded and compared value by value with its model, numbered copies included; distinct by file text",
            "min_events": {"records_compared": 2000, "files_with_all_systems": 30, "files_with_repeats": 80, **{f"files_with_{s}": 30 for s in "GRECJSI"}}, "assumptions": _A},
}
