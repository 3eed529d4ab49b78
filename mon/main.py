"""./run PROPERTY ... : run one check (see mon.core)"""
from __future__ import annotations
import argparse
import importlib
import json
import os
import sys
import tempfile
import warnings
from collections import Counter
from pathlib import Path


def import_georinex():
    """import the working tree of /repo, never a stale bytecode file"""
    import numpy, xarray, pandas, netCDF4, pymap3d, hatanaka, ncompress, psutil  # noqa: F401,E401
    d = tempfile.mkdtemp()
    old = sys.pycache_prefix
    sys.pycache_prefix = d
    try:
        import georinex
        import georinex.geo  # noqa: F401
        import georinex.keplerian  # noqa: F401
        import georinex.rio  # noqa: F401
    finally:
        sys.pycache_prefix = old
        os.rmdir(d)
    return georinex


MODULES = {
    "C01": "obs", "C02": "obs", "C03": "obs", "C08": "options", "C09": "options", "C10": "options", "C11": "options", "C12": "options",
    "C04": "nav", "C05": "nav", "C06": "sp3", "C07": "times", "C18": "times", "C13": "container", "C14": "container", "C23": "container",
    "C15": "netcdf", "C16": "netcdf", "C17": "netcdf", "C19": "header", "C20": "reject", "C21": "robust", "C22": "robust",
    "C24": "kepler", "C25": "process", "C26": "process", "C27": "process", "C28": "tools", "C29": "tools", "C30": "damage", "C31": "plots", "C32": "entry",
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--case", help="workload:case_seed, run one case in this process")
    ap.add_argument("--only", help="run one workload")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    P = ap.parse_args()
    warnings.simplefilter("ignore")
    try:
        gr = import_georinex()
        from mon import core
        src = (core.REPO / "src" / "georinex").resolve()
        if Path(gr.__file__).resolve().parent != src:
            print(f"INCONCLUSIVE: georinex imported from {gr.__file__}, expected {src}")
            return 2
    except Exception as e:  # the tree does not import: nothing can be decided
        print(f"INCONCLUSIVE: cannot import georinex: {type(e).__name__}: {e}")
        return 2
    mod = importlib.import_module("mon.checks." + MODULES[P.pid])
    spec = mod.SPECS[P.pid]
    if P.only:
        spec = dict(spec, workloads={k: v for k, v in spec["workloads"].items() if k == P.only}, min_events={})
    if P.replay or P.case:
        if P.replay:
            r = json.loads(Path(P.replay).read_text())
            wl, seed, tier = r["workload"], r["case_seed"], r["tier"]
        else:
            wl, seed = P.case.split("/", 1)
            tier = P.tier
        fn = spec["workloads"][wl][0]
        with tempfile.TemporaryDirectory() as d:
            status, payload, ctx = core.run_case(fn, seed, tier, Path(d), Counter(), P.pid)
        print(status, *(payload if isinstance(payload, tuple) else [payload]), sep="\n")
        if P.case and ctx.files:
            for k, v in ctx.files.items():
                print(f"--- {k}")
                print(v[:6000].decode("latin-1"))
        print("calls:", *ctx.trace, sep="\n  ")
        if status == "viol":
            print(f"VIOLATION property={P.pid} replay={P.replay or '-'}")
            return 1
        return 0 if status in ("ok", "skip") else 2
    return core.run_check(P.pid, spec, P.tier, P.seed, workers=P.workers, scale=P.scale)


if __name__ == "__main__":
    sys.exit(main())
