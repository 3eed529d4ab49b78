"""
Monitors over the datasets georinex returns.  An observed dataset is turned into a set of events
(variable, time in us, satellite) -> number, and compared with the events the model says the file contains.
"""
from __future__ import annotations
import math
import numpy as np
import xarray

from .core import Ctx, Violation

RTOL = 2e-15  # a few units in the last place


def times_us(ds) -> list[int]:
    """time coordinate as integer microseconds since 1970"""
    t = np.asarray(ds["time"].values)
    if t.size == 0:
        return []
    if t.dtype == object:
        t = t.astype("datetime64[us]")
    if t.dtype.kind != "M":
        raise Violation("time-dtype", f"time coordinate has dtype {t.dtype}, values {t[:3]}")
    if np.isnat(t).any():
        raise Violation("time-nat", f"time coordinate contains NaT: {t}")
    ns = t.astype("datetime64[us]")
    if t.dtype == np.dtype("datetime64[ns]"):
        # sub-microsecond residue would be invented precision
        if (t != ns.astype("datetime64[ns]")).any():
            raise Violation("time-residue", f"time coordinate has sub-microsecond parts {t[t != ns.astype('datetime64[ns]')][:3]}")
    return [int(x) for x in ns.astype("int64")]


def arr_us(a) -> list[int]:
    a = np.asarray(a)
    if a.size == 0:
        return []
    if a.dtype == object:
        a = a.astype("datetime64[us]")
    if a.dtype.kind != "M":
        raise Violation("time-dtype", f"listed times have dtype {a.dtype}")
    return [int(x) for x in a.astype("datetime64[us]").astype("int64")]


def svlist(ds) -> list[str]:
    return [str(s) for s in ds["sv"].values.tolist()] if "sv" in ds.coords else []


def fmt_us(us: int) -> str:
    return str(np.datetime64(us, "us"))


def close(a: float, b: float) -> bool:
    return a == b or abs(a - b) <= RTOL * max(abs(a), abs(b))


def cells(ds, name, ts, svs):
    """non-missing cells of one variable as {(t, sv): value}"""
    v = ds[name]
    if set(v.dims) != {"time", "sv"}:
        raise Violation("dims", f"variable {name} has dims {v.dims}")
    a = v.transpose("time", "sv").values
    if a.dtype.kind not in "f":
        raise Violation("dtype", f"variable {name} has dtype {a.dtype}")
    ii, jj = np.nonzero(~np.isnan(a))
    return {(ts[i], svs[j]): float(a[i, j]) for i, j in zip(ii.tolist(), jj.tolist())}


def observe(ds) -> dict:
    """{(var, t_us, sv): value} of everything that is not missing"""
    ts, svs = times_us(ds), svlist(ds)
    if len(set(ts)) != len(ts):
        raise Violation("time-dup", f"duplicate times in result: {len(ts)} with {len(set(ts))} distinct")
    if len(set(svs)) != len(svs):
        raise Violation("sv-dup", f"duplicate satellites in result: {svs}")
    out = {}
    for name in ds.data_vars:
        for (t, s), x in cells(ds, name, ts, svs).items():
            out[(str(name), t, s)] = x
    return out


def compare(ctx: Ctx, got: dict, want: dict, what: str, key="values"):
    """got == want as event sets, values to a few ulp"""
    ctx.n["values_compared"] += len(want)
    lost = [k for k in want if k not in got]
    if lost:
        k = lost[0]
        raise Violation(f"{key}-lost", f"{what}: {len(lost)} of {len(want)} recorded values missing from the result, e.g. {k[0]} at "
                        f"{fmt_us(k[1])} {k[2:]} = {want[k]!r}")
    extra = [k for k in got if k not in want]
    if extra:
        k = extra[0]
        raise Violation(f"{key}-invented", f"{what}: {len(extra)} values in the result that the file does not contain, e.g. {k[0]} at {fmt_us(k[1])} {k[2:]} = {got[k]!r}")
    bad = [k for k in want if not close(got[k], want[k])]
    if bad:
        k = bad[0]
        raise Violation(f"{key}-wrong", f"{what}: {len(bad)} of {len(want)} values wrong, e.g. {k[0]} at {fmt_us(k[1])} {k[2:]}: got {got[k]!r}, written {want[k]!r}")


def check_axes(ctx: Ctx, ds, times, svs, need_t, need_sv, what):
    """coordinates contain only what the file contains, and all that carries data"""
    t, s = times_us(ds) if "time" in ds.coords else [], svlist(ds)
    ctx.n["epochs_observed"] += len(t)
    ctx.n["satellites_observed"] += len(s)
    x = [k for k in t if k not in times]
    if x:
        raise Violation("epoch-invented", f"{what}: epoch {fmt_us(x[0])} is not in the file (or not selected)")
    x = [k for k in s if k not in svs]
    if x:
        raise Violation("sv-invented", f"{what}: satellites {x[:5]} are not in the file (or not selected)")
    x = set(need_t) - set(t)
    if x:
        raise Violation("epoch-lost", f"{what}: epoch {fmt_us(min(x))} is missing")
    x = set(need_sv) - set(s)
    if x:
        raise Violation("sv-lost", f"{what}: satellites {sorted(x)[:5]} are missing")


def norm_attr(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        return [norm_attr(x) for x in np.asarray(v).ravel().tolist()] if not isinstance(v, (list, tuple)) else [norm_attr(x) for x in v]
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float) and math.isnan(v):
        return "NaN"
    return v


def flat_attr(v):
    v = norm_attr(v)
    if isinstance(v, list):
        if len(v) == 1:
            return v[0]
        return [flat_attr(x) for x in v]
    return v


def attrs_of(ds, drop=()) -> dict:
    return {str(k): flat_attr(v) for k, v in ds.attrs.items() if k not in drop}


def diff_attrs(a: dict, b: dict) -> str:
    out = []
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k, "<absent>"), b.get(k, "<absent>")
        if x == y:
            continue
        try:
            if np.allclose(np.asarray(x, float), np.asarray(y, float), rtol=1e-12, atol=0, equal_nan=True) and np.shape(x) == np.shape(y):
                continue
        except (TypeError, ValueError):
            pass
        out.append(f"{k}: {x!r} != {y!r}")
    return "; ".join(out)


def same_dataset(ctx: Ctx, a, b, what: str, key="differs", attrs=True, drop=(), coords=True, varset=True):
    """two results are the same dataset (missing cells included); coordinate order is not significant"""
    oa, ob = observe_any(a), observe_any(b)
    ctx.n["values_compared"] += len(oa)
    if varset and set(map(str, a.data_vars)) != set(map(str, b.data_vars)):
        raise Violation(key + "-vars", f"{what}: variables {sorted(set(map(str, a.data_vars)) ^ set(map(str, b.data_vars)))} in only one result")
    if coords:
        if sorted(times_us(a)) != sorted(times_us(b)):
            raise Violation(key + "-times", f"{what}: times differ: {[fmt_us(x) for x in sorted(times_us(a))][:5]} ({len(a.time)}) vs {[fmt_us(x) for x in sorted(times_us(b))][:5]} ({len(b.time)})")
        if sorted(svlist(a)) != sorted(svlist(b)):
            raise Violation(key + "-sv", f"{what}: satellites differ: {sorted(set(svlist(a)) ^ set(svlist(b)))}")
    if oa != ob:
        ks = [k for k in set(oa) | set(ob) if oa.get(k) != ob.get(k)]
        k = ks[0]
        raise Violation(key + "-values", f"{what}: {len(ks)} values differ, e.g. {k}: {oa.get(k)!r} vs {ob.get(k)!r}")
    if attrs:
        d = diff_attrs(attrs_of(a, drop), attrs_of(b, drop))
        if d:
            raise Violation(key + "-attrs", f"{what}: metadata differ: {d}")


def observe_any(ds) -> dict:
    """like observe, but also for SP3 datasets (ECEF dimension, scalars)"""
    if "time" not in ds.dims or "sv" not in ds.dims:
        return {}
    if "ECEF" not in ds.dims:
        return observe(ds)
    ts, svs = times_us(ds), svlist(ds)
    if len(set(ts)) != len(ts) or len(set(svs)) != len(svs):
        raise Violation("coord-dup", "duplicate times or satellites")
    ax = [str(x) for x in ds["ECEF"].values.tolist()]
    out = {}
    for name in ds.data_vars:
        v = ds[name]
        if set(v.dims) == {"time", "sv"}:
            for (t, s), x in cells(ds, name, ts, svs).items():
                out[(str(name), t, s)] = x
        elif set(v.dims) == {"time", "sv", "ECEF"}:
            a = v.transpose("time", "sv", "ECEF").values
            for i, j, k in zip(*[q.tolist() for q in np.nonzero(~np.isnan(a))]):
                out[(str(name), ts[i], svs[j], ax[k])] = float(a[i, j, k])
        elif v.dims == ():
            out[(str(name), 0, "")] = str(v.values.astype("datetime64[us]")) if v.dtype.kind == "M" else v.values.item()
        else:
            raise Violation("dims", f"variable {name} has dims {v.dims}")
    return out
