"""C24 broadcast orbits to Earth-fixed positions"""
from __future__ import annotations
import io
import math
from datetime import datetime, timedelta

import georinex as gr
import numpy as np

from .. import gen, oracle, wl
from ..core import Crash, Ctx, Violation
from ..gen import num19, t_us, us_t

GPS0 = datetime(1980, 1, 6)
OMEGA_E = 7.2921151467e-5
MU = {"G": 3.986005e14, "E": 3.986004418e14}
TOL = 1.0
_F = gen.NAVFIELDS3["G"]


def elements(r) -> dict:
    """physically meaningful broadcast elements"""
    pi = math.pi
    ecc = r.choice([0.0, 1e-4, r.uniform(0, 0.02), r.uniform(0, 0.02), r.uniform(0.02, 0.2), 0.16])
    ang = lambda: r.choice([0.0, pi, -pi, pi / 2, r.uniform(-pi, pi), r.uniform(-pi, pi), r.uniform(-pi, pi)])  # noqa: E731
    sgn = lambda x: r.uniform(-x, x)  # noqa: E731
    return {"Crs": sgn(500), "Crc": sgn(500), "DeltaN": sgn(6e-9), "M0": ang(), "Cuc": sgn(2e-5), "Cus": sgn(2e-5), "Cic": sgn(6e-7), "Cis": sgn(6e-7),
            "Eccentricity": ecc, "sqrtA": r.choice([r.uniform(5153, 5155), r.uniform(5440, 5441), r.uniform(5000, 6600)]), "Omega0": ang(), "omega": ang(),
            "Io": r.choice([r.uniform(0.9, 1.1), r.uniform(0.0, 1.5)]), "OmegaDot": sgn(1e-8), "IDOT": sgn(1e-9)}


def f19(x: float, exp="D") -> str:
    s = f"{x:19.12E}".replace("E", exp)
    assert len(s) == 19, s
    return s


def reference(v: dict, week: float, t: datetime, sysl: str):
    """IS-GPS-200 table 20-IV / Galileo OS SIS ICD table 5.1, Kepler's equation by bisection"""
    A = v["sqrtA"] ** 2
    n = math.sqrt(MU[sysl] / A**3) + v["DeltaN"]
    dt = t - GPS0 - timedelta(weeks=week)
    tk = (dt.days * 86400 + dt.seconds) + dt.microseconds * 1e-6 - v["Toe"]
    M = v["M0"] + n * tk
    e = v["Eccentricity"]
    lo, hi = M - e - 1e-9, M + e + 1e-9
    for _ in range(200):
        E = 0.5 * (lo + hi)
        if E - e * math.sin(E) < M:
            lo = E
        else:
            hi = E
    nu = 2 * math.atan2(math.sqrt(1 + e) * math.sin(E / 2), math.sqrt(1 - e) * math.cos(E / 2))
    phi = nu + v["omega"]
    s2, c2 = math.sin(2 * phi), math.cos(2 * phi)
    u = phi + v["Cus"] * s2 + v["Cuc"] * c2
    rr = A * (1 - e * math.cos(E)) + v["Crs"] * s2 + v["Crc"] * c2
    i = v["Io"] + v["Cis"] * s2 + v["Cic"] * c2 + v["IDOT"] * tk
    om = v["Omega0"] + (v["OmegaDot"] - OMEGA_E) * tk - OMEGA_E * v["Toe"]
    xp, yp = rr * math.cos(u), rr * math.sin(u)
    return (xp * math.cos(om) - yp * math.cos(i) * math.sin(om), xp * math.sin(om) + yp * math.cos(i) * math.cos(om), yp * math.sin(i))


def orbit_file(ctx: Ctx):
    r = ctx.rng
    v = r.choice([2, 3, 3])
    if v == 2:
        systems = [r.choice("GGER")]
    else:
        systems = r.sample("GERSCJ", r.choice([1, 1, 2, 3]))
        if not set(systems) & set("GERS"):
            systems[0] = r.choice("GE")
    m = gen.gen_nav(r, v, systems=systems, blanks=0, n_recs=r.choice([1, 2, 4, 8]), dups=None if r.random() < 0.6 else False)
    if r.random() < 0.4:  # near a week boundary
        t0 = min(x.t for x in m.recs)
        w = (t0 - GPS0) // timedelta(weeks=1) + 1
        d = GPS0 + timedelta(weeks=w) - timedelta(seconds=r.choice([0, 16, 3600, 7200])) - t0
        d -= timedelta(microseconds=d.microseconds)
        if max(x.t for x in m.recs).year < 2078:
            for x in m.recs:
                x.t += d
    for x in m.recs:
        s = x.sv[0]
        if s not in "GE":
            continue
        fl = (gen.NAVFIELDS2 if v == 2 else gen.NAVFIELDS3)[s]
        el = elements(r)
        toe = x.t + timedelta(seconds=r.choice([0, 0, r.randint(-7200, 7200), 7200, -7200, 16]))
        toe -= timedelta(microseconds=toe.microsecond)
        if r.random() < 0.05:
            toe += timedelta(seconds=0.5)
        if toe < GPS0:
            toe = GPS0
        week, rest = divmod(toe - GPS0, timedelta(weeks=1))
        el["Toe"] = float(rest.total_seconds())
        el["GPSWeek" if s == "G" else "GALWeek"] = float(week)
        exp = r.choice("DDEd")
        for i, f in enumerate(fl):
            if f in el and f is not None:
                x.slots[i] = f19(el[f], exp)
    return m


def c24(ctx: Ctx):
    r = ctx.rng
    m = orbit_file(ctx)
    text = wl.nav_text(ctx, m)
    p = ctx.write(wl.nav_name(m), text)
    ds = ctx.must("load-raised", "load", gr.load, p)
    if r.random() < 0.12:
        out = ctx.dir / "orbit.nc"
        ctx.must("convert-raised", "load(out)", gr.load, p, out)
        ds = ctx.must("load-raised", "load(nc)", gr.load, out)
        try:
            ds.load()
        finally:
            ds.close()
        ctx.n["files_via_netcdf"] += 1
    byname: dict = {}
    for name, t, vals in m.records():
        byname.setdefault(name, {})[t] = vals
    names = [n for n in byname if n[0] in "GERS"]
    all_t = {t for n in byname for t in byname[n]}
    for name in r.sample(names, min(len(names), 3)):
        sel = ds.sel(sv=name)
        form = r.choice(["all", "dropna", "one", "list", "scalar"])
        own = sorted(byname[name])
        if form == "dropna":
            sel = sel.dropna(dim="time", how="all")
        elif form == "list":
            sel = ds.sel(sv=[name])
        elif form == "one":
            t1 = r.choice(own)
            sel = sel.sel(time=[np.datetime64(t1, "us").astype("datetime64[ns]")])
        elif form == "scalar":
            t1 = r.choice(own)
            sel = sel.sel(time=np.datetime64(t1, "us").astype("datetime64[ns]"))
        ts = oracle.times_us(sel) if sel["time"].ndim else [int(sel["time"].values.astype("datetime64[us]").astype("int64"))]
        what = f"keplerian2ecef({name}, {form}) of a file with systems {sorted({x.sv[0] for x in m.recs})}"
        X, Y, Z = ctx.must("raised", what, gr.keplerian2ecef, sel)
        xyz = [np.asarray(getattr(q, "values", q), float) for q in (X, Y, Z)]
        if name[0] in "RS":
            for q, f in zip(xyz, "XYZ"):
                w = np.asarray(sel[f].values, float)
                if q.shape != w.shape or not np.array_equal(q, w, equal_nan=True):
                    raise Violation("broadcast-position", f"{what}: {f} = {q}, broadcast {w}")
                vals = q.reshape(len(ts), -1)[:, 0]
                for t, x in zip(ts, vals):
                    w = byname[name].get(t, {}).get(f)
                    if (w is None) != bool(np.isnan(x)) or (w is not None and not oracle.close(x, w)):
                        raise Violation("broadcast-position", f"{what}: {f} at {oracle.fmt_us(t)} = {x}, written {w}")
            ctx.n["broadcast_positions"] += len(ts)
        else:
            xyz = [q.reshape(-1) for q in xyz]
            if any(q.size != len(ts) for q in xyz):
                raise Violation("shape", f"{what}: {[q.shape for q in xyz]} for {len(ts)} epochs")
            worst = 0.0
            for k, t in enumerate(ts):
                got = [float(q[k]) for q in xyz]
                vals = byname[name].get(t)
                if vals is None:
                    if not all(math.isnan(g) for g in got):
                        raise Violation("position-invented", f"{what}: {got} at {oracle.fmt_us(t)}, which is not an epoch of {name}")
                    ctx.n["epochs_of_other_satellites"] += 1
                    continue
                w = reference(vals, vals["GPSWeek" if name[0] == "G" else "GALWeek"], us_t(t), name[0])
                d = math.dist(got, w) if all(map(math.isfinite, got)) else math.inf
                worst = max(worst, d)
                if not d <= TOL:
                    raise Violation("position", f"{what}: {d:.3f} m off at {oracle.fmt_us(t)}: got {got}, expected {w}; "
                                    f"e={vals['Eccentricity']}, week/toe {vals.get('GPSWeek', vals.get('GALWeek'))}/{vals['Toe']}")
                ctx.n["positions_compared"] += 1
                ctx.n["positions_e_above_0.02"] += vals["Eccentricity"] > 0.02
                ctx.n[f"positions_{name[0]}"] += 1
        ctx.n["form_" + form] += 1
    ctx.distinct(text)
    ctx.sample = {"seed": ctx.seed, "satellites": names[:5], "epochs": len(all_t), "calls": ctx.trace[-3:]}


SPECS = {"C24": {
    "workloads": {"gen": (c24, 700, 15000)},
    "rule": "one case = one random NAV file with physically meaningful GPS/Galileo elements and GLONASS/SBAS states, loaded, up to three satellites selected in some form and converted; compared with an independent solution (bisection of Kepler's equation); distinct by file text",
    "min_events": {"positions_compared": 500, "positions_G": 100, "positions_E": 100, "broadcast_positions": 50, "epochs_of_other_satellites": 50, "positions_e_above_0.02": 50},
    "assumptions": ["the harness' transcription of IS-GPS-200 table 20-IV is right", "RINEX Galileo weeks are aligned to GPS weeks (RINEX 3.02 and later)", "epochs within two hours of the ephemeris reference time"]}}
