"""C19 header facts"""
from __future__ import annotations
import io
import math

import georinex as gr
import numpy as np

from .. import gen, oracle, wl
from ..core import Ctx, Violation
from ..gen import num19, t_us, us_t
from .container import pack
from .options import rand_window, spell_window

TS = {"G": "GPS", "R": "GLO", "E": "GAL", "J": "QZS", "C": "BDT", "I": "IRN", "S": "GPS"}


def geodetic(x, y, z):
    """WGS84, fixed-point iteration on latitude; independent of pymap3d"""
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    p = math.hypot(x, y)
    lon = math.degrees(math.atan2(y, x))
    lat = math.atan2(z, p * (1 - e2))
    for _ in range(60):
        N = a / math.sqrt(1 - e2 * math.sin(lat) ** 2)
        lat = math.atan2(z + e2 * N * math.sin(lat), p)
    N = a / math.sqrt(1 - e2 * math.sin(lat) ** 2)
    alt = p * math.cos(lat) + z * math.sin(lat) - a * a / N  # stable at the poles
    return math.degrees(lat), lon, alt


def same_geo(ctx, got, pos, what):
    lat, lon, alt = geodetic(*pos)
    if abs(alt) > 50e3:
        return  # not a receiver position
    got = [float(x) for x in np.asarray(got, float).ravel()]
    if len(got) != 3 or abs(got[0] - lat) > 1e-7 or abs((got[1] - lon + 180) % 360 - 180) > 1e-7 / max(math.cos(math.radians(lat)), 1e-9) or abs(got[2] - alt) > 0.01:
        raise Violation("geodetic", f"{what}: geodetic position {got}, expected {(lat, lon, alt)} for {pos}")
    ctx.n["geodetic_compared"] += 1


def near(a, b):
    return abs(float(a) - float(b)) <= 1e-12 * max(1.0, abs(float(b)))


def eq(ctx, got, want, key, what):
    ctx.n["facts_compared"] += 1
    if got != want:
        raise Violation(key, f"{what}: {key} is {got!r}, expected {want!r}")


def src_of(ctx, text, name):
    r = ctx.rng
    x = r.random()
    if x < 0.2:
        return io.StringIO(text)
    if x < 0.35:
        how = r.choice(["gz", "bz2", "zip", "Z"])
        return ctx.write(name + "." + how, pack(r, text.encode("ascii"), how, name))
    p = ctx.write(name, text)
    return str(p) if r.random() < 0.2 else p


def labels_of(text: str) -> tuple[dict, set]:
    """{label: content} of labels written once, {labels written repeatedly}"""
    out: dict = {}
    rep = set()
    for ln in text.splitlines():
        lab, c = ln[60:80].strip(), ln[:60]
        if lab == "END OF HEADER":
            break
        if lab in out:
            rep.add(lab)
        out[lab] = c
    return out, rep


def check_labels(ctx, hdr, text, what, skip, joined=False):
    lab, rep = labels_of(text)
    if joined:  # observation files: the contents of all lines of a label, in order
        for k in rep - set(skip):
            g, i = hdr.get(k), 0
            for ln in text.splitlines():
                if ln[60:80].strip() == "END OF HEADER":
                    break
                c = ln[:60].strip()
                if ln[60:80].strip() != k or not c:
                    continue
                i = g.find(c, i) if isinstance(g, str) else -1
                if i < 0:
                    raise Violation("label-content", f"{what}: repeated header label {k!r} is {g!r}, without (or not in the order of the file) {c!r}")
                i += len(c)
                ctx.n["repeated_labels_compared"] += 1
    for k, c in lab.items():
        if not k or k in rep or k in skip or k == "RINEX VERSION / TYPE":
            continue
        if k not in hdr:
            raise Violation("label-lost", f"{what}: header label {k!r} is missing")
        g = hdr[k]
        ctx.n["labels_compared"] += 1
        if isinstance(g, (str, bytes)):
            if str(g).rstrip() != c.rstrip():
                raise Violation("label-content", f"{what}: header label {k!r} is {g!r}, written {c!r}")
        elif k == "# OF SATELLITES":
            eq(ctx, g, int(c[:6]), k, what)
        else:
            raise Violation("label-content", f"{what}: header label {k!r} is {g!r}, written {c!r}")
    known = set(lab) | {"version", "filetype", "rinextype", "systems", "Nobs", "Nl_sv", "position", "position_geodetic", "fields", "fields_ind", "Nobsused", "t0", "t1", "interval",
                        "rxmodel", "Fmax", ""}
    bad = [k for k in hdr if isinstance(k, str) and k.isupper() and k not in known]
    if bad:
        raise Violation("label-invented", f"{what}: header labels {bad} are not in the file")


def check_info(ctx, info, version, ftype, rtype, system, what):
    if not near(info["version"], version):
        raise Violation("version", f"{what}: version {info['version']!r}, written {version}")
    eq(ctx, info["rinextype"], rtype, "rinextype", what)
    eq(ctx, info["filetype"], ftype, "filetype", what)
    eq(ctx, info["systems"], system, "systems", what)
    ctx.n["first_lines_identified"] += 1


def c19_obs(ctx: Ctx):
    r = ctx.rng
    v = r.choice([2, 3])
    m = wl.gen_pair(ctx, v, max_sats=r.choice([3, 9]), n_epochs=r.choice([1, 2, 4, 7]), **({"n_types": r.choice([1, 4, 9, 10, 14, 19])} if r.random() < 0.5 else {}))
    h = m.hdr
    if r.random() < 0.4:
        h["interval"] = r.choice([1.0, 30.0, 15.0, 0.1, 0.02, 0.001, 0.005, 900.0, 5.0, 86400.0, 3600.0, 0.333, 12345.678, 0.0])
    if h.get("position") and r.random() < 0.15:
        h["position"] = r.choice([[6378137.0, 0.0, 0.0], [0.0, -6378137.0, 0.0], [-6378137.0, 0.0001, 12.5], [0.0, 0.0, 6356752.3142], [1.5, 0.0, -6356752.3142]])
    if h.get("position") and r.random() < 0.15:
        h["more_positions"] = [[round(x + r.uniform(-50, 50), 4) for x in h["position"]] for _ in range(r.choice([1, 2]))]
    text = wl.obs_text(ctx, m)
    if h.get("more_positions"):  # the header is shuffled
        first = next(x for x in text.splitlines() if x[60:].startswith("APPROX POSITION XYZ"))
        h["position"] = [float(x) for x in first[:60].split()]
        ctx.n["files_with_repeated_position"] += 1
    name = {2: "site0010.10o", 3: "SITE00XXX_R_20100010000_01D_30S_MO.rnx"}[v]
    src = src_of(ctx, text, name)
    what = f"obs{v}"
    info = ctx.must("raised", "rinexinfo", gr.rinexinfo, src)
    check_info(ctx, info, m.version, "O", "obs", m.sysletter, what)
    hdr = ctx.must("raised", "rinexheader", gr.rinexheader, src)
    check_info(ctx, hdr, m.version, "O", "obs", m.sysletter, what + " header")
    check_labels(ctx, hdr, text, what, {"# / TYPES OF OBSERV", "SYS / # / OBS TYPES"}, joined=True)
    if v == 2:
        eq(ctx, list(hdr["fields"]), m.types["*"], "fields", what)
        eq(ctx, int(hdr["Nobs"]), len(m.types["*"]), "Nobs", what)
    else:
        eq(ctx, {k: list(x) for k, x in hdr["fields"].items()}, dict(m.types), "fields", what)
    eq(ctx, t_us(hdr["t0"]), m.times[0], "t0", what)
    if v == 2:
        eq(ctx, t_us(hdr["t1"]) if "t1" in hdr else None, t_us(h["t1"]) if h.get("t1") else None, "t1", what)
    eq(ctx, hdr.get("interval"), h.get("interval"), "interval", what)
    pos = h.get("position")
    eq(ctx, hdr.get("position"), pos, "position", what)
    if pos:
        same_geo(ctx, hdr["position_geodetic"], pos, what)
    elif "position_geodetic" in hdr:
        raise Violation("geodetic", f"{what}: geodetic position without header position")
    # --- dataset metadata
    opts = {}
    want_t = m.times
    if r.random() < 0.25:
        w = rand_window(r, m.times)
        opts["tlim"] = spell_window(r, w)
        want_t = [t for t in m.times if w[0] <= us_t(t) <= w[1]] if not isinstance(w[0], int) else [t for t in m.times if w[0] <= t <= w[1]]
    if v == 2 and r.random() < 0.5:
        opts["fast"] = False
    ds = wl.load(ctx, m, text, src, **opts)
    a = ds.attrs
    what = f"obs{v} dataset {opts}"
    if not a and not oracle.observe(ds):
        ctx.n["empty_without_metadata"] += 1
        return
    if not near(a["version"], m.version):
        raise Violation("version", f"{what}: version {a['version']!r}, written {m.version}")
    eq(ctx, a["rinextype"], "obs", "rinextype", what)
    if isinstance(src, io.StringIO):
        eq(ctx, a.get("filename"), None, "filename", what)
    else:
        eq(ctx, a.get("filename"), str(src).rsplit("/", 1)[-1], "filename", what)
    eq(ctx, a["time_system"], TS[m.sysletter] if m.sysletter != "M" else h["tsys"], "time_system", what)
    if h.get("interval") is not None:
        eq(ctx, float(a["interval"]), h["interval"], "interval", what)
    else:
        ts = sorted(oracle.times_us(ds))
        if len(ts) > 1:
            d = float(np.median(np.diff(np.array(ts, dtype="int64")))) / 1e6
            ctx.n["derived_intervals"] += 1
            if abs(float(a["interval"]) - d) > 1e-9 * max(1, d):
                raise Violation("interval", f"{what}: interval {a['interval']!r}, median epoch spacing {d} of {[oracle.fmt_us(t) for t in ts]}")
        elif "interval" in a and not np.isnan(a["interval"]):
            raise Violation("interval", f"{what}: interval {a['interval']!r} without header interval and with {len(ts)} epochs")
    g = a.get("position")
    eq(ctx, None if g is None else [float(x) for x in np.asarray(g, float)], pos, "position", what)
    if pos:
        same_geo(ctx, a["position_geodetic"], pos, what)
    if v == 2 and h.get("rec"):
        eq(ctx, a.get("rxmodel"), h["rec"][1], "rxmodel", what)
    if v == 3:
        offs = [float(f"{float(e.clk):.12f}") for e in m.epochs if e.clk is not None and t_us(e.t) in set(want_t)]
        got = [float(x) for x in np.atleast_1d(a.get("time_offset", []))]
        eq(ctx, got, offs, "time_offset", what)
        ctx.n["clock_offsets_compared"] += len(offs)
        eq(ctx, a.get("receiver_clock_offset_applied"), h.get("rcv_clk"), "receiver_clock_offset_applied", what)
    ctx.distinct(text)
    ctx.sample = {"seed": ctx.seed, "v": v, "attrs": {str(k): str(x)[:60] for k, x in a.items()}}


def c19_mixed_interval(ctx: Ctx):
    """systems observed at different rates: the derived interval is that of all epochs"""
    r = ctx.rng
    v = r.choice([2, 3])
    systems = r.sample("GRES", r.choice([2, 3]))
    n = r.choice([5, 9, 13])
    m = wl.gen_pair(ctx, v, systems=systems, n_epochs=n, max_sats=8, sysletter="M", missing=0, n_types=2, full=True)
    m.hdr["interval"] = None
    slow = r.choice(systems)
    k = r.choice([2, 3])
    for i, e in enumerate(m.epochs):
        if i % k:
            e.sats = [x for x in e.sats if x[0][0] != slow] or e.sats
    text = wl.obs_text(ctx, m)
    opts = {"fast": False} if v == 2 else {}
    ds = ctx.must("load-raised", "load", gr.load, ctx.write("a.obs", text), **opts)
    ts = sorted(oracle.times_us(ds))
    if len(ts) < 2:
        return
    d = float(np.median(np.diff(np.array(ts, dtype="int64")))) / 1e6
    if abs(float(ds.attrs["interval"]) - d) > 1e-9 * max(1, d):
        raise Violation("interval", f"obs{v} with systems {systems}: interval {ds.attrs['interval']!r}, median epoch spacing {d}")
    ctx.n["derived_intervals"] += 1
    ctx.distinct(text)


def c19_nav(ctx: Ctx):
    r = ctx.rng
    v = r.choice([2, 3])
    m = gen.gen_nav(r, v, n_recs=r.choice([1, 2, 4]))
    text = wl.nav_text(ctx, m)
    src = src_of(ctx, text, wl.nav_name(m))
    what = f"nav{v}"
    first = text.lstrip("\n").splitlines()[0]
    system = {"N": "G", "G": "R", "E": "E"}[m.kind] if v == 2 else m.kind
    info = ctx.must("raised", "rinexinfo", gr.rinexinfo, src)
    check_info(ctx, info, m.version, first[20], "nav", system, what)
    hdr = ctx.must("raised", "rinexheader", gr.rinexheader, src)
    check_info(ctx, hdr, m.version, first[20], "nav", system, what + " header")
    check_labels(ctx, hdr, text, what, {"IONOSPHERIC CORR", "TIME SYSTEM CORR"})
    ds = ctx.must("load-raised", "load", gr.load, src)
    a = ds.attrs
    if not near(a["version"], m.version):
        raise Violation("version", f"{what}: version {a['version']!r}, written {m.version}")
    eq(ctx, a["rinextype"], "nav", "rinextype", what)
    eq(ctx, a.get("filename"), None if isinstance(src, io.StringIO) else str(src).rsplit("/", 1)[-1], "filename", what)
    eq(ctx, sorted({str(x) for x in np.atleast_1d(a["svtype"])}), sorted({x.sv[0] for x in m.recs}), "svtype", what)
    h = m.hdr
    num = lambda c: [num19(x) for x in c]  # noqa: E731
    want = {}
    if v == 2:
        if h.get("alpha") and h.get("beta"):
            want["GPS"] = num(h["alpha"]) + num(h["beta"])
    else:
        corr = {k: num(c) for k, c in h["corr"].items()}
        got = {k: list(x) for k, x in hdr.get("IONOSPHERIC CORR", {}).items()}
        eq(ctx, got, corr, "IONOSPHERIC CORR", what)
        ts = {k: [num19(c[0]), num19(c[1]), c[2], c[3]] for k, c in h["tsc"].items()}
        eq(ctx, {k: list(x) for k, x in hdr.get("TIME SYSTEM CORR", {}).items()}, ts, "TIME SYSTEM CORR", what)
        ctx.n["time_corrections_compared"] += len(ts)
        for n, p in (("GPS", "GPS"), ("QZS", "QZS"), ("BDS", "BDS"), ("IRN", "IRN")):
            if p + "A" in corr and p + "B" in corr:
                want[n] = corr[p + "A"] + corr[p + "B"]
        if "GAL" in corr:
            want["GAL"] = corr["GAL"]
    got = {k[len("ionospheric_corr_"):]: [float(x) for x in np.asarray(x, float)] for k, x in a.items() if k.startswith("ionospheric_corr_")}
    eq(ctx, got, want, "ionospheric coefficients", what)
    ctx.n["ionospheric_sets_compared"] += len(want)
    ctx.distinct(text)


def c19_first(ctx: Ctx):
    """the version/type line of every variant, alone"""
    r = ctx.rng
    rest = gen.hline("", "END OF HEADER")
    x = r.choice(["obs", "nav2", "nav3", "sp3", "crx"])
    if x == "obs":
        ver = r.choice(["2", "2.0", "2.00", "2.1", "2.10", "2.11", "2.12", "3.00", "3.0", "3.01", "3.02", "3.03", "3.04", "3.05", "3", "1", "1.00"])
        s = r.choice("GRESCJIM" if ver[0] == "3" else "GRESMT "[:5])
        t = r.choice(["O", "OBSERVATION DATA", "OBSERVATION", "Observation data"])
        line = f"{r.choice([ver.rjust(9), ver.ljust(9), (ver.rjust(6)).ljust(9)])}{'':11s}{t:20s}{s + r.choice(['', ' (X)', ': Mixed']):20s}RINEX VERSION / TYPE"
        want = (float(ver), "O", "obs", s)
        if ver[0] != "3" and r.random() < 0.3:
            line = line[:40] + " " * 20 + line[60:]
            want = (float(ver), "O", "obs", "G")
    elif x == "nav2":
        ver = r.choice(["2", "2.0", "2.00", "2.10", "2.11", "2.12"])
        t, s = r.choice([("N", "G"), ("NAVIGATION DATA", "G"), ("N: GPS NAV DATA", "G"), ("N: GPS NAV MESSAGE", "G"), ("G", "R"), ("G: GLONASS NAV DATA", "R"), ("GLONASS NAV DATA", "R"),
                         ("E", "E"), ("E: GALILEO NAV DATA", "E"), ("E: Galileo NAV", "E")])
        col = r.choice([" " * 20, f"{'G (GPS)' if s == 'G' else ' ':20s}"])
        line = f"{ver:>9s}{'':11s}{t:20s}{col}RINEX VERSION / TYPE"
        want = (float(ver), t[0], "nav", s)
    elif x == "nav3":
        ver = r.choice(["3.00", "3.01", "3.02", "3.03", "3.04", "3.05", "3"])
        s = r.choice("GRESCJIM")
        t = r.choice(["N", "N: GNSS NAV DATA", "NAVIGATION DATA", "NAV DATA"])
        line = f"{ver:>9s}{'':11s}{t:20s}{s + r.choice(['', ': GPS', ' (MIXED)']):20s}RINEX VERSION / TYPE"
        want = (float(ver), "N", "nav", s)
    elif x == "crx":
        ver = r.choice(["1.0", "1.00", "3.0", "3.00"])
        line = f"{ver:20s}{'COMPACT RINEX FORMAT':40s}CRINEX VERS   / TYPE"
        want = (float(ver), None, "obs", None)
    else:
        v = r.choice("acd")
        line = f"#{v}{r.choice('PV')}2007  4 12  0  0  0.00000000     289 ORBIT IGS97 HLM  IGS"
        want = (v, None, "sp3", None)
    if r.random() < 0.3 and x != "crx":
        line = line.rstrip() + " " * r.choice([0, 1, 5])
    text = "\n" * r.choice([0, 0, 0, 1, 4, 8]) + line + r.choice(["\n", "\r\n"]) + rest + "\n"
    src = src_of(ctx, text, "file")
    if x == "crx" and not isinstance(src, io.StringIO):
        pass
    info = ctx.must("raised", f"rinexinfo({line!r})", gr.rinexinfo, src)
    what = f"rinexinfo({line!r})"
    if isinstance(want[0], float):
        if not near(info["version"], want[0]):
            raise Violation("version", f"{what}: version {info['version']!r}")
    else:
        eq(ctx, info["version"], want[0], "version", what)
    eq(ctx, info["rinextype"], want[2], "rinextype", what)
    if want[1]:
        eq(ctx, info["filetype"], want[1], "filetype", what)
    if want[3]:
        eq(ctx, info["systems"], want[3], "systems", what)
    ctx.n["first_lines_identified"] += 1
    ctx.distinct(text, type(src).__name__)


def c19_sp3(ctx: Ctx):
    m = gen.gen_sp3(ctx.rng, nsv=ctx.rng.choice([1, 5]), n_epochs=1)
    text = gen.render_sp3(m, ctx.rng)
    src = ctx.write("a.sp3", text)
    i = ctx.must("raised", "rinexinfo", gr.rinexinfo, src)
    eq(ctx, (i["version"], i["rinextype"]), (m.ver, "sp3"), "first line", "sp3")
    a = ctx.must("load-raised", "load", gr.load, src).attrs
    eq(ctx, a["coord_sys"].strip(), m.hdr["coord"].strip(), "coord_sys", "sp3")
    eq(ctx, a["orbit_type"].strip(), m.hdr["orbit"].strip(), "orbit_type", "sp3")
    eq(ctx, a["agency"].strip(), m.hdr["agency"].strip(), "agency", "sp3")
    eq(ctx, int(a["Nepoch"]), len(m.epochs), "Nepoch", "sp3")
    ctx.distinct(text)


SPECS = {"C19": {
    "workloads": {"obs": (c19_obs, 500, 10000), "mixed_interval": (c19_mixed_interval, 60, 1000), "nav": (c19_nav, 300, 6000), "first": (c19_first, 600, 12000), "sp3": (c19_sp3, 30, 500)},
    "rule": "one case = one random file (any header labels, order, containers, streams) whose rinexinfo, rinexheader and dataset metadata are compared with the generating model, or one version/type line; distinct by text",
    "min_events": {"facts_compared": 5000, "labels_compared": 1000, "first_lines_identified": 800, "derived_intervals": 100, "geodetic_compared": 200, "clock_offsets_compared": 50, "ionospheric_sets_compared": 100, "time_corrections_compared": 100},
    "assumptions": ["labels written more than once have no specified form in the header query (except observation types and coefficients)", "the header query of a compact file describes the compact file"]}}
