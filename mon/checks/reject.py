"""C20 what is not supported RINEX is refused"""
from __future__ import annotations
import hashlib
import io
import bz2
import gzip
import os
import zlib
from pathlib import Path

import georinex as gr

from .. import gen, wl
from ..core import Crash, Ctx, Violation
from .container import any_file, pack

OTHER = [
    "     1.0            IONOSPHERE MAPS     GPS                 IONEX VERSION / TYPE",
    "     1.4            M                                       ANTEX VERSION / SYST",
    "%=SNX 2.02 IGS 20:136:43200 IGS 20:120:00000 20:127:00000 P 00012 2 X V",
    "$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,*47",
    "<!DOCTYPE html><html><head><title>404 Not Found</title></head></html>",
    "{\"rinex\": 2.11, \"type\": \"OBSERVATION DATA\"}",
    "OBSERVATION DATA    M (MIXED)",
    "#!/bin/sh", "# comment", "#", "##", "#b", "#e", "#A", "#1", "# c", "%PDF-1.4",
    "#bP2007  4 12  0  0  0.00000000     289 ORBIT IGS97 HLM  IGS",
    "RINEX VERSION / TYPE", " " * 60 + "RINEX VERSION / TYPE", "2.11", "2.11 O", "     2.11",
]
UNSUPPORTED = [  # valid first lines of things that are neither OBS nor NAV, or of other versions
    ("     3.00           CLOCK DATA          G                   RINEX VERSION / TYPE", "clock"),
    ("     2.00           C                                       RINEX VERSION / TYPE", "clock"),
    ("     3.04           C                   M                   RINEX VERSION / TYPE", "clock"),
    ("     2.11           METEOROLOGICAL DATA                     RINEX VERSION / TYPE", "met"),
    ("     3.03           M: METEOROLOGICAL DATA                  RINEX VERSION / TYPE", "met"),
    ("     2.11           SUMMARY DATA                            RINEX VERSION / TYPE", "summary"),
    ("     4.00           NAVIGATION DATA     M                   RINEX VERSION / TYPE", "v4nav"),
    ("     4.01           OBSERVATION DATA    M                   RINEX VERSION / TYPE", "v4obs"),
    ("     7.00           OBSERVATION DATA    G                   RINEX VERSION / TYPE", "v7"),
    ("     0.00           OBSERVATION DATA    G                   RINEX VERSION / TYPE", "v0"),
    ("    -2.11           OBSERVATION DATA    G                   RINEX VERSION / TYPE", "neg"),
    ("    33.00           OBSERVATION DATA    G                   RINEX VERSION / TYPE", "v33"),
    ("     9.00           N: GNSS NAV DATA    G                   RINEX VERSION / TYPE", "v9nav"),
]


def damaged(ctx):
    """-> (kind of damage, text, must be ValueError?)"""
    r = ctx.rng
    kind, m, text, _ = any_file(ctx, r.choice(["obs2", "obs3", "nav2", "nav3"]))
    lines = text.split("\n")
    i = next(k for k, x in enumerate(lines) if x.strip())
    first, rest = f"{lines[i]:80s}", lines[i + 1:]
    how = r.choice(["cut", "label", "shift", "version", "type", "drop"])
    if how == "cut":
        first = first[: r.randint(1, 20)]
        if not first.strip():
            how = "blank-start"
            first = first.strip()  # next line is a header line, not a version line
    elif how == "label":
        k = r.randrange(60, 80)
        ch = r.choice([c for c in "abcXYZ019/ .:;" if c != first[k]])
        first = first[:k] + ch + first[k + 1:]
    elif how == "shift":
        k = r.choice([1, 2, 5, 20])
        j = r.randrange(9, 59)
        first = first[:j] + " " * k + first[j:] if r.random() < 0.5 else first[:j] + first[j + k:]
        if first[60:80] == "RINEX VERSION / TYPE":
            first = "X" + first
        if len(first) < 79:
            first = f"{first:85s}"
    elif how == "version":
        v = r.choice(["     abc ", "     nan ", "     inf ", "         ", "  2.1.1  ", "    v2.11", "  2,11   ", " 3 .02   ", "+-2.11   ", "   O2.11 ", "\t\t\t2..1  ", "    -inf ", "  (2.11) "])
        first = v + first[9:]
    elif how == "type":
        t = r.choice(["", "X", "9", "obs", "n", "?OBS DATA", "JUNK", "MET DATA", "SUMMARY", "TRACK DATA", "-", "*", "o: lower", "H", "B"])
        first = first[:20] + f"{t:20s}" + first[40:]
    else:  # the first line is lost
        rest = lines[i + 1:]
        first = None
    body = ([] if first is None else [first]) + rest
    if how == "drop":
        # a header line without version
        nxt = next((x for x in body if x.strip()), "")
        try:
            float(nxt[:9])
            body.insert(0, gen.hline("some text", "COMMENT"))
        except ValueError:
            pass
    return how, "\n".join(body), how != "type"


def bad(ctx):
    """-> (description, bytes, must be ValueError?)"""
    r = ctx.rng
    x = r.choice(["empty", "blank", "spaces", "manyblank", "binary", "bintail", "other", "other", "unsupported", "unsupported", "unsupported", "damaged", "damaged", "damaged", "damaged", "damaged"])
    if x == "empty":
        return x, b"", True
    if x == "blank":
        return x, r.choice([b"\n", b"\r\n", b" "]) * r.choice([1, 2, 9, 10, 11, 50]), True
    if x == "spaces":
        return x, b"\n".join(b" " * r.choice([0, 3, 80, 200]) for _ in range(r.choice([1, 3, 12]))), True
    if x == "manyblank":
        return x, b"\n" * r.choice([15, 40]) + b"not RINEX\n", True
    if x == "binary":
        b = bytes(r.randrange(256) for _ in range(r.choice([3, 81, 600])))
        return x, r.choice([b"\x89PNG\r\n\x1a\n", b"\x89HDF\r\n\x1a\n", b"\x00\x01\x02", b"\xff\xfe", b"\x7fELF"]) + b, True
    if x == "bintail":
        return x, bytes(r.randrange(128, 256) for _ in range(300)), True
    if x == "other":
        ln = r.choice(OTHER)
        return x + ":" + ln[:20], ("\n" * r.choice([0, 0, 2]) + ln + r.choice(["\n", "\r\n", "", "\nEND OF HEADER\n", "\n" + ln + "\n"])).encode(), True
    if x == "unsupported":
        ln, nm = r.choice(UNSUPPORTED)
        if r.random() < 0.4:  # words behind the system letter
            words = r.choice(["NAV", "NAVSTAR", "(MIXED)", "OBSERVATION DATA", "N: GNSS NAV DATA", "GLONASS NAV", "O", "G (GPS)"])
            ln = f"{ln[:41]}{words:19s}{ln[60:]}"
        kind, m, text, _ = any_file(ctx, r.choice(["obs2", "obs3", "nav2", "nav3"]))
        lines = text.lstrip("\n").split("\n")
        return x + ":" + nm, "\n".join([ln] + (lines[1:] if r.random() < 0.7 else [gen.hline("", "END OF HEADER"), ""])).encode(), False
    how, t, ve = damaged(ctx)
    return x + ":" + how, t.encode(), ve


def tree(d: Path) -> dict:
    return {str(p): hashlib.sha1(p.read_bytes()).hexdigest() for p in d.rglob("*") if p.is_file()}


def c20(ctx: Ctx):
    r = ctx.rng
    desc, data, must_value = bad(ctx)
    how = r.choice(["plain", "plain", "plain", "stream", "gz", "bz2", "zip", "Z"])
    name = r.choice(["site0010.10o", "site0010.10n", "SITE00XXX_R_20100010000_01D_30S_MO.rnx", "orbit.sp3", "file", "site0010.10d", "a.crx"])
    if how == "Z" and not data:
        how = "plain"
    if how == "stream":
        try:
            src = io.StringIO(data.decode("ascii"))
        except UnicodeDecodeError:
            how = "plain"
    if how != "stream":
        src = ctx.write(name + ("" if how == "plain" else "." + how), pack(r, data, how, name))
        if r.random() < 0.3:
            src = str(src)
    outd = ctx.dir / "out"
    outd.mkdir(parents=True)
    pre = r.random() < 0.4
    if pre:
        (outd / "o.nc").write_bytes(b"previous contents")
        (outd / (name + ".nc")).write_bytes(b"previous contents 2")
    before = tree(ctx.dir)
    calls = {
        "load": lambda: gr.load(src), "rinexheader": lambda: gr.rinexheader(src), "gettime": lambda: gr.gettime(src),
        "load to file": lambda: gr.load(src, outd / "o.nc", overwrite=r.random() < 0.5),
        "load with options": lambda: gr.load(src, use=r.choice(["G", ["G", "R"]]), tlim=("1990-01-01", "2050-01-01"), meas=r.choice([None, ["C1"]]), fast=r.random() < 0.5, useindicators=r.random() < 0.5),
    }
    if how != "stream":
        calls["load to directory"] = lambda: gr.load(src, outd)
    for nm, fn in calls.items():
        try:
            res = ctx.call(nm, fn)
        except Crash as e:
            if not isinstance(e.exc, Exception):
                raise Violation("refusal-type", f"{nm} of {desc} in {how}: {type(e.exc).__name__}: {e.exc}")
            if must_value and not isinstance(e.exc, ValueError):
                raise Violation("refusal-type", f"{nm} of {desc} in {how}: raised {type(e.exc).__name__}: {e.exc}, expected ValueError; first bytes {data[:90]!r}")
            ctx.n["refusals"] += 1
            ctx.n["refusals_as_ValueError"] += isinstance(e.exc, ValueError)
        else:
            raise Violation("accepted", f"{nm} of {desc} in {how}: returned {type(res).__name__} {str(res)[:200]!r}; first bytes {data[:90]!r}")
    try:
        info = ctx.call("rinexinfo", gr.rinexinfo, src)
    except Crash as e:
        if must_value and not isinstance(e.exc, ValueError):
            raise Violation("refusal-type", f"rinexinfo of {desc} in {how}: raised {type(e.exc).__name__}: {e.exc}; first bytes {data[:90]!r}")
    else:
        ver = info.get("version")
        if must_value or (info.get("rinextype") in ("obs", "nav") and isinstance(ver, float) and 1 <= ver < 4):
            raise Violation("accepted", f"rinexinfo of {desc} in {how}: {info}; first bytes {data[:90]!r}")
    if tree(ctx.dir) != before:
        raise Violation("wrote", f"refused {desc}, but files changed: {sorted(set(tree(ctx.dir).items()) ^ set(before.items()))[:4]}")
    ctx.n["bad_" + desc.split(":")[0]] += 1
    ctx.n["container_" + how] += 1
    ctx.distinct(data, how)
    ctx.sample = {"seed": ctx.seed, "content": desc, "container": how, "first_bytes": repr(data[:80])}


def c20_missing(ctx: Ctx):
    r = ctx.rng
    (ctx.dir / "sub").mkdir()
    p = ctx.dir / r.choice(["no.10o", "no.10n", "no.rnx", "no.gz", "no.10o.Z", "no.zip", "no.bz2", "no.nc", "no.sp3", "no", "nodir/no.10o", "sub"])
    src = str(p) if r.random() < 0.5 else p
    out = ctx.dir / "o.nc"
    for nm, fn in {"load": lambda: gr.load(src), "rinexheader": lambda: gr.rinexheader(src), "gettime": lambda: gr.gettime(src), "rinexinfo": lambda: gr.rinexinfo(src), "load(out)": lambda: gr.load(src, out)}.items():
        try:
            res = ctx.call(nm, fn)
        except Crash as e:
            if not isinstance(e.exc, FileNotFoundError):
                raise Violation("missing-type", f"{nm} of missing {p.name}: {type(e.exc).__name__}: {e.exc}")
            ctx.n["missing_refused"] += 1
        else:
            raise Violation("missing-accepted", f"{nm} of missing {p.name} returned {res}")
    if out.exists():
        raise Violation("wrote", "missing input, but the output was written")
    ctx.distinct(p.name, type(src).__name__)


def c20_broken_container(ctx: Ctx):
    """compressed file cut or damaged: an error, nothing written; or (damage not met) the true data"""
    r = ctx.rng
    kind, m, text, name = any_file(ctx, r.choice(["obs2", "obs3", "nav2", "nav3"]))
    how = r.choice(["gz", "bz2", "zip", "Z"])
    b = pack(r, text.encode(), how, name)
    x = r.choice(["cut", "cut", "junk", "flip"])
    if x == "cut":
        b = b[: r.randrange(0, max(1, len(b) - 9))]
    elif x == "junk":
        b = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 10, 300])))
    else:
        k = r.randrange(0, min(len(b), 4))
        b = b[:k] + bytes([b[k] ^ (1 << r.randrange(8))]) + b[k + 1:]
    try:  # e.g. cut between two members: a valid file with less text
        if how in ("gz", "bz2") and (gzip.decompress if how == "gz" else bz2.decompress)(b) != text.encode():
            ctx.n["damage_leaves_valid_container"] += 1
            return
    except (OSError, EOFError, ValueError, zlib.error):
        pass
    src = ctx.write("f." + how, b)
    outd = ctx.dir / "out"
    outd.mkdir()
    good = None
    for nm, fn in {"load": lambda: gr.load(src, outd / "o.nc"), "gettime": lambda: gr.gettime(src), "rinexheader": lambda: gr.rinexheader(src)}.items():
        try:
            good = ctx.call(nm, fn)
        except Crash as e:
            if not isinstance(e.exc, Exception):
                raise Violation("refusal-type", f"{nm} of broken {how}: {type(e.exc).__name__}")
            ctx.n["broken_refused"] += 1
            if nm == "load" and os.listdir(outd):
                raise Violation("wrote", f"refused broken {how}, but wrote {os.listdir(outd)}")
        else:
            if nm == "load" and how in ("gz", "bz2", "zip"):  # these detect damage themselves
                from .container import check_model
                if x != "junk":
                    ctx.n["damage_not_met"] += 1
                    if kind == "obs2" and x == "cut":
                        pass
                    else:
                        check_model(ctx, kind, m, good, f"broken {how}")
                else:
                    raise Violation("accepted", f"{nm} of junk in .{how}: {good}")
    ctx.distinct(b)


SPECS = {"C20": {
    "workloads": {"bad": (c20, 900, 20000), "missing": (c20_missing, 120, 1000), "container": (c20_broken_container, 160, 4000)},
    "rule": "one case = one non-RINEX content (empty, blank, binary, other formats, unsupported versions and types, damaged version/type line of a generated file) in a container, given to load, header, time listing and conversion; distinct by content and container",
    "min_events": {"refusals": 3000, "bad_damaged": 150, "bad_unsupported": 80, "bad_other": 50, "missing_refused": 300, "broken_refused": 200},
    "assumptions": ["a first line cut after the type column may be accepted, if read correctly", "rinexinfo only identifies: it may describe unsupported versions and kinds"]}}
