"""
Independent readers of RINEX 2/3 OBS and NAV and SP3 text, by column, written from the format documents and sharing no
code with georinex.  They cut a text into header lines and blocks (epochs or records), so that a workload can keep a
part of a real file, change digits, and still know what every value is.
"""
from __future__ import annotations
from dataclasses import dataclass, field
from datetime import datetime, timedelta

from .gen import KM, NAVFIELDS2, NAVFIELDS3, num19, t_us


class Malformed(Exception):
    pass


@dataclass
class Block:
    lines: list
    t: int | None = None  # us; None: an event
    sv: list = field(default_factory=list)
    cells: list = field(default_factory=list)  # value cells: (line index, column, width, key)


def header(lines):
    for i, ln in enumerate(lines):
        if ln[60:80].strip() == "END OF HEADER":
            return lines[: i + 1], lines[i + 1:]
    raise Malformed("no END OF HEADER")


def _sv(s, default="G"):
    s = s.ljust(3)
    let = default if s[0] == " " else s[0]
    n = s[1:3].strip()
    if let not in "GRESCJI" or not n.isdigit():
        raise Malformed(f"satellite {s!r}")
    return f"{let}{int(n):02d}"


def _year2(y):
    return y + (1900 if y >= 80 else 2000)


def _time(y, mo, d, h, mi, s):
    sec = float(s)
    us = round(sec * 1e6)
    return t_us(datetime(int(y), int(mo), int(d), int(h), int(mi))) + us


def types2(head):
    out, n = [], None
    for ln in head:
        if ln[60:80].strip() == "# / TYPES OF OBSERV":
            if ln[:6].strip():
                if n is not None:
                    raise Malformed("types repeated")
                n = int(ln[:6])
            out += [ln[6 + 6 * i: 12 + 6 * i].strip() for i in range(9)]
    out = [x for x in out if x]
    if n is None or len(out) != n:
        raise Malformed(f"{n} types declared, {len(out)} given")
    return out


def obs2(text):
    """-> header lines, types, blocks; cell key = (type, sv)"""
    head, body = header(text.split("\n"))
    sysl = head[0][40]
    default = "G" if sysl in " M" else sysl
    types = types2(head)
    nl = -(-len(types) // 5)
    blocks = []
    i = 0
    while i < len(body):
        ln = body[i]
        if not ln.strip():
            i += 1
            continue
        flag = ln[28:29].strip() or "0"
        n = int(ln[29:32])
        if flag not in "016":
            blocks.append(Block(body[i: i + 1 + n]))
            i += 1 + n
            continue
        if flag == "6":
            raise Malformed("cycle slip records")
        t = _time(_year2(int(ln[1:3])), ln[4:6], ln[7:9], ln[10:12], ln[13:15], ln[15:26])
        ncont = max(0, -(-n // 12) - 1)
        sv = []
        for k in range(n):
            row = body[i + k // 12].ljust(80)
            sv.append(_sv(row[32 + 3 * (k % 12): 35 + 3 * (k % 12)], default))
        if len(set(sv)) != n:
            raise Malformed("satellite repeated in an epoch")
        b = Block(body[i: i + 1 + ncont + n * nl], t, sv)
        if len(b.lines) != 1 + ncont + n * nl:
            raise Malformed("cut")
        for k, s in enumerate(sv):
            for j, ty in enumerate(types):
                b.cells.append((1 + ncont + k * nl + j // 5, 16 * (j % 5), 14, (ty, s)))
        blocks.append(b)
        i += len(b.lines)
    return head, types, blocks


def types3(head):
    out, cur, n = {}, None, 0
    for ln in head:
        if ln[60:80].strip() == "SYS / # / OBS TYPES":
            if ln[0] != " ":
                cur = ln[0]
                if cur in out:
                    raise Malformed("types repeated")
                out[cur] = []
                n = int(ln[3:6])
            out[cur] += [x for x in (ln[7 + 4 * i: 10 + 4 * i].strip() for i in range(13)) if x]
            if len(out[cur]) > n:
                raise Malformed("more types than declared")
    return out


def obs3(text):
    head, body = header(text.split("\n"))
    types = types3(head)
    blocks = []
    i = 0
    while i < len(body):
        ln = body[i]
        if not ln.strip():
            i += 1
            continue
        if ln[0] != ">":
            raise Malformed(f"expected an epoch: {ln[:40]!r}")
        flag = ln[31:32].strip() or "0"
        n = int(ln[32:35])
        if flag not in "01":
            blocks.append(Block(body[i: i + 1 + n]))
            i += 1 + n
            continue
        t = _time(ln[2:6], ln[7:9], ln[10:12], ln[13:15], ln[16:18], ln[18:29])
        b = Block(body[i: i + 1 + n], t)
        if len(b.lines) != 1 + n:
            raise Malformed("cut")
        for k in range(n):
            s = _sv(b.lines[1 + k][:3])
            if s[0] not in types:
                raise Malformed("undeclared system")
            b.sv.append(s)
            for j, ty in enumerate(types[s[0]]):
                b.cells.append((1 + k, 3 + 16 * j, 14, (ty, s)))
        if len(set(b.sv)) != n:
            raise Malformed("satellite repeated in an epoch")
        blocks.append(b)
        i += 1 + n
    return head, types, blocks


def obs_values(blocks):
    """-> {(type, t, sv): value}, {(type, t, sv): lli}, {.. ssi}"""
    v, lli, ssi = {}, {}, {}
    for b in blocks:
        if b.t is None:
            continue
        for li, col, w, (ty, s) in b.cells:
            ln = b.lines[li]
            x = ln[col: col + w].strip()
            if x:
                v[(ty, b.t, s)] = float(x)
            if ln[col + w: col + w + 1].strip():
                lli[(ty, b.t, s)] = float(ln[col + w])
            if ln[col + w + 1: col + w + 2].strip():
                ssi[(ty, b.t, s)] = float(ln[col + w + 1])
    return v, lli, ssi


NL2 = {"N": 8, "G": 4, "E": 8, "H": 4}
NL3 = {"G": 8, "E": 8, "C": 8, "J": 8, "I": 8, "R": 4, "S": 4}


def nav2(text):
    head, body = header(text.split("\n"))
    kind = head[0][20]
    letter = {"N": "G", "G": "R", "E": "E"}.get(kind)
    if letter is None:
        raise Malformed(f"kind {kind}")
    if letter == "G" and head[0][40] == "E":
        letter = "E"
    n = NL2[kind]
    blocks = []
    body = [x for x in body if x.strip()]
    for i in range(0, len(body), n):
        rec = body[i: i + n]
        if len(rec) < n:
            raise Malformed("cut")
        ln = rec[0]
        t = _time(_year2(int(ln[3:5])), ln[6:8], ln[9:11], ln[12:14], ln[15:17], ln[17:22])
        b = Block(rec, t, [f"{letter}{int(ln[:2]):02d}"])
        fields = list(NAVFIELDS2[letter])
        if letter == "E":  # the last slot of the sixth line is spare
            fields.insert(fields.index("GALWeek") + 1, None)
        _navcells(b, 22, 3, fields)
        if readable(b):
            blocks.append(b)
    return head, letter, blocks


def nav3(text):
    head, body = header(text.split("\n"))
    blocks = []
    body = [x for x in body if x.strip()]
    i = 0
    while i < len(body):
        ln = body[i]
        s = _sv(ln[:3])
        n = NL3[s[0]]
        rec = body[i: i + n]
        if len(rec) < n or any(x[0] != " " for x in rec[1:]):
            raise Malformed("record length")
        t = _time(ln[4:8], ln[9:11], ln[12:14], ln[15:17], ln[18:20], ln[21:23])
        b = Block(rec, t, [s])
        _navcells(b, 23, 4, NAVFIELDS3[s[0]])
        if readable(b):
            blocks.append(b)
        i += n
    return head, None, blocks


def readable(b):
    """every written cell holds one number"""
    for li, col, w, f in b.cells:
        x = b.lines[li][col: col + w]
        try:
            if x.strip():
                num19(x)
        except ValueError:
            return False
    return True


def _navcells(b, first, cont, fields):
    for k, f in enumerate(fields):
        if k < 3:
            b.cells.append((0, first + 19 * k, 19, f))
        else:
            b.cells.append((1 + (k - 3) // 4, cont + 19 * ((k - 3) % 4), 19, f))


def nav_values(blocks, v):
    """-> want {(field, t, name): number}, blank {(field, t, name)}, rows {(t, name): numbers}"""
    want, blank, rows, seen = {}, set(), {}, {}
    for b in blocks:
        s = b.sv[0]
        k = seen.get((s, b.t), 0)
        seen[(s, b.t)] = k + 1
        name = s if k == 0 else f"{s}_{k}"
        nums = {0.0}
        for li, col, w, f in b.cells:
            x = b.lines[li][col: col + w] if li < len(b.lines) else ""
            if x.strip():
                y = num19(x)
                nums.add(y)
                if f is not None:
                    want[(f, b.t, name)] = y * 1000 if f in KM and s[0] in "RS" else y
            elif f is not None:
                blank.add((f, b.t, name))
        rows[(b.t, name)] = nums
    return want, blank, rows


def sp3(text):
    """-> header lines, satellites of the header, blocks"""
    lines = [x for x in text.split("\n")]
    i = next((k for k, x in enumerate(lines) if x.startswith("*")), None)
    if i is None:
        raise Malformed("no epoch")
    head, body = lines[:i], lines[i:]
    svs, n = [], None
    for ln in head:
        if ln.startswith("+ "):
            if n is None:
                n = int(ln[3:6])
            svs += [ln[9 + 3 * k: 12 + 3 * k] for k in range(17)]
    svs = svs[:n]
    blocks = []
    for ln in body:
        if ln.startswith("*"):
            blocks.append(Block([ln], _time(ln[3:7], ln[8:10], ln[11:13], ln[14:16], ln[17:19], ln[20:31])))
        elif ln.startswith("EOF") or ln.strip() == "*":  # an excerpt may have dots for what is left out
            break
        elif ln.strip():
            b = blocks[-1]
            if ln[0] in "PV":
                li = len(b.lines)
                s = ln[1:4]
                b.sv.append(s)
                for k, ax in enumerate("xyzc"):
                    b.cells.append((li, 4 + 14 * k, 14, (ln[0], s, ax)))
            elif ln[0] != "E":
                raise Malformed(ln[:20])
            b.lines.append(ln)
    else:
        raise Malformed("no EOF")
    return head, svs, blocks
