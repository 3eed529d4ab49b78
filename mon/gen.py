"""
Workload generators.  Every generator first draws a *model* (what the file says), then renders the
model as RINEX / SP3 text.  The oracle never parses the text: expectations come from the model.

All choices come from the random.Random passed in.  Values inside one file are made unique, so that a
number found in a result identifies the one field of the file it was read from.
"""
from __future__ import annotations
import random
from dataclasses import dataclass, field
from datetime import datetime, timedelta

EPOCH0 = datetime(1970, 1, 1)


def t_us(t: datetime) -> int:
    d = t - EPOCH0
    return (d.days * 86400 + d.seconds) * 1_000_000 + d.microseconds


def us_t(us: int) -> datetime:
    return EPOCH0 + timedelta(microseconds=us)


# ---------------------------------------------------------------------------------------------
# common pieces

def hline(content: str, label: str, width: int = 80) -> str:
    return f"{content[:60]:60s}{label:20s}"[:width]


class Uniq:
    """hands out numbers no two of which are equal within one file (but for a few special values such as zero)"""

    def __init__(self, rng: random.Random):
        self.rng = rng
        self.seen: set[str] = set()

    def f14(self, kind: str) -> str:
        r = self.rng
        for _ in range(1000):
            x = r.random()
            if x < 0.03:
                s = r.choice(["0.000", "0.000", "0.000", "0.001", "-0.001", "9999999999.999", "-999999999.999", ".250", "-.375", "1.000"])
                return f"{s:>14s}"
            elif kind == "C" or kind == "P":
                s = f"{r.uniform(1.9e7, 4.2e7):.3f}"
            elif kind == "L":
                s = f"{r.uniform(-2e8, 2e8):.3f}"
            elif kind == "D":
                s = f"{r.uniform(-6000, 6000):.3f}"
            elif kind == "S":
                s = f"{r.uniform(1, 60):.3f}"
            else:
                s = f"{r.uniform(-1e9, 1e10):.3f}"
            if s not in self.seen:
                self.seen.add(s)
                return f"{s:>14s}"
        raise RuntimeError("out of unique numbers")

    def f19(self, style: str, mag: str = "any") -> str:
        """a D19.12 field"""
        r = self.rng
        for _ in range(1000):
            e = r.choice([-18, -12, -9, -6, -5, -3, -1, 0, 1, 2, 3, 5]) if mag == "any" else int(mag)
            mant = r.randrange(10**12, 10**13)
            neg = r.random() < 0.5
            s = fmt19(mant, e, neg, style)
            if s not in self.seen:
                self.seen.add(s)
                return s
        raise RuntimeError("out of unique numbers")


def fmt19(mant: int, e: int, neg: bool, style: str) -> str:
    """style = exponent letter (D, E, d, e), plus '.' for Fortran's leading-point form"""
    letter = style[0]
    digits = f"{mant:013d}"  # 13 digits
    sign = "-" if neg else " "
    if len(style) > 1 and style[1] == ".":  # -.839701388031D-03
        e2 = e + 1
        s = f"{sign}.{digits[:12]}{letter}{'-' if e2 < 0 else '+'}{abs(e2):02d}"
    elif len(style) > 1 and style[1] == "0":  # -0.839701388031D-03
        e2 = e + 1
        s = f"{sign}0.{digits[:12]}{letter}{'-' if e2 < 0 else '+'}{abs(e2):02d}"
    else:
        s = f"{sign}{digits[0]}.{digits[1:]}{letter}{'-' if e < 0 else '+'}{abs(e):02d}"
    return f"{s:>19s}"


def num19(s: str) -> float:
    return float(s.strip().replace("D", "E").replace("d", "e"))


def rand_start(rng: random.Random, lo=1980, hi=2079) -> datetime:
    x = rng.random()
    if x < 0.25:  # interesting boundaries
        base = rng.choice([
            datetime(1999, 12, 31, 23, 59, 0), datetime(2000, 1, 1), datetime(2000, 2, 28, 23, 58, 30),
            datetime(2016, 2, 29, 0, 0, 0), datetime(2016, 12, 31, 23, 59, 30), datetime(1980, 1, 6),
            datetime(2079, 12, 30, 0, 0, 0), datetime(2019, 4, 6, 23, 59, 0), datetime(2012, 12, 12, 12, 12, 0),
            datetime(2010, 10, 10, 10, 10, 10), datetime(2009, 8, 7, 6, 5, 4), datetime(2010, 3, 5, 0, 0, 0),
        ])
        return base
    y = rng.randint(lo, hi)
    return datetime(y, 1, 1) + timedelta(days=rng.randrange(0, 365), seconds=rng.randrange(0, 86400))


FRACS = [0, 0, 0, 0, 0, 0, 1, 2, 5, 8, 13000, 29000, 100000, 250000, 290000, 500000, 580000, 999999, 137, 411, 999000, 70000]


def rand_times(rng: random.Random, n: int, lo=1980, hi=2079, frac=True, regular=None) -> list[datetime]:
    t = rand_start(rng, lo, hi)
    if regular is None:
        regular = rng.random() < 0.5
    sub = frac and rng.random() < 0.5
    step = rng.choice([1, 1, 5, 15, 30, 30, 60, 900, 3600])
    if sub and rng.random() < 0.4:
        step = rng.choice([0.1, 0.2, 0.02, 0.05, 0.001])
    base_us = t_us(t) + (rng.choice(FRACS) if sub else 0)
    out = []
    cur = base_us
    for _ in range(n):
        out.append(us_t(cur))
        if regular:
            cur += int(round(step * 1e6))
        else:
            k = rng.choice([1, 1, 1, 2, 3, 7])
            cur += int(round(step * 1e6)) * k
            if sub and rng.random() < 0.3:
                cur += rng.choice(FRACS) or 1
    while out[-1].year > hi:
        out = [x - timedelta(days=366) for x in out]
    return out


# ---------------------------------------------------------------------------------------------
# OBS model

@dataclass
class Ob:
    text: str  # F14.3, stripped of nothing; '' = blank, with an indicator
    lli: str = " "
    ssi: str = " "

    @property
    def value(self) -> float:
        return float(self.text)


@dataclass
class Epoch:
    t: datetime
    flag: int = 0
    clk: str | None = None
    sats: list = field(default_factory=list)  # [(sv 'G07', {type: Ob})] in file order


@dataclass
class ObsFile:
    v: int  # 2 or 3
    version: float
    sysletter: str
    types: dict  # v2: {'*': [...]}; v3: {sys: [...]}
    epochs: list
    hdr: dict  # optional facts: position, interval, ...

    def types_of(self, s: str) -> list[str]:
        return self.types["*"] if self.v == 2 else self.types[s]

    @property
    def systems(self) -> list[str]:
        return sorted({sv[0] for e in self.epochs for sv, _ in e.sats})

    def values(self) -> dict:
        """{(type, t_us, sv): float}"""
        out = {}
        for e in self.epochs:
            tu = t_us(e.t)
            for sv, obs in e.sats:
                for k, o in obs.items():
                    if o.text:
                        out[(k, tu, sv)] = o.value
        return out

    def indicators(self) -> tuple[dict, dict]:
        lli, ssi = {}, {}
        for e in self.epochs:
            tu = t_us(e.t)
            for sv, obs in e.sats:
                for k, o in obs.items():
                    if o.lli != " ":
                        lli[(k, tu, sv)] = float(o.lli)
                    if o.ssi != " ":
                        ssi[(k, tu, sv)] = float(o.ssi)
        return lli, ssi

    @property
    def svs(self) -> set:
        return {sv for e in self.epochs for sv, _ in e.sats}

    @property
    def times(self) -> list[int]:
        return [t_us(e.t) for e in self.epochs]


V2TYPES = ["C1", "P1", "P2", "L1", "L2", "D1", "D2", "S1", "S2", "C2", "C5", "L5", "S5", "D5", "C6", "L6", "S6", "C7", "L7",
           "S7", "C8", "L8", "S8", "D6", "D7", "D8", "P5", "P7", "P8", "CA", "LA", "SA"]
V3BAND = {"G": ["1C", "1W", "2W", "2X", "5Q", "5X", "1L", "2L", "1P", "2P"], "R": ["1C", "1P", "2C", "2P", "3X"], "E": ["1C", "1X", "5Q", "7X", "8X", "6C"],
          "S": ["1C", "5I"], "C": ["2I", "7I", "6I", "1X", "1P", "5P"], "J": ["1C", "2L", "5Q", "1Z"], "I": ["5A", "9A"]}
V2PRN = {"G": 32, "R": 27, "E": 36, "S": 58, "C": 63, "J": 10}
V3PRN = {"G": 32, "R": 27, "E": 36, "S": 58, "C": 63, "J": 10, "I": 14}
NSATS = [1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 13, 14, 20, 23, 24, 25, 26, 30, 35, 36, 37, 40, 48, 49, 60]


def _pool(rng, systems, prn, n):
    allsv = [f"{s}{i:02d}" for s in systems for i in range(20 if s == "S" else 1, prn[s] + 1)]
    # keep extremes likely
    ext = [f"{s}{prn[s]:02d}" for s in systems] + [f"{s}{(20 if s == 'S' else 1):02d}" for s in systems] + \
          [f"{s}09" for s in systems if prn[s] >= 9 and s != "S"] + [f"{s}10" for s in systems if prn[s] >= 10 and s != "S"]
    rng.shuffle(allsv)
    pick = []
    if rng.random() < 0.6:
        rng.shuffle(ext)
        pick += list(dict.fromkeys(ext))[: max(1, n // 2)]
    for s in allsv:
        if len(pick) >= n:
            break
        if s not in pick:
            pick.append(s)
    return pick[:n]


def gen_header_facts(rng, times, v) -> dict:
    h = {}
    if rng.random() < 0.75:
        if rng.random() < 0.8:
            h["position"] = [round(rng.uniform(-6.4e6, 6.4e6), 4) for _ in range(3)]
            # keep it near the Earth's surface so geodetic is meaningful
            nrm = sum(x * x for x in h["position"]) ** 0.5 or 1.0
            rr = rng.uniform(6.35e6, 6.39e6)
            h["position"] = [round(x / nrm * rr, 4) for x in h["position"]]
        else:
            h["position"] = [rng.choice([4789028.4701, -1234567.8901]), 176610.0133, rng.choice([4195017.0310, -4195017.0310])]
    if rng.random() < 0.5:
        h["interval"] = rng.choice([1.0, 30.0, 15.0, 0.1, 0.02, 0.001, 900.0, 5.0, 0.0])
    if rng.random() < 0.7:
        h["t1"] = times[-1] if times else None
        if h["t1"] is None:
            del h["t1"]
    h["rec"] = (rng.choice(["4", "12345", "ABC12"]), rng.choice(["TRIMBLE NETR9", "JAVAD TRE_3 DELTA", "SEPT POLARX5", "LEICA GR25"]), rng.choice(["5.45", "3.7.9", "5.3.2"])) if rng.random() < 0.7 else None
    h["marker"] = rng.choice(["GOPE", "CEBR", "site 1", "E123", "R2D2", "S001"]) if rng.random() < 0.8 else None
    h["comments"] = [rng.choice(["teqc  2018Jul24     UNAVCO Archive Ops", "", "# / of anything 12 34", "> looks like an epoch",
                                 " 10  3  5  0  0  0.0 not an epoch", "D and E letters D+00 E-01", "GPS G01 R02", "-" * 59, "forced modulo decimation to 30 seconds"])
                     for _ in range(rng.choice([0, 0, 1, 2, 5]))]
    h["leap"] = rng.choice([None, 18])
    h["rcv_clk"] = rng.choice([None, None, 0, 1])
    h["tsys"] = rng.choice(["GPS", "GPS", "GLO", "GAL"] + (["BDT", "QZS"] if v == 3 else []))
    return h


def gen_obs(rng: random.Random, v: int, n_epochs=None, systems=None, max_sats=None, n_types=None, missing=None, min_sats=1,
            clk=None, times=None, indicators=None, flags=True, sysletter=None, full=False, stable_sats=False) -> ObsFile:
    prn = V2PRN if v == 2 else V3PRN
    letters = list(prn)
    if systems is None:
        k = rng.choice([1, 1, 2, 2, 3, 4, len(letters)])
        systems = rng.sample(letters, min(k, len(letters)))
    if n_epochs is None:
        n_epochs = rng.choice([1, 1, 2, 3, 4, 6, 9])
    if times is None:
        times = rand_times(rng, n_epochs, 1980, 2079)
    # ---- types
    types: dict = {}
    if v == 2:
        n = n_types or rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 15, 16, 18, 19, 20, 25, 26, 30, 31])
        types["*"] = rng.sample(V2TYPES, min(n, len(V2TYPES)))
    else:
        for s in systems:
            allt = [k + b for b in V3BAND[s] for k in "CLDS"]
            n = n_types or rng.choice([1, 2, 3, 4, 6, 8, 12, 13, 14, 16, 20, 26, 27, 39, 40])
            types[s] = rng.sample(allt, min(n, len(allt)))
            if rng.random() < 0.3 and n_types is None:
                types[s].sort()
    uq = Uniq(rng)
    cap = max_sats or 60
    nsel = [x for x in NSATS if min_sats <= x <= cap] or [cap]
    npool = min(rng.choice(nsel), sum(prn[s] - (19 if s == "S" else 0) for s in systems))
    npool = max(npool, 1)
    pool = _pool(rng, systems, prn, npool)
    if len(pool) < min_sats:
        min_sats = len(pool)
    p_missing = missing if missing is not None else rng.choice([0.0, 0.05, 0.2, 0.5, 0.8])
    p_ind = indicators if indicators is not None else rng.choice([0.0, 0.3, 0.9])
    p_bare = rng.choice([0.0, 0.0, 0.3]) if p_ind else 0.0  # indicator digits next to a blank observation
    with_clk = clk if clk is not None else rng.random() < 0.3
    p_noclk = rng.choice([0.0, 0.0, 0.3])
    order = rng.choice(["shuffle", "sorted", "bysys"])
    eps = []
    for t in times:
        m = len(pool) if (stable_sats or rng.random() < 0.4) else rng.randint(max(1, min(min_sats, len(pool))), len(pool))
        ids = list(pool) if m == len(pool) else rng.sample(pool, m)
        if order == "shuffle":
            rng.shuffle(ids)
        elif order == "sorted":
            ids.sort()
        sats = []
        for sv in ids:
            tl = types["*"] if v == 2 else types[sv[0]]
            x = rng.random()
            if full:
                present = set(tl)
            elif x < 0.06:
                present = set()  # satellite listed without any observation
            elif x < 0.12:
                present = set(tl[: rng.randint(0, len(tl))])  # leading ones only
            elif x < 0.18:
                present = set(tl[rng.randint(0, len(tl)):])  # trailing ones only
            elif x < 0.24 and len(tl) > 5:
                b = rng.randrange(0, (len(tl) + 4) // 5)
                present = set(tl) - set(tl[5 * b: 5 * b + 5])  # a whole line of five blank
            else:
                present = {k for k in tl if rng.random() >= p_missing}
            obs = {}
            for k in tl:
                if k in present:
                    o = Ob(uq.f14(k[0]))
                    if rng.random() < p_ind:
                        o.ssi = str(rng.randint(0, 9))
                    if rng.random() < p_ind and k[0] in "LC":
                        o.lli = str(rng.randint(0, 7))
                    obs[k] = o
                elif p_bare and rng.random() < p_bare:
                    x = rng.choice(["l", "s", "ls"]) if k[0] in "LC" else "s"
                    obs[k] = Ob("", str(rng.randint(0, 7)) if "l" in x else " ", str(rng.randint(1, 9)) if "s" in x else " ")
            sats.append((sv, obs))
        e = Epoch(t, flag=rng.choice([0, 0, 0, 0, 1]) if flags else 0, sats=sats)
        if with_clk:
            x = rng.random()
            e.clk = None if x < p_noclk else "0.000000000" if x < p_noclk + 0.1 else f"{rng.uniform(-0.999, 0.999):.{9 if v == 2 else rng.choice([9, 12])}f}"
        eps.append(e)
    if sysletter is None:
        if len(systems) == 1 and rng.random() < 0.6:
            sysletter = systems[0]
        else:
            sysletter = "M"
    hdr = gen_header_facts(rng, times, v)
    version = rng.choice([2.0, 2.1, 2.11, 2.12]) if v == 2 else rng.choice([3.0, 3.01, 3.02, 3.03, 3.04, 3.05])
    if v == 2 and sysletter == "G" and rng.random() < 0.15:  # the same body, GPS only
        version = 1.0
    return ObsFile(v, version, sysletter, types, eps, hdr)


@dataclass
class Layout:
    """insignificant rendering choices"""
    trim: str = "mixed"  # 'pad', 'trim', 'mixed'
    zero_pad_sv: object = True  # or 'mixed'
    blank_gps: bool = False  # v2: blank system letter for GPS
    zero_pad_epoch: bool = False
    shuffle_hdr: bool = True
    final_newline: bool = True
    lead_blank: int = 0
    eol: str = "\n"
    extra_blanks: bool = False
    header_trim: bool = False
    _zr = None

    def zp(self) -> bool:
        """zero padded satellite number here?"""
        if self.zero_pad_sv != "mixed":
            return self.zero_pad_sv
        if self._zr is None:
            self._zr = random.Random(self.trim)
        return self._zr.random() < 0.5


def rand_layout(rng: random.Random, m=None) -> Layout:
    lay = Layout(trim=rng.choice(["pad", "trim", "mixed"]), zero_pad_sv=rng.choice([True, True, True, True, False, "mixed"]), zero_pad_epoch=rng.random() < 0.3,
                 shuffle_hdr=rng.random() < 0.7, final_newline=rng.random() < 0.85)
    if isinstance(m, ObsFile) and m.v == 2:
        lay.blank_gps = rng.random() < 0.25
    return lay


def _finish(lines: list[str], lay: Layout, rng) -> str:
    """apply trimming/padding to lines already rendered at natural length"""
    out = []
    for ln in lines:
        mode = lay.trim if lay.trim != "mixed" else rng.choice(["pad", "trim", "asis"])
        if mode == "trim":
            ln = ln.rstrip()
        elif mode == "pad":
            ln = f"{ln:80s}"
        out.append(ln)
    return out


def _hdr_lines_common(m: ObsFile, rng, lay) -> tuple[list, list]:
    h = m.hdr
    opt = []
    if h.get("marker"):
        opt.append(hline(h["marker"], "MARKER NAME"))
    if rng.random() < 0.6:
        opt.append(hline(f"{'obs':20s}{'agency':40s}", "OBSERVER / AGENCY"))
    if h.get("rec"):
        opt.append(hline(f"{h['rec'][0]:20s}{h['rec'][1]:20s}{h['rec'][2]:20s}", "REC # / TYPE / VERS"))
    if rng.random() < 0.6:
        opt.append(hline(f"{'123':20s}{'TRM57971.00     NONE':20s}", "ANT # / TYPE"))
    if h.get("position"):
        x = h["position"]
        opt.append(hline(f"{x[0]:14.4f}{x[1]:14.4f}{x[2]:14.4f}", "APPROX POSITION XYZ"))
    if rng.random() < 0.6:
        opt.append(hline(f"{0.0083:14.4f}{0:14.4f}{0:14.4f}", "ANTENNA: DELTA H/E/N"))
    if h.get("interval") is not None:
        opt.append(hline(f"{h['interval']:10.3f}", "INTERVAL"))
    if h.get("leap"):
        opt.append(hline(f"{h['leap']:6d}", "LEAP SECONDS"))
    if h.get("rcv_clk") is not None:
        opt.append(hline(f"{h['rcv_clk']:6d}", "RCV CLOCK OFFS APPL"))
    for c in h["comments"]:
        opt.append(hline(c, "COMMENT"))
    t = m.epochs[0].t if m.epochs else datetime(2010, 3, 5)
    for x in h.get("more_positions", []):  # further approximate positions: the first one counts
        opt.append(hline(f"{x[0]:14.4f}{x[1]:14.4f}{x[2]:14.4f}", "APPROX POSITION XYZ"))

    def tline(t, ts):
        return f"{t.year:6d}{t.month:6d}{t.day:6d}{t.hour:6d}{t.minute:6d}{t.second:5d}.{t.microsecond:06d}0{'':5s}{ts:3s}"

    must = [hline(tline(t, h["tsys"]), "TIME OF FIRST OBS")]
    if h.get("t1"):
        opt.append(hline(tline(h["t1"], h["tsys"]), "TIME OF LAST OBS"))
    return opt, must


def render_obs(m: ObsFile, rng: random.Random, lay: Layout | None = None, inserts=None) -> str:
    """inserts: {epoch_index: [raw lines put before that epoch]} (index len(epochs) = at end)"""
    lay = lay or rand_layout(rng, m)
    lines = _obs_header(m, rng, lay)
    nh = len(lines)
    marks = []
    for i, e in enumerate(m.epochs):
        if inserts and i in inserts:
            lines += inserts[i]
        marks.append(len(lines))
        lines += (_ep2 if m.v == 2 else _ep3)(m, e, lay, rng)
    if inserts and len(m.epochs) in inserts:
        lines += inserts[len(m.epochs)]
    m.nheader, m.marks, m.nlines = nh + lay.lead_blank, [x + lay.lead_blank for x in marks], len(lines) + lay.lead_blank
    return _join(lines, lay)


def _join(lines, lay):
    txt = lay.eol.join([""] * lay.lead_blank + lines)
    return txt + (lay.eol if lay.final_newline else "")


def _obs_header(m: ObsFile, rng, lay) -> list[str]:
    full = {"M": "M (MIXED)", "G": "G (GPS)", "R": "R (GLONASS)", "E": "E (GALILEO)", "S": "S (SBAS)", "C": "C (BDS)", "J": "J (QZSS)", "I": "I (IRNSS)"}
    sl = full.get(m.sysletter, m.sysletter)
    if rng.random() < 0.3:
        sl = m.sysletter
    if m.v == 2 and m.sysletter == "G" and m.hdr.get("blank_sys"):
        sl = " "
    vs = f"{m.version:9.2f}" if rng.random() < 0.8 else f"{m.version:<9.2f}" if m.v == 3 else f"{m.version:9.1f}" if round(m.version, 1) == m.version else f"{m.version:9.2f}"
    first = f"{vs}{'':11s}{'OBSERVATION DATA':20s}{sl:20s}RINEX VERSION / TYPE"
    opt, must = _hdr_lines_common(m, rng, lay)
    if m.v == 2:
        tl = m.types["*"]
        tlines = []
        for i in range(0, len(tl), 9):
            head = f"{len(tl):6d}" if i == 0 else " " * 6
            tlines.append(hline(head + "".join(f"    {k:2s}" for k in tl[i:i + 9]), "# / TYPES OF OBSERV"))
        if rng.random() < 0.5:
            opt.append(hline(f"{1:6d}{1:6d}", "WAVELENGTH FACT L1/2"))
        if m.epochs and rng.random() < 0.4:
            opt.append(hline(f"{len(m.svs):6d}", "# OF SATELLITES"))
        blocks = [[x] for x in opt + must] + [tlines]
    else:
        blocks = [[x] for x in opt + must]
        tb = []
        for s in m.types:
            tl = m.types[s]
            tlines = []
            for i in range(0, len(tl), 13):
                head = f"{s}  {len(tl):3d}" if i == 0 else " " * 6
                tlines.append(hline(head + "".join(f" {k:3s}" for k in tl[i:i + 13]), "SYS / # / OBS TYPES"))
            tb.append(tlines)
        blocks += tb
        if rng.random() < 0.3:
            blocks.append([hline("DBHZ", "SIGNAL STRENGTH UNIT")])
        if "R" in m.types and rng.random() < 0.5:
            blocks.append([hline(" 24 R01  1 R02 -4 R03  5", "GLONASS SLOT / FRQ #")])
    if lay.shuffle_hdr:
        rng.shuffle(blocks)
    out = [first] + [x for b in blocks for x in b]
    out.append(hline("", "END OF HEADER"))
    if lay.header_trim:
        out = [x.rstrip() for x in out]
    return out


def _svid(sv: str, lay: Layout, v: int) -> str:
    n = int(sv[1:])
    s = " " if (v == 2 and lay.blank_gps and sv[0] == "G") else sv[0]
    return f"{s}{n:02d}" if lay.zp() else f"{s}{n:2d}"


def _time2(t: datetime, lay) -> str:
    z = "02d" if lay.zero_pad_epoch else "2d"
    return f" {t.year % 100:02d} {t.month:{z}} {t.day:{z}} {t.hour:{z}} {t.minute:{z}}{t.second:3d}.{t.microsecond:06d}0"


def _obfields(o: Ob | None) -> str:
    return " " * 16 if o is None else f"{o.text:>14s}{o.lli}{o.ssi}"


def _ep2(m: ObsFile, e: Epoch, lay, rng) -> list[str]:
    ids = [_svid(sv, lay, 2) for sv, _ in e.sats]
    head = f"{_time2(e.t, lay)}  {e.flag:1d}{len(ids):3d}" + "".join(ids[:12])
    if e.clk is not None:
        head = f"{head:68s}{float(e.clk):12.9f}"
    lines = [head]
    for i in range(12, len(ids), 12):
        lines.append(" " * 32 + "".join(ids[i:i + 12]))
    data = []
    tl = m.types["*"]
    for _, obs in e.sats:
        for i in range(0, len(tl), 5):
            data.append("".join(_obfields(obs.get(k)) for k in tl[i:i + 5]))
    return lines + _finish(data, lay, rng)


def _ep3(m: ObsFile, e: Epoch, lay, rng) -> list[str]:
    t = e.t
    head = f"> {t.year:4d} {t.month:02d} {t.day:02d} {t.hour:02d} {t.minute:02d}{t.second:3d}.{t.microsecond:06d}0  {e.flag:1d}{len(e.sats):3d}"
    if e.clk is not None:
        head = f"{head:41s}{float(e.clk):15.12f}"
    lines = [head]
    for sv, obs in e.sats:
        ln = _svid(sv, lay, 3) + "".join(_obfields(obs.get(k)) for k in m.types[sv[0]])
        mode = lay.trim if lay.trim != "mixed" else rng.choice(["pad", "trim", "asis"])
        if mode == "trim":
            ln = ln.rstrip()
        elif mode == "pad":
            ln = ln + " " * rng.choice([0, 1, 16])
        lines.append(ln)
    return lines


# ---------------------------------------------------------------------------------------------
# NAV

KEP = ["SVclockBias", "SVclockDrift", "SVclockDriftRate"]
ORB = ["Crs", "DeltaN", "M0", "Cuc", "Eccentricity", "Cus", "sqrtA", "Toe", "Cic", "Omega0", "Cis", "Io", "Crc", "omega", "OmegaDot", "IDOT"]
STATE = ["SVclockBias", "SVrelFreqBias", "MessageFrameTime", "X", "dX", "dX2", "health", "Y", "dY", "dY2"]
# field name per slot; None = spare slot.  (slot = position in the record on the RINEX tables)
NAVFIELDS3 = {
    "G": KEP + ["IODE"] + ORB + ["CodesL2", "GPSWeek", "L2Pflag", "SVacc", "health", "TGD", "IODC", "TransTime", "FitIntvl", None, None],
    "J": KEP + ["IODE"] + ORB + ["CodesL2", "GPSWeek", "L2Pflag", "SVacc", "health", "TGD", "IODC", "TransTime", "FitIntvl", None, None],
    "E": KEP + ["IODnav"] + ORB + ["DataSrc", "GALWeek", None, "SISA", "health", "BGDe5a", "BGDe5b", "TransTime", None, None, None],
    "C": KEP + ["AODE"] + ORB + [None, "BDTWeek", None, "SVacc", "SatH1", "TGD1", "TGD2", "TransTime", "AODC", None, None],
    "I": KEP + ["IODEC"] + ORB + [None, "BDTWeek", None, "URA", "health", "TGD", None, "TransTime", None, None, None],
    "R": STATE + ["FreqNum", "Z", "dZ", "dZ2", "AgeOpInfo"],
    "S": STATE + ["URA", "Z", "dZ", "dZ2", "IODN"],
}
NAVFIELDS2 = {
    "G": NAVFIELDS3["G"][:29],
    "R": NAVFIELDS3["R"],
    "E": KEP + ["IODnav"] + ORB + ["DataSrc", "GALWeek", "SISA", "health", "BGDe5a", "BGDe5b", "TransTime"],
}
KM = {"X", "Y", "Z", "dX", "dY", "dZ", "dX2", "dY2", "dZ2"}
SPARE3 = {  # name the library gives to spare slots, by slot position
    "G": {29: "spare0", 30: "spare1"}, "J": {29: "spare0", 30: "spare1"},
    "E": {22: "spare0", 28: "spare1", 29: "spare2", 30: "spare3"},
    "C": {20: "spare0", 22: "spare1", 29: "spare2", 30: "spare3"},
    "I": {20: "spare0", 22: "spare1", 26: "spare2", 28: "spare3", 29: "spare4", 30: "spare5"},
}


@dataclass
class NavRec:
    sv: str
    t: datetime
    slots: list  # text (19 chars) or None for blank; one per slot of the record
    lay: str = ""  # which trailing/spare slots are physically written


@dataclass
class NavFile:
    v: int
    version: float
    kind: str  # v2: 'N','G','E'; v3: sysletter
    recs: list
    hdr: dict
    layout: dict  # per system: how trailing/spare slots are written

    @property
    def times(self) -> list[int]:
        return sorted({t_us(r.t) for r in self.recs})

    def records(self) -> list[tuple]:
        """[(svname incl. copy suffix, t_us, {field: value-or-None(omitted)})]"""
        out = []
        seen: dict = {}
        for r in self.recs:
            key = (r.sv, r.t)
            k = seen.get(key, 0)
            seen[key] = k + 1
            name = r.sv if k == 0 else f"{r.sv}_{k}"
            fl = (NAVFIELDS2 if self.v == 2 else NAVFIELDS3)[r.sv[0]]
            vals = {}
            for i, f in enumerate(fl):
                s = r.slots[i] if i < len(r.slots) else None
                if f is None:
                    continue
                x = None if s is None else num19(s)
                if x is not None and f in KM and r.sv[0] in "RS":
                    x = x * 1000
                vals[f] = x
            out.append((name, t_us(r.t), vals))
        return out


STYLES = ["D", "D", "E", "d", "e", "D.", "E.", "D0", "E0", "d0"]


def gen_nav(rng: random.Random, v: int, n_recs=None, systems=None, order=None, dups=None, blanks=None, frac=True, style=None, layouts=None, cover=False) -> NavFile:
    uq = Uniq(rng)
    style = style or rng.choice(STYLES)
    if v == 2:
        kind = rng.choice(["N", "N", "G", "E"]) if systems is None else {"G": "N", "R": "G", "E": "E"}[systems[0]]
        systems = [{"N": "G", "G": "R", "E": "E"}[kind]]
        version = rng.choice([2.0, 2.1, 2.11, 2.12])
    else:
        letters = list(NAVFIELDS3)
        if systems is None:
            systems = rng.sample(letters, rng.choice([1, 1, 2, 3, 5, 7]))
        kind = systems[0] if len(systems) == 1 and rng.random() < 0.6 else "M"
        version = rng.choice([3.0, 3.01, 3.02, 3.03, 3.04, 3.05])
    prn = V3PRN
    n = n_recs or rng.choice([1, 2, 3, 5, 8, 12, 20])
    nsv = rng.choice([1, 2, 3, 5, 8])
    pool = _pool(rng, systems, prn, nsv)
    if cover:  # at least one satellite, and one record, of every system
        pool = list(dict.fromkeys([_pool(rng, [s], prn, 1)[0] for s in systems] + pool))
    lo, hi = (1980, 2079) if v == 2 else (1980, 2099)
    t0 = rand_start(rng, lo, hi).replace(microsecond=0)
    if n > 20 and t0.year == hi:
        t0 = t0.replace(year=hi - 4)
    recs = []
    keys = set()
    if dups is None:
        dups = rng.random() < 0.35
    for i in range(n):
        sv = pool[i] if cover and i < len(systems) else rng.choice(pool)
        if not (cover and i < len(systems)) and dups and recs and rng.random() < 0.4:
            q = rng.choice(recs)
            sv, t = q.sv, q.t
        else:
            for _ in range(50):
                t = t0 + timedelta(seconds=rng.choice([0, 1800, 3600, 7200, 16, 59, 600, 5999]) * rng.randint(0, max(6, n)))
                if v == 2 and frac and rng.random() < 0.15:
                    t = t + timedelta(microseconds=rng.choice([100000, 300000, 500000, 900000]))
                if (sv, t) not in keys:
                    break
            else:
                continue
        keys.add((sv, t))
        recs.append(NavRec(sv, t, []))
    if order is None:
        order = rng.choice(["time", "sv", "random"])
    if order == "time":
        recs.sort(key=lambda r: r.t)
    elif order == "sv":
        recs.sort(key=lambda r: (r.sv, r.t))
    else:
        rng.shuffle(recs)
    layout = {}
    for s in systems:
        if v == 2:
            layout[s] = {"G": rng.choice(["full", "nofit", "mixed"]), "R": "full", "E": "nospare"}[s]
        else:
            # which trailing/spare slots are physically written
            layout[s] = rng.choice({
                "G": ["31", "29", "28", "30", "mixfit"],
                "J": ["31", "29", "30", "mixfit"],
                "E": ["31", "28", "27", "29", "30", "mix"],
                "C": ["31", "28", "29", "30", "mix"],
                "I": ["31", "28", "29", "30", "mix"],
                "R": ["15", "19"] if version >= 3.05 else ["15"], "S": ["15"]}[s])
        if layouts and s in layouts:
            layout[s] = layouts[s]
    pblank = blanks if blanks is not None else rng.choice([0, 0, 0.1] if v == 3 else [0, 0, 0, 0.1])
    pzero = rng.choice([0, 0.05, 0.3])
    for r in recs:
        s = r.sv[0]
        fl = (NAVFIELDS2 if v == 2 else NAVFIELDS3)[s]
        slots = []
        for i, f in enumerate(fl):
            if f in KM:
                x = uq.f19(style, rng.choice(["4", "3", "0", "-3", "-9"]))
            elif f is None:
                x = None if rng.random() < 0.5 else uq.f19(style, "0")
            elif rng.random() < pzero:
                x = rng.choice([" 0.000000000000D+00", "-0.000000000000E+00", " 1.000000000000D+00", "                 .0", "                  0"])
            else:
                x = uq.f19(style)
            slots.append(x)
        r.slots = slots
        lay = layout[s] if layout[s] != "mix" else rng.choice({"E": ["31", "28", "27", "29", "30"], "C": ["31", "28", "29", "30"], "I": ["31", "28", "29", "30"]}[s])
        r.lay = lay
        if pblank:
            for i, f in enumerate(fl):
                # never the first slots (needed to have a record) nor the last written slot
                if f is not None and (1 if v == 2 else 3) <= i < (14 if s in "RS" else 27) and not (s in "EC" and 19 <= i <= 22) and rng.random() < pblank:
                    slots[i] = None
        _apply_nav_layout(v, s, lay, slots, rng, fl)
    # mixfit needs care: at least one with and one without only if several records
    hdr = gen_nav_header(rng, v, kind)
    return NavFile(v, version, kind, recs, hdr, layout)


def _apply_nav_layout(v, s, lay, slots, rng, fl):
    """make the model agree with what the layout physically writes"""
    if v == 2:
        if s == "G":
            if lay == "nofit" or (lay == "mixed" and rng.random() < 0.5):
                slots[28] = None
        return
    if s in "GJ":
        n = {"31": 31, "30": 30, "29": 29, "28": 28}.get(lay)
        if lay == "mixfit":
            n = 29 if rng.random() < 0.5 else 28
        for i in range(28, 31):
            if i >= n:
                slots[i] = None
            elif slots[i] is None:
                slots[i] = fmt19(rng.randrange(10**12, 10**13), 0, False, "D")
    elif s == "E":
        if lay == "27":
            slots[22] = None
        elif slots[22] is None:  # a physical middle spare: write zero
            slots[22] = fmt19(0, -1, False, "D0") if False else " 0.000000000000D+00"
        n = {"31": 31, "30": 30, "29": 29, "28": 28, "27": 28}[lay]
        for i in range(28, 31):
            if i >= n:
                slots[i] = None
            elif slots[i] is None:
                slots[i] = " 0.000000000000D+00"
    elif s == "C":
        if slots[20] is None:
            slots[20] = " 0.000000000000D+00"
        if lay == "28":
            slots[22] = None
        elif slots[22] is None:
            slots[22] = " 0.000000000000D+00"
        n = {"31": 31, "30": 30, "29": 29, "28": 29}[lay]
        for i in range(28, 31):
            if i >= n:
                slots[i] = None
            elif slots[i] is None:
                slots[i] = fmt19(rng.randrange(10**12, 10**13), 0, False, "D")
    elif s == "I":
        for i in (20, 22, 26):
            if slots[i] is None:
                slots[i] = " 0.000000000000D+00"
        n = int(lay)
        for i in range(28, 31):
            if i >= n:
                slots[i] = None
            elif slots[i] is None:
                slots[i] = " 0.000000000000D+00"


def _f12(rng):
    m = rng.randrange(1000, 99999)
    e = rng.choice([-9, -8, -7, 4, 5])
    neg = rng.random() < 0.5
    return f"{'-' if neg else ' '}0.{m:05d}"[:7], e, neg, m


def f12(rng, style="D") -> str:
    x = rng.uniform(1, 9.9999) * (-1 if rng.random() < 0.5 else 1)
    e = rng.choice([-9, -8, -7, 0, 1, 4, 5])
    s = f"{x:.4f}{style}{'-' if e < 0 else '+'}{abs(e):02d}"
    return f"{s:>12s}"


def gen_nav_header(rng, v, kind) -> dict:
    h = {"comments": ["comment"] * rng.choice([0, 0, 1, 3]), "leap": rng.choice([None, 18])}
    st = rng.choice(["D", "E", "D", "d", "e"])
    if v == 2:
        if rng.random() < 0.6:
            h["alpha"] = [f12(rng, st) for _ in range(4)]
            h["beta"] = [f12(rng, st) for _ in range(4)]
            if rng.random() < 0.15:
                del h["beta"]
    else:
        corr = {}
        for k in ["GPSA", "GPSB", "GAL", "QZSA", "QZSB", "BDSA", "BDSB", "IRNA", "IRNB"]:
            if rng.random() < 0.4:
                corr[k] = [f12(rng, st) for _ in range(3 if k == "GAL" else 4)]
        h["corr"] = corr
        ts = {}
        for k in ["GPUT", "GLUT", "GAUT", "BDUT", "GPGA", "SBUT", "QZUT"]:
            if rng.random() < 0.3:
                a0 = f"{rng.uniform(-9, 9):.10f}{st}{rng.choice(['-09', '-07', '+00', '-10'])}"
                a1 = f"{rng.uniform(-9, 9):.9f}{st}{rng.choice(['-14', '-15', '+00'])}"
                ts[k] = [f"{a0:>17s}", f"{a1:>16s}", rng.randrange(0, 604800), rng.randrange(0, 3000)]
        h["tsc"] = ts
    return h


def nav_record_lines(m: NavFile, r: NavRec, lay: Layout, rng) -> list[str]:
    s = r.sv[0]
    t = r.t
    B = " " * 19
    sl = list(r.slots)
    nfl = len((NAVFIELDS2 if m.v == 2 else NAVFIELDS3)[s])
    sl += [None] * (nfl - len(sl))
    rows = []
    if m.v == 2 and s == "E":
        # receivers write: 3 | 4x4 | IDOT DataSrc GALWeek | SISA health BGDa BGDb | TransTime
        groups = [sl[0:3], sl[3:7], sl[7:11], sl[11:15], sl[15:19], sl[19:22], sl[22:26], sl[26:27]]
        rows = [[x if x is not None else B for x in g] for g in groups]
    elif m.v == 3 and s == "E" and r.lay == "27":
        groups = [sl[0:3], sl[3:7], sl[7:11], sl[11:15], sl[15:19], sl[19:22], sl[23:27], sl[27:28]]
        rows = [[x if x is not None else B for x in g] for g in groups]
    elif m.v == 3 and s == "C" and r.lay == "28":
        groups = [sl[0:3], sl[3:7], sl[7:11], sl[11:15], sl[15:19], sl[19:22], sl[23:27], sl[27:29]]
        rows = [[x if x is not None else B for x in g] for g in groups]
    else:
        groups = [sl[0:3]] + [sl[i:i + 4] for i in range(3, nfl, 4)]
        rows = [[x if x is not None else B for x in g] for g in groups]
    # trailing omitted slots are not written at all on the last line
    last = groups[-1]
    while rows[-1] and last[len(rows[-1]) - 1] is None:
        rows[-1].pop()
    if m.v == 2:
        z = "02d" if lay.zero_pad_epoch else "2d"
        n = int(r.sv[1:])
        head = f"{n:02d}" if lay.zp() else f"{n:2d}"
        head += f" {t.year % 100:02d} {t.month:{z}} {t.day:{z}} {t.hour:{z}} {t.minute:{z}}{t.second:3d}.{t.microsecond // 100000:1d}"
        ind = "   "
    else:
        head = f"{_svid(r.sv, lay, 3)} {t.year:4d} {t.month:02d} {t.day:02d} {t.hour:02d} {t.minute:02d} {t.second:02d}"
        ind = "    "
    if r.lay == "19":  # RINEX 3.05 GLONASS: a fourth line (status flags, group delay, URAI, health flags)
        rows.append([f12(rng, "D").rjust(19) for _ in range(4)])
    lines = [head + "".join(rows[0])] + [ind + "".join(g) for g in rows[1:]]
    return lines


def render_nav(m: NavFile, rng: random.Random, lay: Layout | None = None) -> str:
    lay = lay or rand_layout(rng, m)
    names = {"G": "G: GPS", "R": "R: GLONASS", "E": "E: GALILEO", "C": "C: BDS", "J": "J: QZSS", "I": "I: IRNSS", "S": "S: SBAS", "M": "M: MIXED"}
    if m.v == 2:
        typ = {"N": "N: GPS NAV DATA", "G": "G: GLONASS NAV DATA", "E": "E: Galileo NAV DATA"}[m.kind]
        if m.kind == "N" and rng.random() < 0.5:
            typ = rng.choice(["NAVIGATION DATA", "N"])
        first = f"{m.version:9.2f}{'':11s}{typ:20s}{'':20s}RINEX VERSION / TYPE"
    else:
        typ = rng.choice(["N: GNSS NAV DATA", "NAVIGATION DATA", "N"])
        first = f"{m.version:9.2f}{'':11s}{typ:20s}{names[m.kind]:20s}RINEX VERSION / TYPE"
    h = m.hdr
    opt = []
    for c in h["comments"]:
        opt.append(hline(c, "COMMENT"))
    if h.get("leap"):
        opt.append(hline(f"{h['leap']:6d}", "LEAP SECONDS"))
    if m.v == 2:
        if h.get("alpha"):
            opt.append(hline("  " + "".join(h["alpha"]), "ION ALPHA"))
        if h.get("beta"):
            opt.append(hline("  " + "".join(h["beta"]), "ION BETA"))
    else:
        for k, c in h.get("corr", {}).items():
            opt.append(hline(f"{k:4s} " + "".join(c), "IONOSPHERIC CORR"))
        for k, c in h.get("tsc", {}).items():
            opt.append(hline(f"{k:4s} {c[0]}{c[1]} {c[2]:6d} {c[3]:4d}", "TIME SYSTEM CORR"))
    if lay.shuffle_hdr:
        rng.shuffle(opt)
    lines = [first] + opt + [hline("", "END OF HEADER")]
    if lay.header_trim:
        lines = [x.rstrip() for x in lines]
    m.nheader = len(lines) + lay.lead_blank
    m.marks = []
    for r in m.recs:
        m.marks.append(len(lines) + lay.lead_blank)
        rl = nav_record_lines(m, r, lay, rng)
        mode = lay.trim if lay.trim != "mixed" else rng.choice(["pad", "trim", "asis"])
        if mode == "trim":
            rl = [x.rstrip() for x in rl]
        elif mode == "pad" and (m.v == 2 or r.lay != "27"):
            rl = [f"{x:{79 if m.v == 2 else 80}s}" for x in rl]
        lines += rl
    m.nlines = len(lines) + lay.lead_blank
    return _join(lines, lay)


# ---------------------------------------------------------------------------------------------
# SP3

@dataclass
class Sp3File:
    ver: str
    svs: list
    epochs: list  # [(t, [(sv, (x,y,z,c) texts, vel texts or None)])]
    hdr: dict

    def values(self) -> dict:
        """{(var, t_us, sv): float or (x,y,z)}"""
        out = {}
        for t, rows in self.epochs:
            tu = t_us(t)
            for sv, p, v in rows:
                if p is not None:
                    for i, ax in enumerate("xyz"):
                        out[("position", tu, sv, ax)] = float(p[i])
                    out[("clock", tu, sv)] = float(p[3])
                if v is not None:
                    for i, ax in enumerate("xyz"):
                        out[("velocity", tu, sv, ax)] = float(v[i])
                    out[("dclock", tu, sv)] = float(v[3])
        return out

    @property
    def times(self):
        return [t_us(t) for t, _ in self.epochs]


def gen_sp3(rng: random.Random, ver=None, nsv=None, n_epochs=None, velocity=None, omit=None) -> Sp3File:
    ver = ver or rng.choice("acd")
    if ver == "a":
        n = nsv or rng.choice([1, 5, 17, 18, 25, 32, 34])
        svs = [str(i) for i in rng.sample(range(1, 64), n)]
        if rng.random() < 0.7:
            svs.sort(key=int)
    else:
        n = nsv or rng.choice([1, 2, 16, 17, 18, 32, 33, 34, 35, 51, 52, 85] + ([86, 99, 100, 116, 120] if ver == "d" else []))
        svs = _pool(rng, ["G", "R", "E", "C", "J"], V3PRN, n)
        if rng.random() < 0.6:
            svs.sort()
    ne = n_epochs or rng.choice([1, 2, 3, 5])
    times = rand_times(rng, ne, 1994, 2079, frac=rng.random() < 0.5, regular=True)
    mode = velocity or rng.choice(["none", "all", "some", "first", "notfirst"])
    om = omit if omit is not None else rng.choice([0, 0, 0.2])
    seen = set()

    def num(lo, hi):
        while True:
            s = f"{rng.uniform(lo, hi):14.6f}"
            if s not in seen:
                seen.add(s)
                return s
    eps = []
    for j, t in enumerate(times):
        rows = []
        for sv in svs:
            if om and len(svs) > 1 and rng.random() < om:
                continue
            p = [num(-30000, 30000), num(-30000, 30000), num(-30000, 30000), num(-9e5, 9e5)]
            if rng.random() < 0.05:
                p[3] = " 999999.999999"
            if rng.random() < 0.03:
                p[:3] = ["      0.000000"] * 3
            vel = mode == "all" or (mode == "some" and rng.random() < 0.5) or (mode == "first" and j == 0) or (mode == "notfirst" and j > 0)
            v = [num(-40000, 40000), num(-40000, 40000), num(-40000, 40000), num(-9e3, 9e3)] if vel else None
            if rng.random() < 0.03:  # all 14 columns used
                (v or p)[rng.randrange(4)] = num(-999999, -100000)
            rows.append((sv, None if v and rng.random() < 0.02 else p, v))  # also a velocity alone
        if not rows:
            rows.append((svs[0], [num(-30000, 30000) for _ in range(4)], None))
        eps.append((t, rows))
    if om and rng.random() < 0.5:
        for _, rows in eps:
            rng.shuffle(rows)
    hdr = {"coord": rng.choice(["IGS14", "ITR92", "WGS84", "IGb08"]), "orbit": rng.choice(["ORB", "FIT", "HLM", "BHN"])[:3],
           "agency": rng.choice(["IGS", "NGS", "COD", "AIUB", "GFZ"]), "pv": "V" if mode != "none" else "P", "extras": rng.random() < 0.3, "carry": rng.random() < 0.15}
    return Sp3File(ver, svs, eps, hdr)


def render_sp3(m: Sp3File, rng: random.Random, lay: Layout | None = None) -> str:
    lay = lay or Layout(trim=rng.choice(["trim", "pad", "mixed"]), final_newline=rng.random() < 0.9)

    carry = m.hdr.get("carry")

    def tl(t, sp=True):
        if carry and sp and t.second == 0 and rng.random() < 0.7:  # the same instant as second 60, minute 60 or hour 24
            b = t - timedelta(minutes=1)
            forms = [(b, b.hour, b.minute, 60)]
            if t.minute == 0:
                c = t - timedelta(hours=1)
                forms += [(c, c.hour, 60, 0), (c, c.hour, 59, 60)]
                if t.hour == 0:
                    forms += [(c, 24, 0, 0), (c, 23, 60, 0)]
            b, h, mi, s = rng.choice(forms)
            return f"{b.year:4d} {b.month:2d} {b.day:2d} {h:2d} {mi:2d} {s:2d}.{t.microsecond:06d}00"
        return f"{t.year:4d} {t.month:2d} {t.day:2d} {t.hour:2d} {t.minute:2d} {t.second:2d}.{t.microsecond:06d}00"
    lines = [f"#{m.ver}{m.hdr['pv']}{tl(m.epochs[0][0])} {len(m.epochs):7d} ORBIT {m.hdr['coord']:5s} {m.hdr['orbit']:3s} {m.hdr['agency']:>4s}"]
    lines.append("## 1936 172800.00000000   900.00000000 57798 0.0000000000000")
    ids = [(f"{int(s):3d}" if m.ver == "a" else (s if lay.zp() else f"{s[0]}{int(s[1:]):2d}")) for s in m.svs]
    n = len(m.svs)
    nrow = max(5, (n + 16) // 17)
    for r in range(nrow):
        row = ids[17 * r: 17 * r + 17]
        row += ["  0"] * (17 - len(row))
        head = (f"+  {n:3d}   " if m.ver == "d" else f"+   {n:2d}   ") if r == 0 else "+        "
        lines.append(head + "".join(row))
    for r in range(nrow):
        lines.append("++       " + "  0" * 17)
    if m.ver == "a":
        lines += ["%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc"] * 2
    else:
        lines += ["%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc", "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc"]
    lines += ["%f  1.2500000  1.025000000  0.00000000000  0.000000000000000", "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000"]
    lines += ["%i    0    0    0    0      0      0      0      0         0"] * 2
    lines += ["/* FINAL ORBIT COMBINATION FROM WEIGHTED AVERAGE OF:        "] * 4
    if lay.header_trim:
        lines = [x.rstrip() for x in lines]
    m.nheader = len(lines)
    m.marks = []
    for t, rows in m.epochs:
        m.marks.append(len(lines))
        lines.append(f"*  {tl(t)}")
        for sv, p, v in rows:
            sid = f"{int(sv):3d}" if m.ver == "a" else (sv if lay.zp() else f"{sv[0]}{int(sv[1:]):2d}")
            if p is not None:
                ln = f"P{sid}" + "".join(p)
                if m.ver != "a" and m.hdr["extras"]:
                    ln += " 10  9  9 102"
                lines.append(ln)
            if m.ver != "a" and m.hdr["extras"] and v is None and rng.random() < 0.2:
                lines.append("EP    55   55   55     222  1234567 -1234567  5999999      -30       21 -1230000")
            if v is not None:
                lines.append(f"V{sid}" + "".join(v))
                if m.ver != "a" and m.hdr["extras"] and rng.random() < 0.2:
                    lines.append("EV    22   22   22     111  1234567  1234567  1234567  1234567  1234567  1234567")
    lines.append("EOF")
    if lay.trim == "pad":
        lines = [f"{x:80s}" for x in lines]
    m.nlines = len(lines)
    return _join(lines, lay)
