"""C21 truncated files, C22 event records and junk"""
from __future__ import annotations
import copy
import io

import georinex as gr

from .. import gen, oracle, wl
from ..core import Crash, Ctx, Violation
from ..gen import t_us, us_t, hline


# ---------------------------------------------------------------- events

def special_records(r, v, n):
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.2:
            out.append(hline(r.choice(["GOPE", "G07", "NEW SITE", "S001", "E12  moved"]), "MARKER NAME"))
        elif k < 0.35:
            out.append(hline(f"{r.uniform(0, 2):14.4f}{0:14.4f}{0:14.4f}", "ANTENNA: DELTA H/E/N"))
        elif k < 0.5:
            out.append(hline(f"{4789028.4701:14.4f}{176610.0133:14.4f}{4195017.0310:14.4f}", "APPROX POSITION XYZ"))
        elif k < 0.6:
            out.append(hline(f"{'123':20s}{'TRM57971.00     NONE':20s}", "ANT # / TYPE"))
        elif k < 0.7:
            out.append(hline("", "COMMENT"))
        else:
            out.append(hline(r.choice([
                "external event at 12:34:56", "G07  23456789.123 8", "> 2010 03 05 00 00 30.0000000  0  1", " 10  3  5  0  0 30.0000000  0  1G13",
                " 10  3  5  0  0 30.0000000  0  2G13R01", "R01 1 2 3", "  23456789.123 7  23456789.456 7", "*** ANTENNA MOVED ***", "END OF EVENT"]), "COMMENT"))
    return out


def event_lines(r, v, t):
    """t: datetime or None (time left blank)"""
    flag = r.choice([2, 3, 4, 4, 5])
    n = r.choice([0, 1, 1, 2, 3, 5, 12, 13]) if flag != 3 else r.choice([1, 2, 3])
    if r.random() < 0.02:
        n = r.choice([99, 100, 123, 999])  # all three columns of the count
    if flag == 5 and t is None:
        flag = 4
    if v == 2:
        tt = gen._time2(t, gen.Layout()) if t else " " * 26
        head = f"{tt}  {flag:1d}{n:3d}"
    else:
        tt = f"{t.year:4d} {t.month:02d} {t.day:02d} {t.hour:02d} {t.minute:02d}{t.second:3d}.{t.microsecond:06d}0" if t else " " * 27
        head = f"> {tt}  {flag:1d}{n:3d}"
        if r.random() < 0.3:
            head += " " * 21
    return [head] + special_records(r, v, n)


def slip_lines(r, m, i):
    """cycle slip records (epoch flag 6): the format of observation records, slips instead of observations"""
    e = copy.deepcopy(m.epochs[min(i, len(m.epochs) - 1)])
    if i >= len(m.epochs) or r.random() < 0.3:
        e.t = us_t(m.times[min(i, len(m.epochs) - 1)] + (500000 if i >= len(m.epochs) else -500000))
    e.flag, e.clk = 6, None
    e.sats = r.sample(e.sats, r.randint(1, len(e.sats))) if e.sats else []
    e.sats = [(sv, {k: gen.Ob(f"{r.randint(-9, 9):10d}.000") for k in obs if k[0] == "L" and r.random() < 0.8}) for sv, obs in e.sats]
    return (gen._ep2 if m.v == 2 else gen._ep3)(m, e, gen.Layout(trim=r.choice(["trim", "pad"])), r)


def event_inserts(r, m, p=0.4) -> dict:
    ins: dict = {}
    for i in range(len(m.epochs) + 1):
        while r.random() < p:
            if r.random() < 0.15:
                ins.setdefault(i, [])
                ins[i] += slip_lines(r, m, i)
                continue
            x = r.random()
            if x < 0.5:
                t = None
            elif i < len(m.epochs):
                t = us_t(m.times[i] - r.choice([1, 500000]))
            else:
                t = us_t(m.times[-1] + 500000)
            ins.setdefault(i, [])
            ins[i] += event_lines(r, m.v, t)
    return ins


def junk_lines(r, m, i):
    """an unparseable epoch line, with or without the records that belong to it"""
    e = copy.deepcopy(m.epochs[min(i, len(m.epochs) - 1)])
    ls = (gen._ep2 if m.v == 2 else gen._ep3)(m, e, gen.Layout(trim="trim"), r)
    head = ls[0]
    x = r.random()
    if m.v == 2:
        cols = {0: (4, 6, "13"), 1: (16, 18, "60"), 2: (1, 3, "xx"), 3: (10, 12, "24")}
    else:
        cols = {0: (7, 9, "13"), 1: (19, 21, "60"), 2: (2, 6, "????"), 3: (13, 15, "24")}
    a, b, s = cols[r.randrange(4)]
    head = head[:a] + s + head[b:]
    if x < 0.3:
        return [r.choice(["> 23 29", ">", "> junk", "garbage line"]) if m.v == 3 else r.choice(["garbage", " 10  3", "", "   . . ."])]
    if m.v == 2 and len(e.sats) > 0:
        pass
    return [head] + ls[1:]


def c22_events(ctx: Ctx):
    r = ctx.rng
    v = r.choice([2, 3])
    m = wl.gen_pair(ctx, v, n_epochs=r.choice([1, 2, 3, 5, 8]), max_sats=r.choice([2, 5, 9, 14, 30]))
    ins = {}
    while not ins:
        ins = event_inserts(r, m, r.choice([0.3, 0.6]))
    text = wl.obs_text(ctx, m, inserts=ins)
    src = io.StringIO(text) if r.random() < 0.15 else ctx.write("site0010.10o", text)
    opts, use, meas, times = {}, None, None, None
    if v == 2 and r.random() < 0.5:
        opts["fast"] = False
    if r.random() < 0.3:
        opts["use"], use = wl.rand_use(r, m.systems, "GRESCJ")
    if r.random() < 0.3:
        from .options import rand_window, spell_window
        w = rand_window(r, m.times)
        opts["tlim"] = spell_window(r, w)
        times = {t for t in m.times if w[0] <= t <= w[1]}
    ds = wl.load(ctx, m, text, src, **opts)
    wl.check_obs(ctx, ds, m, f"load({opts}) with events", use, meas, times, key="event-values")
    got = oracle.arr_us(ctx.must("gettime-raised", "gettime", gr.gettime, src))
    lost = [t for t in m.times if t not in got]
    if lost:
        raise Violation("event-gettime", f"gettime lost {oracle.fmt_us(lost[0])} in a file with events")
    if [t for t in got if t in set(m.times)] != m.times:
        raise Violation("event-gettime", "gettime lists epochs in another order than the file")
    ctx.n["events_inserted"] += sum(1 for ls in ins.values() for _ in ls)
    ctx.n["files_with_power_failure_epoch"] += any(e.flag == 1 for e in m.epochs)
    ctx.distinct(text, sorted(opts))
    ctx.sample = {"seed": ctx.seed, "v": v, "inserted": {k: [x[:40] for x in ls][:4] for k, ls in ins.items()}}


def c22_junk(ctx: Ctx):
    r = ctx.rng
    v = r.choice([2, 3])
    m = wl.gen_pair(ctx, v, n_epochs=r.choice([1, 2, 3, 5]), max_sats=r.choice([2, 5, 9, 14]))
    ins = {i: junk_lines(r, m, i) for i in range(len(m.epochs) + 1) if r.random() < 0.4}
    if not ins:
        ins = {0: junk_lines(r, m, 0)}
    text = wl.obs_text(ctx, m, inserts=ins)
    src = ctx.write("site0010.10o", text)
    opts = {"fast": False} if v == 2 and r.random() < 0.5 else {}
    ds = wl.load(ctx, m, text, src, **opts)
    wl.check_obs(ctx, ds, m, f"load({opts}) with unparseable epoch lines", key="junk-values")
    ctx.n["junk_lines"] += sum(len(x) for x in ins.values())
    ctx.distinct(text)


def damage_epoch_line(r, v, ln):
    """-> (kind, line): the epoch line of real records made unreadable"""
    n = int(ln[29:32] if v == 2 else ln[32:35])
    a0, a1, cnt, flag = (1, 18, 29, 28) if v == 2 else (2, 29, 32, 31)
    kind = r.choice(["letter", "letter", "cut", "count", "date", "clock"] + (["sv", "svcut", "flag"] if v == 2 else []))
    if kind == "clock" and (v == 3 or 0 < n <= 12):
        at = 68 if v == 2 else 41
        return kind, f"{ln[:at]:{at}s}" + r.choice([" 0.00000x000", "************", "  ?", " 1.2.3", " 0,000000001", " 1e", "\x00" * 12, " -"])
    if kind == "clock":
        kind = "letter"
    if kind == "letter":  # in a digit of the date
        cols = [i for i in range(a0, a1) if ln[i].isdigit()]
        i = r.choice(cols)
        return kind, ln[:i] + r.choice("x*?O") + ln[i + 1:]
    if kind == "date":
        a, b, t = r.choice([(4, 6, "13"), (7, 9, "32"), (10, 12, "24"), (13, 15, "60"), (16, 18, "60")] if v == 2 else
                           [(7, 9, "13"), (10, 12, "32"), (13, 15, "24"), (16, 18, "60"), (19, 21, "60")])
        return kind, ln[:a] + t + ln[b:]
    if kind == "cut":
        return kind, ln[:r.randrange(2, cnt if v == 3 else 32)]
    if kind == "count":
        return kind, ln[:cnt] + r.choice(["  *", "***", " x1"]) + ln[cnt + 3:]
    if kind == "flag":
        return kind, ln[:flag] + "x" + ln[flag + 1:]
    k = min(n, 12)
    if k == 0:
        return "cut", ln[:20]
    i = 32 + 3 * r.randrange(k)
    if kind == "sv":
        return kind, ln[:i] + r.choice(["   ", "G**", "G  ", "???"]) + ln[i + 3:]
    return kind, ln[:i]


def c22_damaged(ctx: Ctx):
    """the epoch line of one or two epochs is unreadable: every other epoch is untouched"""
    r = ctx.rng
    v = r.choice([2, 3])
    m = wl.gen_pair(ctx, v, n_epochs=r.choice([1, 2, 3, 5]), max_sats=r.choice([2, 5, 9, 14, 26]))
    text = wl.obs_text(ctx, m)
    lines = text.split("\n")
    bad = set(r.sample(range(len(m.epochs)), min(len(m.epochs), r.choice([1, 1, 2]))))
    kinds = {}
    for i in bad:
        kinds[i], lines[m.marks[i]] = damage_epoch_line(r, v, lines[m.marks[i]].rstrip("\r"))
    t2 = "\n".join(lines)
    src = ctx.write("site0010.10o", t2)
    opts = {"fast": False} if v == 2 and r.random() < 0.6 else {}
    ds = wl.load(ctx, m, t2, src, **opts)
    truth = m.values()
    good = set(m.times) - {m.times[i] for i in bad}
    _check_cut(ctx, ds, m, truth, good, set(m.times), f"load({opts}) with unreadable epoch lines {kinds}")
    got = set(oracle.arr_us(ctx.must("gettime-raised", "gettime", gr.gettime, src)))
    if good - got:
        raise Violation("damaged-gettime", f"gettime lost {oracle.fmt_us(min(good - got))}, its line is intact ({kinds})")
    for k in kinds.values():
        ctx.n[f"damaged_{k}"] += 1
    ctx.distinct(t2)


# ---------------------------------------------------------------- C21

def submodel(m, k):
    q = copy.copy(m)
    if isinstance(m, gen.NavFile):
        q.recs = m.recs[:k]
    else:
        q.epochs = m.epochs[:k]
    return q


def c21_obs(ctx: Ctx):
    r = ctx.rng
    v = r.choice([2, 3])
    m = wl.gen_pair(ctx, v, n_epochs=r.choice([1, 2, 3]), max_sats=r.choice([2, 5, 13, 26]), n_types=r.choice([1, 4, 6, 11]))
    ind = r.random() < 0.3
    text = wl.obs_text(ctx, m, gen.rand_layout(r, m))
    lines = text.splitlines(keepends=True)
    truth = m.values()
    cuts = list(range(m.nheader, len(lines) + 1))
    if len(cuts) > 40:
        cuts = sorted(r.sample(cuts, 40))
    for cut in cuts:
        t = "".join(lines[:cut])
        if r.random() < 0.3:
            t = t.rstrip("\n")
        started = sum(1 for x in m.marks if x < cut)
        done = sum(1 for x in (m.marks[1:] + [m.nlines]) if x <= cut)
        q = submodel(m, max(started, 1))
        opts = {"fast": False} if v == 2 and r.random() < 0.5 else {}
        if ind:
            opts["useindicators"] = True
        src = io.StringIO(t) if r.random() < 0.5 else ctx.write("cut.10o", t)
        ds = wl.load(ctx, q, t, src, **opts)
        _check_cut(ctx, ds, m, truth, {m.times[i] for i in range(done)}, {m.times[i] for i in range(started)}, f"cut after line {cut} of {len(lines)} ({opts})")
        ctx.n["cuts"] += 1
        ctx.n["cuts_inside_epoch"] += started != done
        ctx.distinct(text, cut)
    ctx.sample = {"seed": ctx.seed, "v": v, "lines": len(lines), "cuts": len(cuts)}


def _check_cut(ctx, ds, m, truth, complete, started, what):
    got = {k: x for k, x in oracle.observe(ds).items() if not k[0].endswith(("lli", "ssi"))}
    ctx.n["values_compared"] += len(got)
    for k, x in got.items():
        if k not in truth or k[1] not in started:
            raise Violation("cut-invented", f"{what}: {k[0]} at {oracle.fmt_us(k[1])} {k[2]} = {x} is not in the file")
        if not oracle.close(truth[k], x):
            raise Violation("cut-wrong", f"{what}: {k[0]} at {oracle.fmt_us(k[1])} {k[2]} = {x}, written {truth[k]}")
    for k, x in truth.items():
        if k[1] in complete and k not in got:
            raise Violation("cut-lost", f"{what}: {k[0]} at {oracle.fmt_us(k[1])} {k[2]} was complete before the cut but is missing")
    bad = set(oracle.times_us(ds)) - started
    if bad:
        raise Violation("cut-epoch", f"{what}: epochs {[oracle.fmt_us(x) for x in bad]} invented")
    bad = set(oracle.svlist(ds)) - m.svs
    if bad:
        raise Violation("cut-sv", f"{what}: satellites {sorted(bad)} invented")


def c21_nav(ctx: Ctx):
    r = ctx.rng
    v = r.choice([2, 3, 3])
    m = gen.gen_nav(r, v, n_recs=r.choice([1, 2, 4]))
    text = wl.nav_text(ctx, m)
    lines = text.splitlines(keepends=True)
    for cut in range(m.nheader, len(lines) + 1):
        t = "".join(lines[:cut])
        if r.random() < 0.3:
            t = t.rstrip("\n")
        started = sum(1 for x in m.marks if x < cut)
        done = sum(1 for x in (m.marks[1:] + [m.nlines]) if x <= cut)
        what = f"cut after line {cut} of {len(lines)}"
        ctx.n["cuts"] += 1
        ctx.n["cuts_inside_record"] += started != done
        ctx.distinct(text, cut)
        try:
            ds = ctx.call(f"load({what})", gr.load, io.StringIO(t) if r.random() < 0.5 else ctx.write(wl.nav_name(m), t))
        except Crash as e:
            if isinstance(e.exc, (MemoryError, RecursionError, SystemExit, KeyboardInterrupt, AssertionError)):
                raise
            ctx.n["cuts_refused"] += 1
            continue
        must, blank, rows = wl.nav_events(submodel(m, done))
        may, blank2, rows2 = wl.nav_events(submodel(m, started))
        got = oracle.observe(ds) if "sv" in ds.dims and "time" in ds.dims else {}
        ctx.n["values_compared"] += len(got)
        for k, x in got.items():
            if k[0].startswith("spare"):
                continue
            if k in blank2 and v == 3 and x == 0.0:
                continue
            if k not in may:
                raise Violation("cut-invented", f"{what}: {k[0]} of {k[2]} at {oracle.fmt_us(k[1])} = {x} is not in the file")
            if not oracle.close(may[k], x):
                raise Violation("cut-wrong", f"{what}: {k[0]} of {k[2]} at {oracle.fmt_us(k[1])} = {x}, written {may[k]}")
        for k in must:
            if k not in got:
                raise Violation("cut-lost", f"{what}: {k[0]} of {k[2]} at {oracle.fmt_us(k[1])} was complete before the cut but is missing")
    ctx.sample = {"seed": ctx.seed, "v": v, "records": len(m.recs), "lines": len(lines)}


def c21_sp3(ctx: Ctx):
    from .sp3 import check_sp3, poisoned
    r = ctx.rng
    m = gen.gen_sp3(r, nsv=r.choice([1, 3, 18]), n_epochs=r.choice([1, 2, 3]))
    m.hdr["extras"] = False
    text = gen.render_sp3(m, r, gen.Layout(trim=r.choice(["trim", "pad"])))
    lines = text.splitlines(keepends=True)
    cuts = list(range(m.nheader + 1, len(lines) + 1))
    if len(cuts) > 40:
        cuts = sorted(r.sample(cuts, 40))
    for cut in cuts:
        t = "".join(lines[:cut])
        if r.random() < 0.3:
            t = t.rstrip("\n")
        done = [i for i in range(len(m.epochs)) if (m.marks[1:] + [m.nlines - 1])[i] <= cut]
        with poisoned():
            ds = ctx.must("cut-raised", f"load(cut after line {cut})", gr.load, ctx.write("cut.sp3", t))
        check_sp3(ctx, ds, m, f"cut after line {cut} of {len(lines)}", epochs=done, partial=True, key="cut")
        ctx.n["cuts"] += 1
        ctx.distinct(text, cut)


SPECS = {
    "C21": {"level": "fault_enumeration",
            "workloads": {"obs": (c21_obs, 100, 2000), "nav": (c21_nav, 120, 2400), "sp3": (c21_sp3, 50, 800)},
            "rule": "one case = one random file, cut after every line behind its header (at most 40 cuts drawn when it is longer), loaded after each cut; complete epochs must be exact, everything else as written or missing; distinct by (file text, cut)",
            "min_events": {"cuts": 3000, "cuts_inside_epoch": 500, "cuts_inside_record": 500},
            "assumptions": ["truncation happens at line ends", "text rendered by mon.gen follows the RINEX / SP3 column tables"]},
    "C22": {"workloads": {"events": (c22_events, 600, 14000), "junk": (c22_junk, 300, 6000), "damaged": (c22_damaged, 400, 8000)},
            "rule": "one case = one random OBS file with event records (flags 2-5, own times or blank, 0-13 special records incl. look-alikes of epochs) or unparseable epoch lines inserted at random places; the result must equal the model without them; distinct by text and options",
            "min_events": {"events_inserted": 1000, "junk_lines": 500, "files_with_power_failure_epoch": 50},
            "assumptions": ["text rendered by mon.gen follows the RINEX column tables", "special records do not redefine the observation types"]},
}
