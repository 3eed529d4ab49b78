"""
Runner shared by all checks.

A check is a list of *workloads*; a workload is a function case(ctx) run a fixed number of times with a
case seed derived from VERIF_SEED.  It drives the real georinex through its public API, the monitors in
mon.oracle observe what comes back (datasets, exceptions, files, descriptors, audit events) and raise
Violation when the observation contradicts the property.

Verdicts are three-valued:  exit 0 held, exit 1 VIOLATION (with replay file), exit 2 inconclusive
(harness error, or the monitors never reached enough events).
"""
from __future__ import annotations
import functools
import hashlib
import json
import logging
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
REPLAYS = ROOT / "replays"
KNOWN = ROOT / "KNOWN_FINDINGS.txt"
CPU_LIMIT = 90.0
WALL_LIMIT = 240.0  # a wait (lock, pipe) that never ends
MAXVIOL = 6


class Violation(Exception):
    """the property does not hold for this case.  key names the mechanism, never the random values."""

    def __init__(self, key: str, msg: str):
        super().__init__(msg)
        self.key = key
        self.msg = msg


class Skip(Exception):
    """case outside the property's domain"""


class CpuTimeout(BaseException):
    pass


class Crash(Exception):
    """georinex raised; kept apart from errors of the harness itself"""

    def __init__(self, exc: BaseException, where: str):
        super().__init__(f"{where}: {type(exc).__name__}: {exc}")
        self.exc = exc


class Ctx:
    def __init__(self, seed: str, tier: str, workdir: Path, counters: Counter, pid: str = ""):
        self.pid = pid
        self.seed = seed
        self.rng = random.Random(seed)
        self.tier = tier
        self.base = workdir
        self._dir = None
        self.n = counters
        self.sigs: list[str] = []
        self.files: dict[str, bytes] = {}
        self.trace: list[str] = []
        self.sample = None

    @property
    def dir(self) -> Path:
        if self._dir is None:
            self._dir = Path(tempfile.mkdtemp(prefix="case", dir=self.base))
        return self._dir

    def cleanup(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    def write(self, name: str, text: str | bytes) -> Path:
        p = self.dir / name
        p.parent.mkdir(parents=True, exist_ok=True)
        b = text if isinstance(text, bytes) else text.encode("ascii")
        p.write_bytes(b)
        self.files[name] = b
        return p

    def call(self, what: str, fn, *a, **k):
        """call into georinex; any exception becomes Crash"""
        self.n["api_calls"] += 1
        self.trace.append(what)
        try:
            return fn(*a, **k)
        except (CpuTimeout, KeyboardInterrupt):
            raise
        except BaseException as e:  # noqa: BLE001  (SystemExit from the library counts too)
            raise Crash(e, what) from e

    def must(self, key: str, what: str, fn, *a, **k):
        """call that has to succeed"""
        try:
            return self.call(what, fn, *a, **k)
        except Crash as e:
            tb = "".join(traceback.format_exception(e.exc)[-3:])
            raise Violation(key, f"{what} raised {type(e.exc).__name__}: {e.exc}\n{tb}") from e

    def distinct(self, *parts):
        """record one distinct non-trivial case"""
        h = hashlib.sha1()
        for p in parts:
            h.update(p if isinstance(p, bytes) else repr(p).encode())
        self.sigs.append(h.hexdigest()[:16])

    def finding(self, key: str, msg: str):
        """the observation is exactly the recorded defect `key`: reported, and a violation only if not listed"""
        if (self.pid, key) in load_known():
            self.n["known_finding_" + key] += 1
            return
        raise Violation(key, msg)

    def require(self, cond, key, msg):
        self.n["assertions"] += 1
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)


def _alarm(signum, frame):
    raise CpuTimeout()


ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-12>12"]


def _ambient(seed: str):
    """nothing georinex does may depend on the time zone of the process: GNSS times are not local times"""
    os.environ["TZ"] = ZONES[hashlib.sha1(seed.encode()).digest()[0] % len(ZONES)]
    time.tzset()


def run_case(fn, seed: str, tier: str, workdir: Path, counters: Counter, pid: str = ""):
    """-> (status, payload, ctx)"""
    ctx = Ctx(seed, tier, workdir, counters, pid)
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    counters["evaluations"] += 1
    _ambient(seed)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(ctx)
        return "ok", None, ctx
    except Skip:
        counters["skipped"] += 1
        return "skip", None, ctx
    except Violation as v:
        return "viol", (v.key, v.msg), ctx
    except Crash as e:
        tb = "".join(traceback.format_exception(e.exc)[-4:])
        return "viol", ("raised-" + type(e.exc).__name__, f"{e}\n{tb}"), ctx
    except CpuTimeout:
        return "viol", ("hang", f"no result within {CPU_LIMIT:.0f} s of CPU time or {WALL_LIMIT:.0f} s of waiting; last call: {ctx.trace[-1:]}"), ctx
    except (KeyError, AttributeError, TypeError, IndexError, ValueError):
        if ctx.trace:  # the oracle cannot read what georinex returned: not the documented shape
            return "viol", ("uninterpretable", f"what {ctx.trace[-1]} gave cannot be interpreted:\n{traceback.format_exc()}"), ctx
        return "error", traceback.format_exc(), ctx
    except Exception:
        return "error", traceback.format_exc(), ctx
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.cleanup()


def _worker(wid, nworkers, plan, pid, vseed, tier, conn, stop, tmp):
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 0)
    logging.disable(logging.CRITICAL)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    wdir = Path(tempfile.mkdtemp(prefix=f"w{wid}_", dir=tmp))
    counters: Counter = Counter()
    sigs: set = set()
    viols, errors, samples = [], [], []
    for wl, fn, count in plan:
        for i in range(wid, count, nworkers):
            if stop.value >= MAXVIOL:
                break
            seed = f"{vseed}:{pid}:{wl}:{i}"
            status, payload, ctx = run_case(fn, seed, tier, wdir, counters, pid)
            counters[f"cases_{wl}"] += 1
            if status == "viol":
                stop.value += 1
                viols.append((wl, seed, payload, {k: v for k, v in ctx.files.items()}, ctx.trace[-20:]))
            elif status == "error":
                stop.value += 1
                errors.append((wl, seed, payload))
            else:
                sigs.update(ctx.sigs)
                if ctx.sample is not None and len(samples) < 2:
                    samples.append(ctx.sample)
    shutil.rmtree(wdir, ignore_errors=True)
    conn.send((dict(counters), list(sigs), viols, errors, samples))
    conn.close()
    os._exit(0)


@functools.cache
def load_known() -> dict:
    """(property, key) -> text"""
    out = {}
    if KNOWN.is_file():
        for ln in KNOWN.read_text().splitlines():
            if ln.startswith("KNOWN-FINDING:"):
                kv = dict(x.split("=", 1) for x in ln.split() if "=" in x)
                out[(kv["property"], kv["key"])] = ln
    return out


QUICK = {  # quick counts are the base counts times this: about half a minute on eight cores
    "C01": 2, "C02": 2.5, "C03": 1.5, "C04": 5, "C05": 2.5, "C06": 8, "C07": 3, "C08": 1.5, "C09": 2, "C10": 2.5, "C11": 1.2, "C12": 1.5,
    "C14": 2.5, "C15": 3, "C16": 1.4, "C17": 4, "C18": 1.5, "C19": 3, "C20": 8, "C21": 1.2, "C22": 2.5, "C23": 1.5, "C24": 4, "C25": 1.4,
    "C27": 1.6, "C28": 4, "C29": 1.2, "C31": 2, "C32": 2}


def run_check(pid: str, spec: dict, tier: str, seed: int, workers=None, scale: float = 1.0) -> int:
    """spec: {'workloads': {name: (fn, quick_n, thorough_n)}, 'rule': str, 'assumptions': [...], 'level': str,
    'min_events': {counter: minimum}}"""
    t0 = time.time()
    nworkers = workers or spec.get("workers") or min(8, os.cpu_count() or 1)
    plan = []
    for name, (fn, q, t) in spec["workloads"].items():
        n = int((q * QUICK.get(pid, 1) if tier == "quick" else t) * scale)
        plan.append((name, fn, max(n, 1)))
    tmp = Path(tempfile.mkdtemp(prefix=f"verif_{pid}_"))
    ctxm = mp.get_context("fork")
    stop = ctxm.Value("i", 0)
    procs = []
    for w in range(nworkers):
        a, b = ctxm.Pipe(duplex=False)
        p = ctxm.Process(target=_worker, args=(w, nworkers, plan, pid, seed, tier, b, stop, str(tmp)))
        p.start()
        b.close()
        procs.append((p, a))
    counters: Counter = Counter()
    sigs: set = set()
    viols, errors, samples = [], [], []
    for p, a in procs:
        try:
            c, s, v, e, sm = a.recv()
            counters.update(c)
            sigs.update(s)
            viols += v
            errors += e
            samples += sm
        except EOFError:
            p.join()
            errors.append(("worker", "-", f"worker ended without reporting, exit {p.exitcode}"))
        p.join()
    shutil.rmtree(tmp, ignore_errors=True)
    known = load_known()
    new = viols
    hit = {k[len("known_finding_"):] for k in counters if k.startswith("known_finding_")}
    rc = 0
    lines = []
    for (p_, k_), ln in known.items():
        if p_ == pid:
            lines.append(ln)
    missing = {k: (counters.get(k, 0), m) for k, m in spec.get("min_events", {}).items() if counters.get(k, 0) < 0.4 * m * min(1.0, scale)}
    if new:
        rc = 1
        REPLAYS.mkdir(exist_ok=True)
        for i, (wl, cseed, (key, msg), files, trace) in enumerate(new[:3]):
            h = hashlib.sha1((cseed + tier).encode()).hexdigest()[:10]
            rp = REPLAYS / f"{pid}-{h}.json"
            rp.write_text(json.dumps({
                "property": pid, "workload": wl, "case_seed": cseed, "tier": tier, "key": key, "message": msg, "calls": trace,
                "files": {k: v[:200000].decode("latin-1") for k, v in files.items()},
                "replay_cmd": f"./run {pid} --replay {rp}"}, indent=1))
            lines.append(f"VIOLATION property={pid} replay={rp}")
            lines.append(f"  [{key}] {msg.strip()[:1500]}")
    elif errors:
        rc = 2
        lines += [f"INCONCLUSIVE harness error in {wl} seed {s}\n{e}" for wl, s, e in errors[:3]]
    elif missing:
        rc = 2
        lines.append(f"INCONCLUSIVE property={pid}: monitors observed too little {missing}")
    if errors and rc == 1:
        lines += [f"note: harness error in {wl} seed {s}\n{e}" for wl, s, e in errors[:1]]
    wall = time.time() - t0
    if not samples:
        samples = [{"note": "no sample recorded"}]
    cov = {
        "evaluations": counters.pop("evaluations", 0),
        "distinct_nontrivial": len(sigs),
        "rule": spec["rule"],
        "samples": samples[:3],
        "observed": {k: counters[k] for k in sorted(counters)},
        "workers": nworkers,
        "known_findings_hit": sorted(hit),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(new)}
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    for ln in lines:
        print(ln)
    print(f"{pid} {tier} seed={seed} rc={rc} evaluations={cov['evaluations']} distinct={cov['distinct_nontrivial']} "
          f"violations={len(new)} errors={len(errors)} wall={wall:.1f}s", flush=True)
    return rc
