"""Runner shared by all checks: case scheduling, verdicts, evidence, replays.

A check module (checks/cXX.py) defines

    ID, RULE, REQUIRED (counter -> minimum; below it the run is inconclusive),
    plan(tier, seed) -> list of (group, index),
    run_case(group, index, rng, mon).

Verdicts are three-valued: exit 1 + VIOLATION line, exit 0, or exit 2 (inconclusive: the
deciding monitor was not reached often enough, too many watchdog timeouts, worker died).
"""
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from pathlib import Path
import multiprocessing as mp

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))  # the override is for experiments in scratch copies only


class CaseTimeout(BaseException):
    """Watchdog. BaseException, so that it is not swallowed by code under test."""


class Runaway(BaseException):
    """Raised by the instrumented criterion if a run exceeds any justified budget."""


def setup_env(jit=False):
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        os.environ[k] = "1"
    if not jit:
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    os.environ.setdefault("PYTHONHASHSEED", "0")
    sys.dont_write_bytecode = True
    src = str(REPO / "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import tranquilo

    assert str(tranquilo.__file__).startswith(src), tranquilo.__file__


def jsonable(o):
    import numpy as np

    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        f = float(o)
        return f if f == f and abs(f) != float("inf") else repr(f)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if o is None or isinstance(o, (int, str, bool)):
        return o
    return repr(o)[:300]


class Monitor:
    """Collects what a case observed."""

    def __init__(self):
        self.counts = Counter()
        self.violations = []  # (key, message)
        self.sigs = set()
        self.samples = []

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def violate(self, key, msg):
        if len(self.violations) < 20:
            self.violations.append((key, str(msg)[:600]))
        self.counts["violating_observations"] += 1

    def expect(self, cond, key, msg=""):
        """One oracle evaluation."""
        self.counts["oracle:" + key] += 1
        if not cond:
            self.violate(key, msg() if callable(msg) else msg)
        return bool(cond)

    def sig(self, *s):
        """Signature of a non-trivial case (distinct ones are counted)."""
        self.sigs.add(repr(s))

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(jsonable(kw))


_CHECK = None
_SEED = 0
_CASE_TIMEOUT = 60


def _alarm(*_):
    raise CaseTimeout()


def case_rng(seed, group, idx):
    import numpy as np
    import zlib

    return np.random.default_rng([seed & 0xFFFFFFFF, zlib.crc32(str(group).encode()), int(idx)])


def run_one(group, idx):
    mon = Monitor()
    rng = case_rng(_SEED, group, idx)
    # CPU time of this process, so that a loaded machine cannot cause a verdict
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, _CASE_TIMEOUT)
    try:
        _CHECK.run_case(group, idx, rng, mon)
    except CaseTimeout:
        mon.counts["watchdog_timeouts"] += 1
        if getattr(_CHECK, "TIMEOUT_IS_VIOLATION", False):
            mon.violate("no_termination", f"no result after {_CASE_TIMEOUT} s of CPU time")
    except Runaway as e:
        mon.violate("runaway", f"run exceeded every justified amount of work: {e}")
    except Exception as e:
        where = _innermost_repo_frame(e)
        if where is None:
            mon.counts["harness_errors"] += 1
            mon.samples.append({"harness_error": traceback.format_exc()[-1500:]})
        else:
            mon.violate("exception:" + type(e).__name__ + "@" + where,
                        f"unexpected {type(e).__name__}: {e} at {where}")
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return mon


def _innermost_repo_frame(e):
    """The exception counts as the repository's if it came out of a repository frame."""
    frames = traceback.extract_tb(e.__traceback__)
    for fr in reversed(frames):
        if "/src/tranquilo/" in fr.filename:
            return f"{Path(fr.filename).name}:{fr.name}"
    return None


def _worker(chunk):
    return [((g, i), run_one(g, i)) for g, i in chunk]


def load_known():
    f = VERIF / "known_findings.json"
    return json.loads(f.read_text())["findings"] if f.exists() else []


def match_known(prop, key, known):
    for k in known:
        if k["property"] == prop and k["key"] == key:
            return k
    return None


def run_check(check, argv):
    global _CHECK, _SEED, _CASE_TIMEOUT
    _CHECK = check
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--replay":
            replay = next(it)
        else:
            raise SystemExit(f"unknown argument {a}")
    t0 = time.time()
    _CASE_TIMEOUT = getattr(check, "CASE_TIMEOUT", 60) * (1 if tier == "quick" else 4)

    if replay:
        r = json.loads(Path(replay).read_text())
        _SEED, tier = r["seed"], r["tier"]
        setattr(check, "TIER", tier)
        if hasattr(check, "prepare"):
            check.prepare(tier, _SEED)
        mon = run_one(r["group"], r["index"])
        for k, m in mon.violations:
            print(f"replayed {k}: {m}")
        print("counts", dict(mon.counts))
        bad = [k for k, _ in mon.violations if not match_known(check.ID, k, load_known())]
        if bad:
            print(f"VIOLATION property={check.ID} replay={replay}")
        return 1 if bad else 0

    _SEED = seed
    setattr(check, "TIER", tier)
    if hasattr(check, "prepare"):
        check.prepare(tier, seed)
    cases = list(check.plan(tier, seed))
    deadline = t0 + (getattr(check, "BUDGET", 300) if tier == "quick" else getattr(check, "BUDGET_THOROUGH", 780))
    total = Counter()
    sigs = set()
    samples = []
    viols = {}  # key -> (msg, group, idx)
    viol_n = Counter()
    notes = []
    done = 0
    timeouts = []

    def absorb(case, mon):
        nonlocal done
        done += 1
        total.update(mon.counts)
        sigs.update(mon.sigs)
        if mon.counts.get("harness_errors") and len(notes) < 3:
            notes.append((case, mon.samples[-1]))
        elif len(samples) < 6 and mon.samples:
            samples.extend(mon.samples[: 6 - len(samples)])
        if mon.counts.get("watchdog_timeouts"):
            timeouts.append(case)
        for k, m in mon.violations:
            viol_n[k] += 1
            if k not in viols or (str(case) < str((viols[k][1], viols[k][2]))):
                viols[k] = (m, *case)

    broken = None
    parent_groups = getattr(check, "PARENT_GROUPS", ())
    par = [c for c in cases if c[0] in parent_groups]
    cases_p = [c for c in cases if c[0] not in parent_groups]
    n_workers = int(os.environ.get("VERIF_WORKERS", getattr(check, "WORKERS", 8)))
    size = getattr(check, "CHUNK", max(1, min(16, len(cases_p) // (n_workers * 6) or 1)))
    chunks = [cases_p[i : i + size] for i in range(0, len(cases_p), size)]
    if chunks:
        ex = ProcessPoolExecutor(n_workers, mp_context=mp.get_context("fork"))
        try:
            pending = {ex.submit(_worker, c) for c in chunks}
            while pending:
                left = deadline - time.time()
                if left <= 0:
                    break
                fin, pending = wait(pending, timeout=left, return_when=FIRST_COMPLETED)
                for f in fin:
                    for case, mon in f.result():
                        absorb(case, mon)
                if len(timeouts) >= 4:
                    notes.append(("budget", "stopped after repeated watchdog timeouts"))
                    for f in pending:
                        f.cancel()
                    for p in list((ex._processes or {}).values()):
                        p.kill()
                    break
            if pending and not notes_has_budget(notes):
                notes.append(("budget", f"{len(pending)} chunks not run within the wall budget"))
                for f in pending:
                    f.cancel()
                for p in list((ex._processes or {}).values()):
                    p.kill()
        except Exception as e:  # BrokenProcessPool
            broken = repr(e)
        ex.shutdown(wait=broken is None and not notes_has_budget(notes), cancel_futures=True)
    for c in par:
        absorb(c, run_one(*c))

    known = load_known()
    known_hits, new = {}, {}
    for k, v in viols.items():
        kf = match_known(check.ID, k, known)
        (known_hits if kf else new)[k] = (v, kf)
    for k, (v, kf) in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={check.ID} {kf['what']}")
    # listed findings must be looked for on every run; those not observed are named too
    for kf in known:
        if kf["property"] == check.ID and kf["key"] not in known_hits:
            print(f"note: known finding not observed in this run: {kf['key']}")

    scale = 1.0
    missing = {k: (total.get(k, 0), m) for k, m in getattr(check, "REQUIRED", {}).items() if total.get(k, 0) < m * scale}
    evaluations = total.get("evaluations", done)
    coverage = {
        "evaluations": int(evaluations),
        "distinct_nontrivial": len(sigs),
        "rule": check.RULE,
        "samples": samples or [{"cases": done}],
        "cases_run": done,
        "cases_planned": len(cases),
        "monitor_counts": {k: int(v) for k, v in sorted(total.items())},
        "oracle_evaluations": int(sum(v for k, v in total.items() if k.startswith("oracle:"))),
        "known_findings_observed": sorted(known_hits),
        "watchdog_timeouts": [list(c) for c in timeouts[:20]],
    }
    wall = time.time() - t0
    ev = {
        "property": check.ID,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": int(sum(viol_n[k] for k in new)),
    }
    evd = VERIF / "evidence"
    evd.mkdir(exist_ok=True)
    (evd / f"{check.ID}.json").write_text(json.dumps(ev, indent=1))

    print(f"{check.ID} {tier} seed={seed}: {done}/{len(cases)} cases, {evaluations} evaluations, "
          f"{len(sigs)} distinct non-trivial, {coverage['oracle_evaluations']} oracle evaluations, {wall:.1f}s")
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(total.items()):
            print("   ", k, v)
    for n in notes:
        print("note:", n)

    if new:
        rd = evd / "replays"
        rd.mkdir(exist_ok=True)
        for j, (k, (v, _)) in enumerate(sorted(new.items())[:10]):
            path = rd / f"{check.ID}-{j}.json"
            path.write_text(json.dumps({"property": check.ID, "seed": seed, "tier": tier, "key": k,
                                        "group": v[1], "index": v[2], "message": v[0]}, indent=1))
            print(f"  {k} ({viol_n[k]} observations): {v[0]}")
            print(f"VIOLATION property={check.ID} replay={path}")
        return 1
    if broken:
        print("INCONCLUSIVE: worker died:", broken)
        return 2
    if total.get("harness_errors"):
        print(f"INCONCLUSIVE: {total['harness_errors']} harness errors")
        return 2
    if missing:
        print("INCONCLUSIVE: monitors not reached often enough (got, needed):", missing)
        return 2
    if len(timeouts) > 3:
        print(f"INCONCLUSIVE: {len(timeouts)} watchdog timeouts")
        return 2
    return 0


def notes_has_budget(notes):
    return any(n[0] == "budget" for n in notes)
