import os
import tempfile
import threading
import time
from collections import Counter, defaultdict
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from checks.c07 import digest, differs
from vk import gen, trace

ID = "C18"
RULE = ("(a) recording batch evaluators on runs with random options, batch sizes and core counts (all criterion calls, cores, batch sizes by role); "
        "(b) pairs of runs whose evaluators execute a batch in forward, reverse, random order or in concurrent threads with random delays; "
        "(c) real joblib process pools against serial runs; non-trivial: at least two batches with more than one evaluation; distinct by configuration and evaluator")
REQUIRED = {"batches": 1500, "large_batches": 30, "multi_batches": 400, "model_batches": 150, "line_search_batches": 60, "start_batches": 60, "order_pairs": 80, "thread_pairs": 20,
            "concurrent_calls": 50, "pool_runs": 5, "pool_processes": 5, "attributed_points": 5000, "failures_in_permuted_batch": 10, "fewer_evals_than_cores": 30}
ASSUMPTIONS = ["in the order comparison the criterion is a function of the point only (with failures determined by the point)",
               "pathos is not installed; joblib is the only real pool",
               "stagnation steps and re-evaluations in noisy mode are not free to choose their size"]
CASE_TIMEOUT = 90
CHUNK = 4


def plan(tier, seed):
    k = 1 if tier == "quick" else 14
    return [("pool", i) for i in range(8 * min(k, 6))] + [("roles", i) for i in range(160 * k)] + [("order", i) for i in range(120 * k)] + [("threads", i) for i in range(28 * k)]


def run_case(group, idx, rng, mon):
    return globals()[group](idx, rng, mon)


def with_cores(rng, cfg):
    bs = cfg["options"].get("batch_size")
    if bs is None:
        if rng.random() < 0.6:
            cfg["options"]["n_cores"] = int(rng.integers(1, 6))
    else:
        cfg["options"]["n_cores"] = int(rng.integers(1, bs + 1))
    o = cfg["options"]
    return o.get("n_cores", 1), o.get("batch_size") or o.get("n_cores", 1)


# ------------------------------------------------------------------------------ oracles
def boundary(t, n_cores, mon, d):
    """Everything that can be seen from outside."""
    inside = sum(b["n"] for b in t.batches)
    mon.expect(inside == len(t.evals), "only_through_evaluator", lambda: f"{len(t.evals)} calls, {inside} in batches; {d()}")
    for b in t.batches:
        mon.count("batches")
        mon.count("multi_batches", b["n"] > 1)
        mon.count("fewer_evals_than_cores", b["n"] < n_cores)
        mon.expect(b["n"] >= 1, "empty_batch", d)
        mon.expect(b["n_cores"] == min(n_cores, b["n"]), "cores", lambda: f"batch of {b['n']} with {b['n_cores']} cores, requested {n_cores}; {d()}")
        mon.expect(b["error_handling"] == "continue", "error_handling", d)
    attribution(t, mon, d)


def attribution(t, mon, d):
    h = t.history
    m = trace.n_resid(t)
    want = defaultdict(list)
    for b in t.batches:
        if b["raw"] is None:
            continue
        for a, r in zip(b["args"], b["raw"]):
            want[a.tobytes()].append(trace.recorded_value(r, m))
    got = defaultdict(list)
    n = h.get_n_xs()
    xs = h.get_xs(np.arange(n))
    fv = h.get_fvecs(np.arange(n))
    for i in range(n):
        for v in np.asarray(fv[i]).reshape(-1, m):
            got[np.ascontiguousarray(xs[i]).tobytes()].append(v)
    key = lambda L: sorted(tuple(map(float, v)) for v in L)
    got = {k: v for k, v in got.items() if len(v)}
    ok = set(want) == set(got) and all(key(want[k]) == key(got[k]) for k in want)
    mon.count("attributed_points", len(want))
    mon.expect(ok, "attribution", lambda: f"{[(np.frombuffer(k), key(want[k]), key(got.get(k, []))) for k in want if k not in got or key(want[k]) != key(got[k])][:2]}; {d()}")


def roles(idx, rng, mon):
    """Batches by role: start, model points, acceptance."""
    kw = {}
    line = idx % 3 == 0
    if line:
        kw = dict(noisy=False)
    cfg = gen.make_config(rng, **kw)
    if line:
        cfg["options"]["acceptance_decider"] = "classic_line_search"
        cfg["options"]["batch_size"] = int(rng.integers(2, 9))
    if idx % 4 == 1 or (line and idx % 4 == 3):
        mon.count("large_batches")
        cfg["options"]["batch_size"] = int(rng.integers(9, 33))
    n_cores, bs = with_cores(rng, cfg)
    o = cfg["options"]
    if rng.random() < 0.3:
        o["n_evals_at_start"] = int(rng.integers(1, 8))
    t = trace.run_traced(cfg, only=("sampler", "sample_filter", "acceptance_decider"))
    d = lambda: gen.describe(cfg)
    boundary(t, n_cores, mon, d)
    # start
    ns = o.get("n_evals_at_start") or (5 if o.get("noisy") else 1)
    want = 1 if ns == 1 else -(-ns // bs) * bs
    mon.count("start_batches")
    mon.expect(t.batches[0]["n"] == want, "start_batch", lambda: f"{t.batches[0]['n']} instead of {want}; {d()}")
    for it in t.iterations():
        f = it[0][1]
        phase, first = "model", True
        for j, (k, ev) in enumerate(it[1:], 1):
            if k == "accept":
                phase, acc = "accept", ev
                n_batch = 0
            if k == "sample" and phase == "model" and first:
                first = False
                missing = max(0, f["target_size"] - len(f["out_indices"]))
                nn = len(ev["xs"])
                mon.expect(nn == -(-missing // bs) * bs, "model_points_multiple",
                           lambda: f"{nn} new points, {missing} missing, batch size {bs}; {d()}")
                nxt = it[j + 1][1] if j + 1 < len(it) and it[j + 1][0] == "batch" else None
                if nn > 0:
                    mon.count("model_batches")
                    if nxt is None:
                        mon.violate("model_points_not_evaluated", d())
                    elif not o.get("noisy"):
                        per = o.get("n_evals_per_point") or 1
                        mon.expect(nxt["n"] % bs == 0 or per != 1, "model_batch_multiple", lambda: f"batch of {nxt['n']}, batch size {bs}; {d()}")
            if k == "batch" and phase == "accept":
                n_batch += 1
                mon.expect(n_batch == 1, "one_acceptance_batch", d)
                if acc["name"] == "classic_line_search" and bs > 1:
                    mon.count("line_search_batches")
                    mon.expect(ev["n"] == bs, "acceptance_batch_full", lambda: f"{ev['n']} evaluations, batch size {bs}; {d()}")
    if sum(b["n"] > 1 for b in t.batches) > 1:
        mon.sig("roles", gen.signature(cfg), n_cores)
    mon.sample(config=gen.describe(cfg), batch_sizes=[b["n"] for b in t.batches][:20])


def pointwise(rng, **kw):
    """A configuration whose criterion is a function of the point only."""
    if rng.random() < 0.4:
        kw["fail"] = (gen.pick(rng, "exc_x", "elinf_x", "nan_x", "inf_x"), 0.2)
    cfg = gen.make_config(rng, noise=0.0, **kw)
    cfg["problem"]["n_safe"] = 1
    if cfg["options"].get("batch_size") is None:
        cfg["options"]["batch_size"] = int(rng.integers(2, 7))
    return cfg


def pure(cfg):
    """Failures by point, but never at the start point (whatever the order)."""
    p = gen.Problem(cfg)
    x0 = np.asarray(cfg["x0"], float)
    lock = threading.Lock()

    def f(x):
        x = np.array(x, float)
        with lock:
            p.calls = 0 if np.array_equal(x, x0) else 7  # the exception type must not depend on the order
            return p(x)

    return f


def compare(t1, t2, mon, key, d):
    a, b = digest(t1), digest(t2)
    a.pop("xs"), b.pop("xs")
    df = differs(a, b)
    if df is None:
        df = next((f"batch {i}" for i, (p, q) in enumerate(zip(t1.batches, t2.batches)) if not np.array_equal(p["args"], q["args"])), None)
    if df is None and not np.array_equal(t1.history.get_xs(np.arange(t1.history.get_n_xs())), t2.history.get_xs(np.arange(t2.history.get_n_xs()))):
        df = "history points"
    mon.expect(df is None, key, lambda: f"{df}; {d()}")


def order(idx, rng, mon):
    cfg = pointwise(rng)
    n_cores, bs = with_cores(rng, cfg)
    d = lambda: gen.describe(cfg)
    t1 = trace.run_plain(cfg, fun=pure(cfg))
    mode = ("reverse", "random")[idx % 2]
    t2 = trace.run_plain(cfg, fun=pure(cfg), order=mode, order_rng=np.random.default_rng(int(rng.integers(2**31))))
    boundary(t1, n_cores, mon, d)
    boundary(t2, n_cores, mon, d)
    compare(t1, t2, mon, "order_matters", d)
    mon.count("order_pairs")
    mon.count("failures_in_permuted_batch", any(b["n"] > 1 and any(r is None or not np.isfinite(r).all() for r in b["raw"]) for b in t2.batches))
    if sum(b["n"] > 1 for b in t2.batches) > 1:
        mon.sig(mode, gen.signature(cfg), n_cores, tuple(map(tuple, (b["order"] for b in t2.batches)))[:6])


class Threads:
    """Evaluates with n_cores threads and random delays; observes the concurrency."""

    def __init__(self, fun, seed):
        self.fun, self.rng = fun, np.random.default_rng(seed)
        self.lock = threading.Lock()
        self.now, self.peaks, self.finish, self.calls, self.outside, self.batches = 0, [], [], 0, 0, []
        self.open = False

    def criterion(self, x):
        with self.lock:
            self.calls += 1
            self.outside += not self.open
            delay = float(self.rng.uniform(0, 0.002))
            self.now += 1
            self.peaks[-1] = max(self.peaks[-1], self.now)
        try:
            time.sleep(delay)
            return self.fun(x)
        finally:
            with self.lock:
                self.now -= 1

    def evaluator(self, func, arguments, n_cores=1, error_handling="continue", **kw):
        self.open = True
        self.peaks.append(0)
        done = []

        def one(i_a):
            i, a = i_a
            try:
                r = func(a)
            except Exception as e:
                r = f"Traceback: {e!r}"
            done.append(i)
            return r

        with ThreadPoolExecutor(n_cores) as ex:
            out = list(ex.map(one, enumerate(arguments)))
        self.batches.append((n_cores, len(arguments)))
        self.finish.append(tuple(done))
        self.open = False
        return out


def threads(idx, rng, mon):
    cfg = pointwise(rng, maxfun=60, maxiter=8)
    o = cfg["options"]
    o["n_cores"] = n_cores = int(rng.integers(2, 7))
    o["batch_size"] = n_cores + int(rng.integers(0, 3))
    d = lambda: gen.describe(cfg)
    t1 = trace.run_plain(cfg, fun=pure(cfg))
    th = Threads(pure(cfg), int(rng.integers(2**31)))
    res = trace.call(cfg, th.criterion, th.evaluator)
    mon.expect(th.outside == 0, "only_through_evaluator", d)
    for (c, n), peak in zip(th.batches, th.peaks):
        mon.expect(c == min(n, n_cores) and peak <= n_cores, "cores", lambda: f"{c} cores, {n} evaluations, peak {peak}; {d()}")
        mon.count("concurrent_calls", peak > 1)
        mon.count("max_concurrency_seen", peak)
    t2 = trace.Trace(cfg)
    t2.res, t2.batches = res, t1.batches
    compare(t1, t2, mon, "threads_matter", d)
    mon.expect(th.calls == len(t1.evals), "threads_matter", lambda: f"{th.calls} calls instead of {len(t1.evals)}; {d()}")
    mon.count("thread_pairs")
    for f in th.finish:
        if f != tuple(range(len(f))):
            mon.sig("interleaving", f)
            mon.count("out_of_order_batches")


class LoggingCriterion:
    """Picklable; records the process of every call in a file."""

    def __init__(self, cfg, path):
        self.cfg, self.path = cfg, path
        self.p = None

    def __call__(self, x):
        if self.p is None:
            self.p = pure_nolock(self.cfg)
        x = np.array(x, float)
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, f"{os.getpid()} {x.tobytes().hex()}\n".encode())
        os.close(fd)
        return self.p(x)


def pure_nolock(cfg):
    p = gen.Problem(cfg)
    x0 = np.asarray(cfg["x0"], float)

    def f(x):
        p.calls = 0 if np.array_equal(x, x0) else 7
        return p(x)

    return f


def pool(idx, rng, mon):
    cfg = pointwise(rng, maxfun=60, maxiter=5, kind=gen.pick(rng, "q", "nl"), noisy=False)
    o = cfg["options"]
    o["n_cores"] = n_cores = int(rng.integers(2, 5))
    o["batch_size"] = n_cores + int(rng.integers(0, 3))
    d = lambda: gen.describe(cfg)
    t1 = trace.run_plain(cfg, fun=pure(cfg))
    fd, path = tempfile.mkstemp(prefix="c18-")
    os.close(fd)
    os.environ["PYTHONWARNINGS"] = "ignore"
    try:
        res = trace.call(cfg, LoggingCriterion(cfg, path), "joblib")
        lines = open(path).read().split("\n")[:-1]
    finally:
        os.unlink(path)
        from joblib.externals.loky import get_reusable_executor

        get_reusable_executor().shutdown(wait=True, kill_workers=True)
    t2 = trace.Trace(cfg)
    t2.res, t2.batches = res, t1.batches
    compare(t1, t2, mon, "pool_matters", d)
    pids = Counter(q.split()[0] for q in lines)
    here = str(os.getpid())
    mon.count("pool_runs")
    mon.count("pool_processes", len(pids))
    mon.count("calls_in_parent_process", pids.get(here, 0))
    mon.expect(Counter(q.split()[1] for q in lines) == Counter(x.tobytes().hex() for x, _ in t1.evals), "pool_evaluations",
               lambda: f"{len(lines)} calls instead of {len(t1.evals)}; {d()}")
    mon.sig("pool", gen.signature(cfg), n_cores, len(pids))
