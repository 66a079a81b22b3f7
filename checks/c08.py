import numpy as np

from vk import gen, trace

ID = "C08"
RULE = ("random runs with injected failures: exceptions of several types, NaN, +-infinite values, single bad residuals; "
        "at random, by point, by region, whole batches or everything after the start; through the recording evaluator "
        "(shuffled) and the real joblib evaluator; non-trivial: at least one failing evaluation")
REQUIRED = {"failed_evaluations": 1500, "partly_failed_batches": 100, "fully_failed_batches": 100, "finite_beside_failed": 200,
            "infinite_candidates_rejected": 50, "runs": 200, "joblib_runs": 15, "element_failures": 100}
ASSUMPTIONS = ["all evaluations at the start point succeed", "evaluations raise Exception subclasses"]
CASE_TIMEOUT = 60
TIMEOUT_IS_VIOLATION = True
KINDS = ("exc", "nan", "elboth", "elboth", "inf", "ninf", "elnan", "elinf", "mix", "all_exc", "exc_x", "nan_x", "inf_x", "elinf_x",
         "exc_reg", "nan_reg", "inf_reg")


def plan(tier, seed):
    k = 1 if tier == "quick" else 12
    return [("fault", i) for i in range(390 * k)] + [("joblib", i) for i in range(30 * k)]


def run_case(group, idx, rng, mon):
    kind = KINDS[idx % len(KINDS)]
    rate = float(gen.pick(rng, 0.05, 0.3, 0.6, 0.95))
    if kind == "all_exc":
        rate = int(rng.integers(0, 12))
    if kind.endswith("_reg"):
        rate = float(gen.pick(rng, -0.5, 0.0, 0.05, 0.5))
    cfg = gen.make_config(rng, fail=(kind, rate), n_max=4)
    if kind == "all_exc":
        cfg["problem"]["n_safe"] = max(cfg["problem"]["n_safe"], rate)
    if rng.random() < 0.15:
        cfg["problem"]["as_list"] = True
    ft, o = cfg["functype"], cfg["options"]
    d = lambda: gen.describe(cfg)
    if group == "joblib":
        # the evaluator that ships with the package; single core, so that the closure is observed
        t = trace.Trace(cfg)
        rec = trace.Recorder(t, gen.Problem(cfg), cap=trace.default_cap(cfg))
        t.res = trace.call(cfg, rec.criterion, "joblib")
        mon.count("joblib_runs")
        pairs = [(x, v) for x, v in t.evals]
    else:
        t = trace.run_plain(cfg, order=("forward", "random")[idx % 2], order_rng=np.random.default_rng(idx))
        pairs = [(a, v) for b in t.batches for a, v in zip(b["args"], b["raw"])]
        for b in t.batches:
            bad = [is_bad(v) for v in b["raw"]]
            if all(bad):
                mon.count("fully_failed_batches")
            elif any(bad):
                mon.count("partly_failed_batches")
                mon.count("finite_beside_failed", sum(not q for q in bad))
    msg = t.res["message"]
    st = t.states
    n_fun = len(t.evals)
    regular = (msg is None and len(st) - 1 == o["stopping_max_iterations"]) or (msg is not None and (
        msg == "Maximum number of criterion evaluations reached." and n_fun >= o["stopping_max_criterion_evaluations"]
        or "smaller than tolerance" in msg and not o.get("disable_convergence")))
    mon.expect(regular, "regular_end", lambda: f"ended with {msg} after {n_fun} evaluations, {len(st) - 1} iterations; {d()}")
    # recorded values
    h = t.history
    m = trace.n_resid(t)
    want = {}
    for a, v in pairs:
        want.setdefault(a.tobytes(), []).append(trace.recorded_value(v, m))
        if v is not None and ft != "scalar" and not np.all(np.isfinite(np.asarray(v, float))) and np.any(np.isfinite(np.asarray(v, float))):
            mon.count("element_failures")
        mon.count("failed_evaluations", is_bad(v))
    nx = h.get_n_xs()
    xs = h.get_xs()
    got = {}
    fv = h.get_fvecs(np.arange(nx))
    fs = h.get_fvals(np.arange(nx))
    for i in range(nx):
        mon.expect(np.asarray(fv[i]).ndim == 2 and np.asarray(fv[i]).shape[1] == m, "shape",
                   lambda: f"recorded with shape {np.shape(fv[i])}, regular evaluations have {m} entries; {d()}")
        mon.expect(not np.isnan(fv[i]).any() and not np.isnan(fs[i]).any(), "nan_recorded", lambda: f"NaN recorded; {d()}")
        got.setdefault(xs[i].tobytes(), []).extend(np.asarray(fv[i]).tolist())
    mon.expect(set(got) == set(want), "points")
    for k, w in want.items():
        g = got.get(k, [])
        mon.expect(sorted(map(tuple, g)) == sorted(map(tuple, np.asarray(w).tolist())), "recorded",
                   lambda: f"at {np.frombuffer(k)}: recorded {g}, observed {[q.tolist() for q in w]}; {d()}")
    # decisions
    for k in range(1, len(st)):
        s, prev = st[k], st[k - 1]
        mon.expect(not (np.isfinite(prev.fval) and not np.isfinite(s.fval)), "infinite_accepted",
                   lambda: f"iteration {k}: {prev.fval} -> {s.fval}; {d()}")
        if s.rho == -np.inf and int(s.candidate_index) == int(prev.index) and not s.accepted:
            mon.count("infinite_candidates_rejected")
        mon.expect(np.all(np.isfinite(s.model.linear_terms)) and np.isfinite(s.model.intercept), "finite_model",
                   lambda: f"surrogate model of iteration {k} is not finite; {d()}")
    mon.expect(np.isfinite(t.res["solution_criterion"]) and np.isfinite(t.res["solution_x"]).all(), "finite_solution")
    mon.count("runs")
    if any(is_bad(v) for _, v in pairs):
        mon.sig(gen.signature(cfg))
    mon.sample(config=d(), message=msg, evaluations=n_fun, failed=int(sum(is_bad(v) for _, v in pairs)))


def is_bad(v):
    return v is None or not bool(np.all(np.isfinite(np.asarray(v, float))))
