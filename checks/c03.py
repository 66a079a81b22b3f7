import numpy as np

from vk import gen, trace
from vk.trace import close

ID = "C03"
RULE = ("random optimization runs (all functypes, noise, failures, batches, acceptance rules); after each run every "
        "state record is reconciled with the independently recorded evaluations; non-trivial: at least one accepted "
        "step after the start")
REQUIRED = {"states": 2000, "accepted": 300, "noisy_accepted": 50, "line_search_accepted": 20, "runs": 150}
ASSUMPTIONS = ["the criterion value at the start is finite"]
CASE_TIMEOUT = 60
TIMEOUT_IS_VIOLATION = True


def plan(tier, seed):
    k = 1 if tier == "quick" else 12
    return ([("any", i) for i in range(250 * k)] + [("noisy", i) for i in range(110 * k)]
            + [("linesearch", i) for i in range(80 * k)] + [("faults", i) for i in range(80 * k)])


def is_average(value, seq, ft):
    """value is the mean of consecutive evaluations starting with the first one."""
    if not len(seq):
        return False
    means = np.cumsum(seq) / np.arange(1, len(seq) + 1)
    tol = 1e-11 * np.maximum.accumulate(np.abs(seq)) + 1e-300
    return bool(np.any((means == value) | (np.abs(means - value) <= tol)))


def run_case(group, idx, rng, mon):
    kw = {}
    if group == "noisy":
        kw = dict(noisy=True)
    if group == "linesearch":
        kw = dict(noisy=False, acceptance_decider="classic_line_search", batch_size=int(rng.integers(2, 8)),
                  kind=gen.pick(rng, "q", "nl", "rosen", "neg"))
    if group == "faults":
        kw = dict(fail=(gen.pick(rng, "mix", "exc", "elinf", "inf_reg"), float(gen.pick(rng, 0.2, 0.5))))
    cfg = gen.make_config(rng, **kw)
    t = trace.run_plain(cfg, order=("forward", "random")[idx % 2], order_rng=np.random.default_rng(idx))
    ft, o = cfg["functype"], cfg["options"]
    m = trace.n_resid(t)
    vals = {}
    for b in t.batches:
        for a, raw in zip(b["args"], b["raw"]):
            vals.setdefault(a.tobytes(), []).append(trace.aggregate(ft, trace.recorded_value(raw, m)))
    n_start = t.batches[0]["n"]
    h = t.history
    n_xs = h.get_n_xs()
    xs = h.get_xs()
    noisy = o["noisy"]

    def observed(x, f, what):
        x = np.asarray(x, float)
        seq = vals.get(x.tobytes())
        if not mon.expect(seq is not None, what + "_point_evaluated", lambda: f"{what} {x} was never evaluated: {gen.describe(cfg)}"):
            return
        if noisy or len(seq) > 1 or o.get("n_evals_at_start", 1) > 1:
            # evaluations of one point can be split over several records of the same point
            ok = is_average(f, seq, ft) or any(is_average(f, h.get_fvals(i), ft) for i in range(n_xs) if xs[i].tobytes() == x.tobytes())
        else:
            ok = close(f, seq[0], rtol=1e-12)
        mon.expect(ok, what + "_value", lambda: f"{what}: value {f} is not what was observed there ({seq[:8]}): {gen.describe(cfg)}")

    st = t.states
    mon.expect(np.array_equal(t.evals[0][0], cfg["x0"]) and np.array_equal(st[0].x, cfg["x0"]) and int(st[0].index) == 0,
               "first_is_start", "first record is not the start point")
    mon.expect(st[0].accepted in (True, np.True_) and np.array_equal(st[0].candidate_x, cfg["x0"])
               and int(st[0].candidate_index) == 0, "first_candidate")
    mon.expect(is_average(st[0].fval, vals[st[0].x.tobytes()][:n_start], ft), "first_value")
    for k, s in enumerate(st):
        mon.count("states")
        i, c = int(s.index), int(s.candidate_index)
        ok = mon.expect(0 <= i < n_xs and np.array_equal(xs[i], s.x), "index_x",
                        lambda: f"state {k}: x is not the point with its index {i}: {gen.describe(cfg)}")
        mon.expect(0 <= c < n_xs and np.array_equal(xs[c], s.candidate_x), "candidate_index_x",
                   lambda: f"state {k}: candidate_x is not the point with its index {c}: {gen.describe(cfg)}")
        if ok:
            f = np.asarray(h.get_fvals(i))
            mon.expect(is_average(s.fval, f, ft), "index_value",
                       lambda: f"state {k}: fval {s.fval} is no average of evaluations {f[:8]} at its index: {gen.describe(cfg)}")
        observed(s.x, s.fval, "iterate")
        if k:
            if s.accepted:
                mon.expect(i == c and np.array_equal(s.x, s.candidate_x), "accepted_is_candidate")
                mon.count("accepted")
                if noisy:
                    mon.count("noisy_accepted")
                if o.get("acceptance_decider") == "classic_line_search":
                    mon.count("line_search_accepted")
            else:
                mon.expect(i == int(st[k - 1].index) and np.array_equal(s.x, st[k - 1].x) and s.fval == st[k - 1].fval,
                           "rejected_keeps")
    observed(t.res["solution_x"], t.res["solution_criterion"], "solution")
    mon.expect(np.array_equal(t.res["solution_x"], st[-1].x), "final_x", "solution is not the last iterate")
    mon.expect(t.res["solution_criterion"] == st[-1].fval, "final_value")
    mon.count("runs")
    if any(s.accepted for s in st[1:]):
        mon.sig(gen.signature(cfg))
    mon.sample(config=gen.describe(cfg), accepted=[bool(s.accepted) for s in st], solution=t.res["solution_x"])
