import numpy as np

from vk import gen, trace

ID = "C01"
RULE = ("random problems x bound patterns (two-sided, one-sided, partially infinite, tight, tiny, start on edge or "
        "corner, bounds just outside the initial sphere) x random components; non-trivial: at least one iteration "
        "with a bound pattern other than none; distinct by configuration signature")
REQUIRED = {"bounded_points": 2000, "cube_iterations": 100, "sphere_iterations_with_bounds": 20,
            "points_on_a_bound": 20, "line_search_runs": 3, "noisy_runs": 5, "runs": 60}
ASSUMPTIONS = ["start point inside the bounds, lower < upper", "subsolvers run uncompiled (NUMBA_DISABLE_JIT); "
               "compiled code is compared in C23"]
CASE_TIMEOUT = 60
TIMEOUT_IS_VIOLATION = True


def plan(tier, seed):
    k = 1 if tier == "quick" else 12
    return ([("any", i) for i in range(260 * k)] + [("linesearch", i) for i in range(80 * k)]
            + [("justout", i) for i in range(120 * k)] + [("faults", i) for i in range(60 * k)])


def run_case(group, idx, rng, mon):
    kw = {}
    b = gen.BOUNDS[1:][idx % (len(gen.BOUNDS) - 1)]
    if group == "linesearch":
        kw = dict(noisy=False, acceptance_decider="classic_line_search", batch_size=int(rng.integers(2, 8)))
    if group == "justout":
        b = "justout"
        kw = dict(kind=gen.pick(rng, "q", "q", "nl", "neg"))
        if idx % 2:
            kw.update(sphere_subsolver=gen.pick(rng, "gqtpar_fast", "gqtpar", "fallback_inscribed_cube",
                                                "fallback_norm_constraint", "fallback_reparametrized"), maxiter=8)
    if group == "faults":
        kw = dict(fail=(gen.pick(rng, "mix", "exc", "elinf", "nan_reg"), 0.2))
    cfg = gen.make_config(rng, bounds=b, **kw)
    t = trace.run_plain(cfg)
    o = cfg["options"]
    n = len(cfg["x0"])
    lo = np.broadcast_to(np.asarray(o.get("lower_bounds", np.full(n, -np.inf)), float), (n,))
    up = np.broadcast_to(np.asarray(o.get("upper_bounds", np.full(n, np.inf)), float), (n,))

    def check(xs, what):
        xs = np.atleast_2d(np.asarray(xs, float))
        mon.expect(np.isfinite(xs).all(), "finite:" + what, f"{what} not finite {gen.describe(cfg)}")
        bad = (xs < lo) | (xs > up)
        mon.expect(not bad.any(), "bounds:" + what,
                   lambda: f"{what} outside bounds by {max(np.max(lo - xs), np.max(xs - up)):.3g}: {gen.describe(cfg)}")

    X = np.array([x for x, _ in t.evals])
    check(X, "evaluated")
    check(t.res["solution_x"], "solution")
    for s in t.states:
        check(s.x, "iterate")
        check(s.candidate_x, "candidate")
        check(s.trustregion.center, "center")
        if s.trustregion.shape == "cube":
            mon.count("cube_iterations")
        else:
            mon.count("sphere_iterations_with_bounds")
    check(t.history.get_xs(), "history")
    mon.count("bounded_points", len(X))
    mon.count("points_on_a_bound", int(((X == lo) | (X == up)).any(axis=1).sum()))
    mon.count("runs")
    if o.get("acceptance_decider") == "classic_line_search" and (o.get("batch_size") or 1) > 1:
        mon.count("line_search_runs")
    if o["noisy"]:
        mon.count("noisy_runs")
    if len(t.states) > 1:
        mon.sig(gen.signature(cfg))
    mon.sample(config=gen.describe(cfg), n_evals=len(X), iterations=len(t.states) - 1, message=t.res["message"])
