import numpy as np

from vk import gen, trace

ID = "C05"
RULE = ("random runs x budgets (evaluations 1..600, iterations 0..40, times) x criteria that improve, stall, fail or "
        "decrease forever; iteration boundaries are observed from inside; non-trivial: run ended by a budget; "
        "distinct by configuration signature and message")
REQUIRED = {"ended_by_evaluations": 80, "ended_by_iterations": 60, "ended_by_time": 8, "converged": 20, "iterations": 1500,
            "max_eval_one": 5}
ASSUMPTIONS = ["absence of a message is the documented(observed) form of reporting the iteration limit",
               "time budgets are judged by the harness' own monotonic clock with 50 ms tolerance"]
CASE_TIMEOUT = 90
TIMEOUT_IS_VIOLATION = True
MSG_EVAL = "Maximum number of criterion evaluations reached."
MSG_TIME = "Maximum time reached."


def plan(tier, seed):
    k = 1 if tier == "quick" else 12
    return ([("budget", i) for i in range(240 * k)] + [("stall", i) for i in range(80 * k)]
            + [("faults", i) for i in range(90 * k)] + [("noisy", i) for i in range(60 * k)] + [("time", i) for i in range(32 * k)])


def run_case(group, idx, rng, mon):
    kw = dict(maxfun=int(gen.pick(rng, 1, 2, 3, 5, 10, 25, 60, 150, 600)), maxiter=int(gen.pick(rng, 0, 1, 2, 5, 12, 40)))
    sleep = 0.0
    if group == "stall":
        kw.update(kind=gen.pick(rng, "const", "step", "neg"), disable_convergence=True,
                  maxfun=int(gen.pick(rng, 30, 150, 400)), maxiter=40)
    if group == "faults":
        kw.update(fail=(gen.pick(rng, "all_exc", "mix", "exc", "inf", "elinf", "nan_reg", "inf_reg"),
                        float(gen.pick(rng, 0.0, 0.3, 0.7))), maxiter=int(gen.pick(rng, 5, 12, 40)))
    if group == "noisy":
        kw.update(noisy=True)
    if group == "time":
        sleep = float(gen.pick(rng, 0.0, 0.01, 0.03))
        kw.update(kind=gen.pick(rng, "const", "nl", "rosen", "neg"), n_max=3, maxfun=400, maxiter=40,
                  stopping_max_time=float(gen.pick(rng, 0.0, 0.1, 0.3, 100.0) if sleep else gen.pick(rng, 0.0, 1000.0)),
                  disable_convergence=True, noisy=False)
    cfg = gen.make_config(rng, **kw)
    if idx % 5 == 0:
        cfg["options"]["convergence_min_trust_region_radius"] = 1e-3
    t = trace.run_traced(cfg, sleep=sleep)
    o = cfg["options"]
    max_eval, max_iter = o["stopping_max_criterion_evaluations"], o["stopping_max_iterations"]
    d = lambda: gen.describe(cfg)
    its = t.iterations()
    st = t.states
    n_it = len(st) - 1
    msg = t.res["message"]
    n_fun = len(t.evals)
    mon.count("iterations", n_it)
    if max_eval == 1:
        mon.count("max_eval_one")
    mon.expect(n_it <= max_iter, "iteration_limit", lambda: f"{n_it} iterations, limit {max_iter}; {d()}")
    mon.expect(len(its) == n_it, "one_record_per_iteration", lambda: f"{len(its)} iterations but {n_it} records")
    n_start = t.batches[0]["n"]
    starts = [it[0][1]["n_fun"] for it in its]  # evaluations when iteration k begins
    for k, s in enumerate(starts):
        if k >= 1:
            mon.expect(s < max_eval, "stop_at_first_excess",
                       lambda: f"iteration {k} began after {s} of {max_eval} evaluations; {d()}")
    if starts:
        mon.expect(starts[0] == n_start, "start_evaluations")
    conv = msg is not None and msg not in (MSG_EVAL, MSG_TIME)
    if msg is None:
        mon.count("ended_by_iterations")
        mon.expect(n_it == max_iter, "message_missing", lambda: f"no message after {n_it} of {max_iter} iterations; {d()}")
        if n_it:
            mon.expect(n_fun < max_eval, "budget_not_named", lambda: f"{n_fun} evaluations, budget {max_eval}, but no message; {d()}")
    elif msg == MSG_EVAL:
        mon.count("ended_by_evaluations")
        mon.expect(n_fun >= max_eval, "false_evaluation_message", lambda: f"{n_fun} < {max_eval}; {d()}")
    elif msg == MSG_TIME:
        mon.count("ended_by_time")
        mon.expect(t.t1 - t.t0 >= o.get("stopping_max_time", np.inf), "false_time_message")
        mon.expect(n_fun < max_eval, "time_before_evaluations")
    else:
        mon.count("converged")
        mon.expect("smaller than tolerance" in msg, "message_wording", f"unknown message {msg!r}")
        mon.expect(not o.get("disable_convergence"), "converged_although_disabled", lambda: f"{msg}; {d()}")
    mt = o.get("stopping_max_time")
    if mt is not None:
        times = [it[0][1]["time"] for it in its]
        for k, tm in enumerate(times[1:], 1):
            mon.expect(tm - t.t0 < mt + 0.05, "time_limit",
                       lambda: f"iteration {k} began {tm - t.t0:.3f}s after the start, limit {mt}; {d()}")
    if not conv:
        mon.sig(gen.signature(cfg), msg)
    mon.sample(config=gen.describe(cfg), message=msg, iterations=n_it, evaluations=n_fun)
