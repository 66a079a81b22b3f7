import numpy as np

from vk import gen, trace
from vk.trace import close

ID = "C04"
RULE = ("random optimization runs with deterministic criteria, observed at the acceptance step (subproblem solution "
        "in, evaluations made, result out); non-trivial: run with at least one accepted and one rejected candidate")
REQUIRED = {"accepted": 500, "rejected": 500, "line_search_steps": 150, "line_search_better_point": 20,
            "infinite_candidates": 20, "min_improvement_decides": 10, "zero_expected_improvement": 5}
ASSUMPTIONS = ["deterministic criterion", "min_improvement >= 0"]
CASE_TIMEOUT = 60
TIMEOUT_IS_VIOLATION = True


def plan(tier, seed):
    k = 1 if tier == "quick" else 12
    return ([("any", i) for i in range(220 * k)] + [("linesearch", i) for i in range(120 * k)]
            + [("faults", i) for i in range(80 * k)] + [("minimp", i) for i in range(80 * k)])


def run_case(group, idx, rng, mon):
    kw = {}
    if group == "linesearch":
        kw = dict(acceptance_decider="classic_line_search", batch_size=int(rng.integers(2, 8)))
    if group == "faults":
        kw = dict(fail=(gen.pick(rng, "exc_x", "inf_x", "elinf_x", "nan_reg", "ninf"), float(gen.pick(rng, 0.2, 0.5))))
    if group == "minimp":
        kw = dict(acceptance_decider_options=dict(min_improvement=float(10.0 ** rng.uniform(-4, 0))), disable_convergence=True,
                  kind=gen.pick(rng, "q", "nl", "rosen"))
    if "kind" not in kw and idx % 4 == 0:
        kw["kind"] = gen.pick(rng, "step", "const")
    cfg = gen.make_config(rng, noisy=False, noise=0.0, **kw)
    cfg["options"].pop("n_evals_at_start", None)
    t = trace.run_traced(cfg)
    ft, o = cfg["functype"], cfg["options"]
    m = trace.n_resid(t)
    st = t.states
    mon.expect(st[-1].fval <= st[0].fval, "not_worse_than_start")
    acc = t.of_kind("accept")
    if not mon.expect(len(acc) == len(st) - 1, "one_decision_per_iteration", f"{len(acc)} decisions in {len(st) - 1} iterations"):
        return
    mi = (o.get("acceptance_decider_options") or {}).get("min_improvement", 0.0)
    # evaluations made during the decision, by position in the sequence of all evaluations
    flat = [trace.aggregate(ft, trace.recorded_value(raw, m)) for b in t.batches for raw in b["raw"]]
    flat_x = [a for b in t.batches for a in b["args"]]
    d = lambda: gen.describe(cfg)
    n_acc = n_rej = 0
    for k, (ev, s, prev) in enumerate(zip(acc, st[1:], st)):
        a, b = ev["n_fun"], ev["n_fun_after"]
        sol = ev["sol"]
        r = ev["result"]
        mon.expect(prev.fval >= s.fval, "monotone", lambda: f"iteration {k}: {prev.fval} -> {s.fval}; {d()}")
        vals, pts = flat[a:b], flat_x[a:b]
        if not mon.expect(b > a and any(np.array_equal(p, sol.x) for p in pts), "candidate_evaluated",
                          lambda: f"the subproblem solution was not evaluated; {d()}"):
            continue
        f_sol = [v for v, p in zip(vals, pts) if np.array_equal(p, sol.x)][0]
        j = int(np.argmin(vals))
        best = vals[j]
        line = ev["name"] == "classic_line_search" and b - a > 1
        if line:
            mon.count("line_search_steps")
            if best < f_sol:
                mon.count("line_search_better_point")
        else:
            mon.expect(b - a == 1, "one_evaluation")
        if best == f_sol:
            best_x = None  # ties
        else:
            best_x = pts[j]
        improvement = prev.fval - best
        if not np.isfinite(best):
            mon.count("infinite_candidates")
            mon.expect(not s.accepted, "infinite_rejected", lambda: f"infinite candidate accepted; {d()}")
            mon.expect(s.rho == -np.inf, "infinite_rho", lambda: f"rho {s.rho} for an infinite candidate")
        else:
            want = improvement >= mi
            if want != (improvement >= 0):
                mon.count("min_improvement_decides")
            if abs(improvement - mi) > 1e-13 * max(abs(prev.fval), abs(best)) or improvement == mi:
                mon.expect(bool(s.accepted) == bool(want), "accept_iff",
                           lambda: f"iteration {k}: improvement {improvement}, required {mi}, accepted {s.accepted}; {d()}")
            ei, ai = sol.expected_improvement, prev.fval - f_sol
            if ei == 0:
                mon.count("zero_expected_improvement")
                rho = np.inf if ai > 0 else -np.inf
            else:
                rho = ai / ei
            mon.expect(close(s.rho, rho, rtol=1e-10), "rho", lambda: f"iteration {k}: rho {s.rho}, expected {rho}; {d()}")
            got = vals[j] if best_x is None else [v for v, p in zip(vals, pts) if np.array_equal(p, s.candidate_x)]
            mon.expect(any(np.array_equal(p, s.candidate_x) and v == best for p, v in zip(pts, vals)), "best_of_batch",
                       lambda: f"iteration {k}: the reported candidate is not the best evaluated one ({got} vs {best}); {d()}")
        if s.accepted:
            n_acc += 1
            mon.expect(s.fval == best, "accepted_value", lambda: f"accepted value {s.fval}, best evaluated {best}; {d()}")
            mon.expect(any(np.array_equal(p, s.x) and v == best for p, v in zip(pts, vals)), "accepted_point",
                       lambda: f"iteration {k}: accepted point is not the best one; {d()}")
        else:
            n_rej += 1
            mon.expect(np.array_equal(s.x, prev.x) and s.fval == prev.fval and s.index == prev.index, "unchanged",
                       lambda: f"iteration {k}: rejected but iterate changed; {d()}")
        step = np.linalg.norm(s.x - prev.x)
        mon.expect(close(s.step_length, step, rtol=1e-10), "step_length", lambda: f"{s.step_length} vs {step}")
        mon.expect(close(s.relative_step_length, step / s.trustregion.radius, rtol=1e-10), "relative_step",
                   lambda: f"{s.relative_step_length} vs {step / s.trustregion.radius}")
        for f in r._fields:
            if hasattr(s, f):
                mon.expect(getattr(s, f) is getattr(r, f) or np.array_equal(getattr(s, f), getattr(r, f), equal_nan=True),
                           "result_recorded")
    mon.count("accepted", n_acc)
    mon.count("rejected", n_rej)
    if n_acc and n_rej:
        mon.sig(gen.signature(cfg))
    mon.sample(config=gen.describe(cfg), accepted=n_acc, rejected=n_rej)
