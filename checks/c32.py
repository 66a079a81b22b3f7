import numpy as np

from checks import models
from checks.c15 import inverse_map, val
from checks.c19 import explicit_defaults
from checks.regions import limits
from vk import gen, trace

ID = "C32"
RULE = ("the fits, solutions and samples of every iteration of runs with random stagnation options, observed through a user-defined fitter, sampler and subsolver: "
        "points are dropped one by one, then added in the configured increments, as long as the step is too short and no longer; distinct by (options, drops, trials)")
REQUIRED = {"iterations": 2000, "long_steps": 300, "drops": 300, "drops_stopped_by_step": 60, "drops_stopped_by_size": 60, "trials": 600, "trials_exhausted": 200,
            "trials_stopped_by_step": 80, "trial_replaced_points": 200, "trial_added_points": 200, "several_points_per_trial": 100, "noisy_trials": 60, "last_solution_used": 1500}
ASSUMPTIONS = ["relative step: Euclidean distance between solution and current point, in units of the trust region radius",
               "iterations in which a step lies within rounding error of a threshold, or the subproblem solver raises, are not judged"]
CASE_TIMEOUT = 60
CHUNK = 4


def plan(tier, seed):
    k = 1 if tier == "quick" else 20
    return [("run", i) for i in range(220 * k)] + [("steered", i) for i in range(120 * k)]


def features(x, quad):
    k, n = x.shape
    cols = [np.ones(k)] + [x[:, i] for i in range(n)]
    if quad:
        cols += [(0.5 if i == j else 1.0) * x[:, i] * x[:, j] for i in range(n) for j in range(i, n)]
    return np.array(cols).T


def run_case(group, idx, rng, mon):
    noisy = idx % 6 == 0
    kw = dict(kind=gen.pick(rng, "q", "q", "nl", "rosen", "step", "const")) if group == "run" else dict(kind="nl")
    cfg = gen.make_config(rng, noisy=noisy, n_max=4, maxiter=int(rng.integers(5, 20)), maxfun=400, **kw)
    o = cfg["options"]
    for k in ("model_fitter", "model_fitter_options", "residualize"):
        o.pop(k, None)
    if rng.random() < 0.85:
        st = dict(min_relative_step=float(gen.pick(rng, 0.05, 0.3, 0.6, 0.95)), min_relative_step_keep=float(gen.pick(rng, 0.0, 0.125, 0.5, 0.9)),
                  sample_increment=int(gen.pick(rng, 1, 1, 2, 3)), max_trials=int(gen.pick(rng, 1, 2, 3, 5)), drop=bool(rng.random() < 0.5))
        o["stagnation_options"] = st
    else:
        o.pop("stagnation_options", None)
        st = {}
    st = {**explicit_defaults(cfg)["stagnation_options"], **st}
    if rng.random() < 0.6:
        o["sample_filter"] = "keep_all"
        o.pop("sample_filter_options", None)
    target = o.get("sample_size") or explicit_defaults(cfg)["sample_size"]
    t = trace.Trace(cfg)
    t.problem = gen.Problem(cfg)
    r = trace.Recorder(t, t.problem, cap=trace.default_cap(cfg))
    comps = trace.observed_components(t, cfg)
    comps = {k: v for k, v in comps.items() if k in ("sampler", "sampler_options", "sample_filter", "sample_filter_options", "sphere_subsolver", "cube_subsolver", "acceptance_decider")}

    def fitter(x, y, model_type, weights=None):
        t.events.append(("fit", dict(x=np.array(x, copy=True), y=np.array(y, copy=True))))
        F = features(x, model_type == "quadratic")
        return np.linalg.lstsq(F, y, rcond=1e-10)[0].T

    comps["model_fitter"] = fitter
    comps["residualize"] = False
    if group == "steered":
        # steps of a chosen length, whatever the model says (if it predicts a decrease)
        def steer(model, x_candidate, lower_bounds=None, upper_bounds=None):
            ev = dict(shape=None, model=model, raised=True)
            t.events.append(("solve", ev))
            _, g, h = models.parts(model)
            d = -(g[0] + h[0] @ x_candidate)
            nd = np.linalg.norm(d)
            u = np.array(x_candidate, float)
            if nd > 0:
                u = u + d / nd * float(gen.pick(rng, 0.01, 0.04, 0.1, 0.2, 0.4, 0.55, 0.7, 0.93))
            ev.update(raised=False, x=u.copy())
            return dict(x=u, success=True, n_iterations=1)

        comps["sphere_subsolver"] = comps["cube_subsolver"] = steer
    t.res = trace.call(cfg, r.criterion, r.batch_evaluator, comps)
    for k, it in enumerate(t.iterations()):
        ia = next((j for j, (q, _) in enumerate(it) if q == "accept"), None)
        if ia is None:
            mon.violate("no_acceptance_decision", lambda: f"iteration {k + 1}; {gen.describe(cfg)}")
            continue
        f = it[0][1]
        kept = bool((np.asarray(f["out_indices"]) == f["state"].index).any()) if "out_indices" in f else False
        judge(k, it[1:ia], it[ia][1], st, target, cfg, mon, kept)


def relative_step(ev, region):
    """Length of the step that follows from the raw result of the solver, None if that is not clear."""
    if ev["raised"]:
        return None, None
    u = np.asarray(ev["x"], float)
    n = len(u)
    lo, up = limits(region, n)
    if region.shape == "cube":
        u = np.clip(u, -1, 1)
    x = np.clip(inverse_map(region, u), lo, up)
    c = np.asarray(region.center, float)
    u = np.asarray(region.map_to_unit(x), float)
    u0 = np.asarray(region.map_to_unit(c), float)
    v, mag = models.evaluate(ev["model"], np.array([u0, u]))
    dec = v[0, 0] - v[1, 0]
    # rounding of the positions in the trust region, relevant if the optimum is reached exactly
    du = 1e-15 * (np.abs(c).max() + region.radius) / region.radius * n
    _, g, h = models.parts(ev["model"])
    moved = du * (np.abs(g[0]).sum() + np.abs(h[0]).sum() * (np.abs(u).max() + du))
    if abs(dec) <= 1e-12 * mag.sum() + 4 * moved:
        return (0.0, c) if np.linalg.norm(x - c) <= 1e-12 * region.radius else (None, None)
    if dec < 0:
        x = c
    return float(np.linalg.norm(x - c) / region.radius), x


def judge(k, events, accept, st, target, cfg, mon, kept):
    d = lambda: f"iteration {k + 1}, {st}, target {target}: {[(q, len(e.get('x', e.get('xs', [])))) for q, e in events if q != 'batch']}; {gen.describe(cfg)}"
    mon.count("iterations")
    state = accept["state"]
    region = state.trustregion
    if region.radius <= 1e-9 * np.abs(region.center).max():
        return
    seq = [(q, e) for q, e in events if q in ("sample", "fit", "solve")]
    kinds = [q for q, _ in seq]
    if kinds[:3] != ["sample", "fit", "solve"]:
        mon.violate("iteration_structure", d)
        return
    # rounds of (samples, points of the fit, step)
    rounds, sampled = [], []
    for q, e in seq:
        if q == "sample":
            sampled.append(e)
        elif q == "fit":
            rounds.append([sampled, e["x"], None])
            sampled = []
        else:
            if rounds[-1][2] is not None:
                mon.violate("solved_twice", d)
                return
            rounds[-1][2] = e
    if sampled or any(q[2] is None for q in rounds):
        mon.violate("sample_without_fit", d)
        return
    steps = [relative_step(q[2], region) for q in rounds]
    if any(s[0] is None for s in steps) or any(abs(s[0] - st[w]) < 1e-7 for s in steps for w in ("min_relative_step", "min_relative_step_keep")):
        mon.count("not_judged")
        return
    # the last solution is the one that is considered
    mon.count("last_solution_used")
    big = np.abs(region.center).max() + region.radius
    mon.expect(np.linalg.norm(np.asarray(accept["sol"].x) - steps[-1][1]) <= 1e-8 * region.radius + 1e-13 * big, "last_solution_considered",
               lambda: f"{accept['sol'].x} instead of {steps[-1][1]}; {d()}")
    key = lambda X: set(map(tuple, np.round(np.asarray(X, float), 9)))
    L, pts = steps[0][0], rounds[0][1]
    j, drops, trials = 0, 0, 0
    # -- dropping
    while L < st["min_relative_step_keep"] and len(pts) > target:
        j += 1
        if not mon.expect(j < len(rounds) and not rounds[j][0] and len(rounds[j][1]) == len(pts) - 1 and key(rounds[j][1]) <= key(pts), "drops_one_point_if_step_short",
                          lambda: f"step {L}, {len(pts)} points, round {j}; {d()}"):
            return
        drops += 1
        L, pts = steps[j][0], rounds[j][1]
        has = (np.abs(pts - region.map_to_unit(region.center)).max(axis=1) < 1e-9).any()
        mon.expect(has or not kept, "current_point_dropped", d)
    mon.count("drops", drops)
    if drops:
        mon.count("drops_stopped_by_step" if L >= st["min_relative_step_keep"] else "drops_stopped_by_size")
    elif len(pts) > target:
        mon.count("kept_all_points")
    # -- adding
    inc = st["sample_increment"]
    while L < st["min_relative_step"] and trials < max(1, st["max_trials"]):
        j += 1
        if not mon.expect(j < len(rounds) and len(rounds[j][0]) == 1, "samples_if_step_short", lambda: f"step {L} after {trials} trials; {d()}"):
            return
        trials += 1
        s, new = rounds[j][0][0], rounds[j][1]
        mon.expect(s["n_points"] == inc and len(s["xs"]) == inc, "sample_increment", lambda: f"{len(s['xs'])} points; {d()}")
        replace = st["drop"] and len(pts) > inc
        mon.expect(len(new) == len(pts) + (0 if replace else inc), "replaced_or_added", lambda: f"{len(pts)} -> {len(new)} points; {d()}")
        mon.count("trial_replaced_points" if replace else "trial_added_points")
        mon.count("several_points_per_trial", inc > 1)
        mon.count("noisy_trials", bool(cfg["options"].get("noisy")))
        dist = np.abs(new[:, None, :] - np.asarray(region.map_to_unit(s["xs"]))[None]).max(axis=2)
        mon.expect((dist.min(axis=0) < 1e-7).all(), "new_points_in_model", d)
        old = np.abs(new[:, None, :] - pts[None]).max(axis=2)
        mon.expect((old.min(axis=1) < 1e-9).sum() >= len(new) - inc, "other_points_kept", d)
        if not replace:
            mon.expect((old.min(axis=0) < 1e-9).all(), "points_lost", d)
        L, pts = steps[j][0], new
    mon.count("trials", trials)
    if trials:
        mon.count("trials_stopped_by_step" if L >= st["min_relative_step"] else "trials_exhausted")
        mon.sig(tuple(sorted(st.items())), drops, trials, region.shape)
    else:
        mon.count("long_steps")
    mon.expect(j == len(rounds) - 1, "continues_although_step_long_or_exhausted", lambda: f"{len(rounds) - 1 - j} further rounds after step {L}, {trials} trials, {drops} drops; {d()}")
