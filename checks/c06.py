import numpy as np

from vk import gen, trace

ID = "C06"
RULE = ("random runs x random tolerance combinations; the verdict is recomputed from the recorded iterates for every "
        "step; non-trivial: run that ended with a convergence message, distinct by configuration and message")
REQUIRED = {"converged": 120, "accepted_steps_not_converged": 500, "rejected_steps": 300, "disabled_runs": 30, "tolerance_is_floor": 30, "adaptive_stopped": 150,
            "msg:gradient": 5, "msg:criterion": 10, "msg:params": 10, "msg:radius": 5}
ASSUMPTIONS = ["criteria as documented in the option names: changes between consecutive iterates, relative to "
               "max(1, |old|); gradient of the surrogate model in its unit space; relative gradient = g / max(g, 1)",
               "values within 1e-12 relative of a tolerance are not judged"]
CASE_TIMEOUT = 60
TIMEOUT_IS_VIOLATION = True

TEXT = {
    "Relative gradient norm smaller than tolerance.": "gtol_rel",
    "Absolute gradient norm smaller than tolerance.": "gtol_abs",
    "Relative criterion change smaller than tolerance.": "ftol_rel",
    "Absolute criterion change smaller than tolerance.": "ftol_abs",
    "Relative params change smaller than tolerance.": "xtol_rel",
    "Absolute params change smaller than tolerance.": "xtol_abs",
    "Trustregion radius smaller than tolerance.": "radius",
}
NAMES = dict(gtol_rel="convergence_relative_gradient_tolerance", gtol_abs="convergence_absolute_gradient_tolerance",
             ftol_rel="convergence_relative_criterion_tolerance", ftol_abs="convergence_absolute_criterion_tolerance",
             xtol_rel="convergence_relative_params_tolerance", xtol_abs="convergence_absolute_params_tolerance")
DEFAULT = dict(gtol_rel=1e-8, gtol_abs=0.0, ftol_rel=2e-9, ftol_abs=0.0, xtol_rel=1e-8, xtol_abs=0.0)


def plan(tier, seed):
    k = 1 if tier == "quick" else 12
    return ([("any", i) for i in range(300 * k)] + [("single", i) for i in range(180 * k)]
            + [("disabled", i) for i in range(50 * k)] + [("adaptive", i) for i in range(90 * k)])


def values(old, new):
    dx = np.asarray(new.x) - np.asarray(old.x)
    df = abs(float(old.fval) - float(new.fval))
    g = float(np.sqrt(np.sum(np.asarray(new.model.linear_terms) ** 2)))
    return dict(gtol_abs=g, gtol_rel=g / max(g, 1.0), ftol_abs=df, ftol_rel=df / max(abs(float(old.fval)), 1.0),
                xtol_abs=float(np.sqrt(np.sum(dx**2))),
                xtol_rel=float(np.sqrt(np.sum((dx / np.maximum(np.abs(old.x), 1.0)) ** 2))))


def adaptive(rng, mon):
    """Tolerances that are met by exactly one chosen step of a run, for parameters and criterion values of any size and sign."""
    cfg = gen.make_config(rng, kind=gen.pick(rng, "q", "nl", "rosen", "rosen", "step", "large"), maxiter=25, maxfun=300,
                          **{v: 0.0 for v in NAMES.values()})
    o = cfg["options"]
    o["disable_convergence"] = False
    x0 = np.asarray(cfg["x0"], float)
    w = float(np.abs(x0).max()) or 1.0
    o.setdefault("radius_options", {}).setdefault("initial_radius", 0.1 * w)
    prob_cfg = dict(cfg)
    shift = gen.pick(rng, -1, 1) * 10.0 ** rng.uniform(-1, 3) * w * rng.uniform(0.2, 1, len(x0)) * (1 if rng.random() < 0.7 else rng.choice([-1, 1], len(x0)))
    cfg = dict(cfg, x0=x0 + shift)
    for k in ("lower_bounds", "upper_bounds"):
        if o.get(k) is not None:
            o[k] = o[k] + shift
    for k, f in (("lower_bounds", np.minimum), ("upper_bounds", np.maximum)):
        if o.get(k) is not None:
            o[k] = f(o[k], cfg["x0"])
    offset = gen.pick(rng, 0.0, 1.0, -1.0) * 10.0 ** rng.uniform(-2, 4) if cfg["functype"] != "least_squares" else 0.0

    def run(opts):
        prob = gen.Problem(prob_cfg)
        c = dict(cfg, options=dict(o, **opts))
        return trace.run_plain(c, fun=lambda x: prob(np.asarray(x) - shift) + offset)

    base = run({})
    st = base.states
    acc = [k for k in range(1, len(st)) if st[k].accepted]
    if not acc:
        return
    vals = {k: values(st[k - 1], st[k]) for k in acc}
    for _ in range(3):
        q = gen.pick(rng, *DEFAULT)
        k = int(gen.pick(rng, *acc))
        tol = vals[k][q] * (1 + 1e-6)
        if not 0 < tol < np.inf:
            continue
        first = min(j for j in acc if vals[j][q] <= tol)
        if any(abs(vals[j][q] - tol) <= 1e-8 * tol for j in acc) or any(min(vals[j].values()) == 0 for j in acc if j <= first):
            continue
        t = run({NAMES[q]: tol})
        d = lambda: f"{q} {tol}, first met in iteration {first} of {len(st) - 1}: {vals[first]}; {t.res['message']} after {len(t.states) - 1}; {gen.describe(cfg)}"
        mon.count("adaptive_stopped")
        mon.expect(len(t.states) - 1 <= first, "adaptive_missed", d)
        mon.expect(len(t.states) - 1 >= first, "adaptive_too_early", d)
        # several criteria can have the same meaning for this step, but only one of them has a positive tolerance
        mon.expect(TEXT.get(t.res["message"]) == q, "adaptive_message", d)
        mon.sig("adaptive", q, gen.signature(cfg), bool(offset), bool((shift < 0).any()))


def run_case(group, idx, rng, mon):
    if group == "adaptive":
        return adaptive(rng, mon)
    tol = dict(DEFAULT)
    opts = {}
    if group == "any":
        for k in tol:
            if rng.random() < 0.4:
                tol[k] = float(gen.pick(rng, 0.0, 10.0 ** rng.uniform(-10, 0)))
    else:
        for k in tol:
            tol[k] = 0.0
        name = list(tol)[idx % 6]
        if group == "single":
            tol[name] = float(10.0 ** rng.uniform(-8, -1))
    opts = {NAMES[k]: v for k, v in tol.items()}
    min_r = 0.0
    if rng.random() < 0.3:
        min_r = float(10.0 ** rng.uniform(-4, 0))
        opts["convergence_min_trust_region_radius"] = min_r
    disabled = group == "disabled"
    if disabled:
        opts = {NAMES[k]: 1.0 for k in tol}
        opts["convergence_min_trust_region_radius"] = min_r = 1.0
    cfg = gen.make_config(rng, kind=gen.pick(rng, "q", "q", "nl", "rosen", "step", "tiny", "large", "const"), maxiter=40, maxfun=500,
                          **opts)
    cfg["options"]["disable_convergence"] = disabled
    if min_r > 0 and not disabled and rng.random() < 0.5:
        # the radius never gets smaller than its tolerance but may be equal to it
        ro = cfg["options"].setdefault("radius_options", {})
        ro.pop("max_radius", None)
        ro["min_radius"] = min_r
        ro["initial_radius"] = float(min_r * gen.pick(rng, 2.0, 5.0, 30.0))
        mon.count("tolerance_is_floor")
    t = trace.run_plain(cfg)
    st, msg = t.states, t.res["message"]
    d = lambda: gen.describe(cfg)
    conv = msg in TEXT
    if disabled:
        mon.count("disabled_runs")
        mon.expect(not conv, "disabled", lambda: f"{msg}; {d()}")
        return
    for k in range(1, len(st)):
        old, new = st[k - 1], st[k]
        last = k == len(st) - 1
        v = values(old, new)
        met = {q for q in v if v[q] <= tol[q]}
        unsure = {q for q in v if v[q] != tol[q] and abs(v[q] - tol[q]) <= 1e-12 * tol[q]}
        if last and conv and TEXT[msg] != "radius":
            mon.expect(bool(new.accepted), "rejected_step_converged", lambda: f"{msg} after a rejected step; {d()}")
            q = TEXT[msg]
            mon.expect(q in met | unsure, "false_convergence",
                       lambda: f"{msg} but {q} is {v[q]:.3g} > {tol[q]:.3g}; {d()}")
        elif new.accepted:
            mon.count("accepted_steps_not_converged")
            mon.expect(not (met - unsure), "missed_convergence",
                       lambda: f"iteration {k} of {len(st) - 1} satisfied {sorted(met)} but the run went on ({msg}); {d()}")
        else:
            mon.count("rejected_steps")
        if not last:
            r = st[k + 1].trustregion.radius
            mon.expect(r > min_r, "missed_radius_convergence", lambda: f"radius {r} <= {min_r} but the run went on; {d()}")
    if conv:
        mon.count("converged")
        q = TEXT[msg]
        mon.count("msg:" + {"g": "gradient", "f": "criterion", "x": "params", "r": "radius"}[q[0]])
        if q == "radius":
            # the radius after the last iteration is at least the shrunk one
            ro = cfg["options"].get("radius_options") or {}
            r = st[-1].trustregion.radius * ro.get("shrinking_factor", 0.5)
            r = max(r, ro.get("min_radius", 1e-6))
            if "max_radius_to_step_ratio" not in ro:
                mon.expect(min(r, ro.get("max_radius", 1e6)) <= min_r * (1 + 1e-12), "false_radius_convergence",
                           lambda: f"radius cannot be below {r}, tolerance {min_r}; {d()}")
        mon.sig(gen.signature(cfg), msg)
    else:
        mon.expect(msg is None or msg.startswith("Maximum"), "other_message", f"{msg}")
    mon.sample(config=gen.describe(cfg), message=msg, iterations=len(st) - 1)
