"""Metamorphic monitor: equivalent formulations of a problem must lead to the same run."""
import copy

import numpy as np

from vk import gen, trace

ID = "C31"
RULE = ("pairs of runs on equivalent formulations of one problem (infinite or far bounds instead of none, other types of returned values; residual signs flipped; residuals or contributions "
        "reordered; a residual that is always zero appended; parameters, bounds and radii measured in another unit; parameters and bounds shifted; a constant added to the criterion), "
        "compared evaluation by evaluation; non-trivial: at least two iterations; distinct by configuration and change")
REQUIRED = {"pairs": 500, "compared_points": 8000, "sign_pairs": 100, "unit_pairs": 100, "order_pairs": 100,
            "zero_pairs": 60, "shift_pairs": 100, "offset_pairs": 80, "notation_pairs": 100, "noisy_pairs": 50, "bounded_pairs": 60, "batched_pairs": 60, "infinite_pairs": 20, "accepted_steps": 500}
ASSUMPTIONS = ["units are powers of two, so that the conversion itself is exact",
               "a run counts as the same if the points differ by at most a hundredth (units, order: a thousandth, signs: a millionth) of the initial radius",
               "convergence tests are off and the radius limits are given (their defaults are absolute numbers)"]
CASE_TIMEOUT = 120
TIMEOUT_IS_VIOLATION = True
N = 6


def plan(tier, seed):
    k = 1 if tier == "quick" else 10
    return ([("sign", i) for i in range(150 * k)] + [("notation", i) for i in range(120 * k)] + [("units", i) for i in range(40 * k)]
            + [("order", i) for i in range(25 * k)] + [("zero", i) for i in range(15 * k)]
            + [("shift", i) for i in range(30 * k)] + [("offset", i) for i in range(25 * k)])


def prepare_cfg(cfg):
    o = cfg["options"]
    o["disable_convergence"] = True
    w = np.abs(cfg["x0"]).max() or 1.0
    r = dict(initial_radius=0.1 * w, min_radius=1e-6 * w, max_radius=1e6 * w)
    r.update(o.get("radius_options") or {})
    o["radius_options"] = r
    return cfg


def transform(change, cfg, rng, units=None):
    """The equivalent configuration, the criterion's transformation and the unit."""
    c, m, s = copy.deepcopy(cfg), cfg["problem"]["m"], 1.0
    if change == "sign":
        d = np.where(rng.random(m) < 0.5, -1.0, 1.0)
        if (d > 0).all():
            d = -d
        return c, (lambda f, x: d * f(x)), s
    if change == "notation":
        o, n = c["options"], len(cfg["x0"])
        w = np.abs(cfg["x0"]).max() or 1.0
        if cfg["bounds"] == "none":
            # bounds that do not bound anything, or that are never reached
            inf, far = np.full(n, np.inf), np.full(n, 1e7 * w * (1 + o["radius_options"]["initial_radius"] / w))
            kind = gen.pick(rng, "inf", "lower_inf", "upper_inf", "far", "far_lower")
            if kind != "upper_inf":
                o["lower_bounds"] = -inf if "inf" in kind else -far
            if kind not in ("lower_inf", "far_lower"):
                o["upper_bounds"] = inf if "inf" in kind else far
        ft = cfg["functype"]
        conv = {"scalar": [float, np.float64, lambda v: np.array(float(v)), lambda v: np.longdouble(v)],
                "least_squares": [np.asarray, lambda v: [float(q) for q in v], lambda v: tuple(float(q) for q in v), lambda v: np.asarray(v)[::-1].copy()[::-1]]}
        conv = gen.pick(rng, *conv["scalar" if ft == "scalar" else "least_squares"])
        return c, (lambda f, x: conv(f(x))), s
    if change == "order":
        p = rng.permutation(m)
        return c, (lambda f, x: np.asarray(f(x))[p]), s
    if change == "zero":
        return c, (lambda f, x: np.append(f(x), 0.0)), s
    if change == "offset":
        u = float(gen.pick(rng, -4.0, -1.0, 0.5, 1.0, 4.0))
        return c, (lambda f, x: f(x) + u), s
    if change == "shift":
        n, w = len(cfg["x0"]), 2.0 ** np.ceil(np.log2(np.abs(cfg["x0"]).max() or 1.0))
        v = rng.integers(-8, 9, size=n) * w
        c["x0"] = cfg["x0"] + v
        for k in ("lower_bounds", "upper_bounds"):
            if k in c["options"]:
                c["options"][k] = c["options"][k] + v
        return c, (lambda f, x: f(x - v)), v
    s = 2.0 ** int(gen.pick(rng, *(units or (-60, -40, -20, -13, -5, -1, 1, 2, 8, 13, 20, 40, 60))))
    c["x0"] = cfg["x0"] * s
    o = c["options"]
    for k in ("lower_bounds", "upper_bounds"):
        if k in o:
            o[k] = o[k] * s
    for k in ("initial_radius", "min_radius", "max_radius"):
        o["radius_options"][k] *= s
    return c, (lambda f, x: f(x / s)), s


def pair(change, cfg, rng, mon, units=None):
    """First differing evaluation (or None) and its iteration."""
    cfg2, tr, s = transform(change, cfg, rng, units)
    p1, p2 = gen.Problem(cfg), gen.Problem(cfg)
    t1 = trace.run_plain(cfg, fun=lambda x: p1(np.asarray(x)))
    t2 = trace.run_plain(cfg2, fun=lambda x: tr(p2, np.asarray(x)))
    a, b = np.array([x for x, _ in t1.evals]), np.array([x for x, _ in t2.evals])
    b = b - s if change == "shift" else b / s
    k = min(len(a), len(b))
    r = cfg["options"]["radius_options"]["initial_radius"]
    gap = np.abs(a[:k] - b[:k]).max(axis=1) / r
    far = gap > (0 if change == "notation" else 1e-6 if change == "sign" else 1e-2 if change in ("shift", "offset") else 1e-3)
    first = int(np.argmax(far)) if far.any() else k if len(a) != len(b) else None
    it = None
    if first is not None:
        ends = [b["stop"] if isinstance(b, dict) and "stop" in b else 0 for b in t1.batches]
        # the start, the first sample and the first candidate are three or more batches
        it = next((j for j, e in enumerate(ends) if first < e), 10**6)
    mon.count("pairs")
    mon.count(f"{'unit' if change == 'units' else change}_pairs")
    mon.count("compared_points", k)
    mon.count("bounded_pairs", cfg["bounds"] != "none")
    mon.count("batched_pairs", (cfg["options"].get("batch_size") or 1) > 1)
    mon.count("noisy_pairs", bool(cfg["options"].get("noisy")))
    mon.count("infinite_pairs", bool(cfg["problem"].get("fail")))
    mon.count("accepted_steps", sum(bool(x.accepted) for x in t1.states[1:]))
    mon.count("differing_pairs", first is not None)
    if len(t1.states) > 2:
        mon.sig(gen.signature(cfg), change)
    what = f"{change}: evaluation {first} of {len(a)} and {len(b)} (batch {it})"
    if first is not None and first < k:
        what += f" at {a[first]} and {b[first]}"
    return first, it, what, t1, t2, s


def run_case(group, idx, rng, mon):
    if group == "notation":
        noisy = idx % 3 == 0
        cfg = prepare_cfg(gen.make_config(rng, noisy=noisy, maxfun=gen.pick(rng, 40, 100), maxiter=gen.pick(rng, 4, 10), slow_ok=idx % 7 == 0,
                                          **(dict(bounds="none") if idx % 2 else {})))
        first, it, what, t1, t2, s = pair("notation", cfg, rng, mon)
        mon.expect(first is None, "notation", lambda: f"{what}; {gen.describe(cfg)}")
        return
    if group == "sign":
        fail = (gen.pick(rng, "elinf", "inf", "ninf"), 0.2) if idx % 4 == 0 else None
        cfg = prepare_cfg(gen.make_config(rng, functype="least_squares", noisy=False, noise=0.0, fail=fail,
                                          maxfun=gen.pick(rng, 40, 100), maxiter=gen.pick(rng, 4, 10), slow_ok=idx % 7 == 0))
        first, it, what, t1, t2, s = pair("sign", cfg, rng, mon)
        mon.expect(first is None, "sign", lambda: f"{what}; {gen.describe(cfg)}")
        if first is None:
            u, v = t1.res["solution_criterion"], t2.res["solution_criterion"]
            mon.expect(u == v or abs(u - v) <= 1e-9 * abs(u), "sign_value", lambda: f"{u} {v}; {gen.describe(cfg)}")
        mon.sample(config=gen.describe(cfg), outcome=what)
        return
    ft = {"units": gen.FUNCTYPES[idx % 3], "shift": gen.FUNCTYPES[idx % 3], "offset": ("scalar", "likelihood")[idx % 2], "order": ("least_squares", "likelihood")[idx % 2], "zero": "least_squares"}[group]
    kw = dict(functype=ft, noisy=False, noise=0.0, maxfun=60, maxiter=6, n_max=4)
    if group in ("shift", "offset"):
        kw["n"] = int(rng.integers(2, 5))
    if group == "units":
        kw["bounds"] = "none" if idx % 2 else None
        if idx % 8 in (3, 6):
            kw.update(noisy=True, noise=None, maxfun=200)
    base = prepare_cfg(gen.make_config(rng, kind="q", **kw))
    o = base["options"]
    # components whose result is continuous in the data
    o["model_fitter"] = gen.pick(rng, None, None, "tranquilo") if o.get("model_fitter") != "ridge" else "ridge"
    if group in ("shift", "offset"):
        # no ties between points that are equally good up to rounding
        o["sample_filter"] = gen.pick(rng, None, "discard_all", "keep_all")
    if group == "offset":
        o.pop("model_fitter_options", None)
        o["model_fitter"] = gen.pick(rng, None, "tranquilo")
    if group == "units" and idx % 4 == 1:
        # runs that drop many points
        o["sample_filter"] = "keep_all"
        o.pop("sample_filter_options", None)
        o["search_radius_factor"] = float(gen.pick(rng, 4.25, 8.0))
        o["stagnation_options"] = dict(min_relative_step_keep=float(gen.pick(rng, 0.5, 0.9, 2.0)), min_relative_step=float(gen.pick(rng, 0.05, 0.5)),
                                       max_trials=int(gen.pick(rng, 1, 3)), drop=bool(rng.random() < 0.7))
        o["stopping_max_iterations"] = 15
        o["stopping_max_criterion_evaluations"] = 120
    o["cube_subsolver"] = gen.pick(rng, "bntr_fast", "bntr")
    o["sphere_subsolver"] = gen.pick(rng, "gqtpar_fast", "gqtpar")
    units = gen.pick(rng, None, (-60, -40, -30), (20, 40, 60), (-13, -5, -1, 1, 2, 8))
    early, whole, msgs = 0, 0, []
    for j in range(N):
        cfg = copy.deepcopy(base)
        cfg["problem"].update(seed=int(rng.integers(2**31)), kind=gen.pick(rng, "q", "nl", "rosen"),
                              dist=float(gen.pick(rng, 0.5, 2.0, 10.0)))
        o["seed"] = int(rng.integers(1, 2**31))
        first, it, what, *_ = pair(group, cfg, rng, mon, units)
        whole += first is not None
        early += first is not None and it <= 3
        if first is not None:
            msgs.append(what)
    mon.count("early_differences", early)
    mon.count(f"{group}_early_{early}")
    mon.count(f"{group}_whole_{whole}")
    mon.count("late_differences", whole - early)
    mon.expect(early <= 4, group + "_early", lambda: f"{early} of {N}: {msgs}; {gen.describe(base)}")
    # other changes alter the rounding, and some configurations amplify that over the iterations
    mon.expect(whole <= 3 or group != "units" or base["bounds"] != "none", group + "_run", lambda: f"{whole} of {N}: {msgs}; {gen.describe(base)}")
    mon.sample(config=gen.describe(base), differing=whole)
