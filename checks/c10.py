import numpy as np

from vk import gen, trace
from vk.trace import close

ID = "C10"
RULE = ("(a) direct inputs of the update rule including thresholds, limits and infinite ratios; (b) optimization runs "
        "with random radius options whose every region is recomputed from the recorded ratio and step; non-trivial: "
        "run in which the radius changed at least twice, or direct case; distinct by branch and configuration")
REQUIRED = {"direct": 2000, "transitions": 1000, "expanded": 100, "shrunk": 200, "kept": 30, "kept_more_evals": 5,
            "hit_min": 5, "hit_max": 5, "zero_start": 5, "cut_by_step_ratio": 20}
ASSUMPTIONS = ["ratios within 1e-12 relative of a threshold are not judged in runs"]
CASE_TIMEOUT = 60
TIMEOUT_IS_VIOLATION = True


def plan(tier, seed):
    k = 1 if tier == "quick" else 12
    return ([("direct", i) for i in range(60 * k)] + [("run", i) for i in range(300 * k)]
            + [("noisy", i) for i in range(100 * k)] + [("zero", i) for i in range(20 * k)])


DEF = dict(min_radius=1e-6, max_radius=1e6, rho_decrease=0.1, rho_increase=0.1, shrinking_factor=0.5,
           expansion_factor=2.0, large_step=0.5, max_radius_to_step_ratio=np.inf)


def rule(radius, rho, step, o, more_evals):
    """Reference for the next radius; returns (radius, branch)."""
    if rho >= o["rho_increase"] and step >= o["large_step"] * radius:
        r, br = radius * o["expansion_factor"], "expanded"
    elif rho >= o["rho_decrease"]:
        r, br = radius, "kept"
    elif more_evals:
        r, br = radius, "kept_more_evals"
    else:
        r, br = radius * o["shrinking_factor"], "shrunk"
    hi = o["max_radius"]
    if np.isfinite(o["max_radius_to_step_ratio"]):
        hi = min(hi, max(step * o["max_radius_to_step_ratio"], o["min_radius"]))
        if r > hi:
            br += "+cut"
    if r < o["min_radius"]:
        br += "+min"
    if r > o["max_radius"]:
        br += "+max"
    return min(max(r, o["min_radius"]), hi), br


def ambiguous(radius, rho, step, o):
    near = lambda a, b: a != b and abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return (near(rho, o["rho_increase"]) or near(rho, o["rho_decrease"])
            or abs(step / radius - o["large_step"]) <= 1e-12 * o["large_step"])


def run_case(group, idx, rng, mon):
    if group == "direct":
        return direct(rng, mon)
    ro = {}
    n = int(rng.integers(1, 5))
    if rng.random() < 0.7:
        lo = float(10.0 ** rng.uniform(-4, -1))
        ro = dict(shrinking_factor=float(rng.uniform(0.1, 0.9)), expansion_factor=float(rng.uniform(1.1, 4)),
                  large_step=float(rng.uniform(0.05, 1.0)), rho_decrease=float(rng.uniform(-0.5, 0.9)))
        ro["rho_increase"] = ro["rho_decrease"] + float(gen.pick(rng, 0.0, 0.2, 0.6))
        if rng.random() < 0.6:
            ro.update(min_radius=lo, max_radius=float(lo * 10 ** rng.uniform(0.5, 3)))
            ro["initial_radius"] = float(np.sqrt(lo * ro["max_radius"]))
        if rng.random() < 0.3:
            ro["max_radius_to_step_ratio"] = float(rng.uniform(1.0, 5.0))
    kw = {}
    if group == "noisy":
        mn = int(gen.pick(rng, 1, 2))
        kw = dict(noisy=True, noise=float(gen.pick(rng, 0.05, 0.5, 2.0)), kind=gen.pick(rng, "q", "nl"),
                  noise_adaptation_options=dict(rho_noise_n_draws=4, min_n_evals=mn, max_n_evals=mn + 4))
    kw.setdefault("kind", gen.pick(rng, "q", "nl", "rosen", "const", "step", "neg", "large"))
    cfg = gen.make_config(rng, n=n, maxiter=40, maxfun=500, disable_convergence=True, **kw)
    cfg["options"].pop("radius_options", None)
    if ro:
        cfg["options"]["radius_options"] = ro
    if group == "zero":
        cfg["options"].pop("radius_options", None)
        cfg["x0"] = np.zeros(n)
        for k in ("lower_bounds", "upper_bounds"):
            cfg["options"].pop(k, None)
        if rng.random() < 0.5:
            cfg["options"]["lower_bounds"] = -np.ones(n)
        mon.count("zero_start")
    t = trace.run_plain(cfg)
    o = dict(DEF, **(cfg["options"].get("radius_options") or {}))
    st = t.states
    d = lambda: gen.describe(cfg)
    r0 = o.get("initial_radius")
    if r0 is None:
        w = np.abs(np.asarray(cfg["x0"])).max()
        if w > 0:
            mon.expect(close(st[0].trustregion.radius, 0.1 * w, rtol=1e-12), "default_radius", f"{st[0].trustregion.radius} for {w}")
        mon.expect(st[0].trustregion.radius > 0, "positive_radius")
    else:
        mon.expect(st[0].trustregion.radius == r0, "initial_radius", f"{st[0].trustregion.radius} instead of {r0}")
    changes = 0
    lo_u, up_u = cfg["options"].get("lower_bounds"), cfg["options"].get("upper_bounds")
    for k in range(len(st)):
        s = st[k]
        b = s.trustregion.bounds
        for a, u, inf in ((getattr(b, "lower", None), lo_u, -np.inf), (getattr(b, "upper", None), up_u, np.inf)):
            a = np.full(n, inf) if a is None else np.asarray(a)
            mon.expect(np.array_equal(a, np.full(n, inf) if u is None else u), "carries_bounds")
        if k == 0:
            mon.expect(np.array_equal(s.trustregion.center, cfg["x0"]), "first_center")
            continue
        mon.expect(np.array_equal(s.trustregion.center, st[k - 1].x), "centered",
                   lambda: f"iteration {k}: centered at {s.trustregion.center}, iterate {st[k - 1].x}; {d()}")
        if k == 1:
            mon.expect(s.trustregion.radius == st[0].trustregion.radius, "first_radius")
        if k + 1 < len(st):
            nxt = st[k + 1]
            rad, rho, step = s.trustregion.radius, s.rho, s.step_length
            more = bool(nxt.n_evals_per_point > s.n_evals_per_point)
            want, br = rule(rad, rho, step, o, more)
            mon.count("transitions")
            if not ambiguous(rad, rho, step, o):
                mon.expect(close(nxt.trustregion.radius, want, rtol=1e-12), "rule",
                           lambda: f"iteration {k}: radius {rad}, rho {rho}, step {step}, more evals {more}: next radius "
                                   f"{nxt.trustregion.radius}, expected {want} ({br}); {d()}")
                mon.count(br.split("+")[0])
                for q, c in (("+min", "hit_min"), ("+max", "hit_max"), ("+cut", "cut_by_step_ratio")):
                    if q in br:
                        mon.count(c)
            mon.expect(nxt.trustregion.radius >= o["min_radius"] and nxt.trustregion.radius <= max(o["max_radius"], o["min_radius"]),
                       "limits", lambda: f"radius {nxt.trustregion.radius} outside limits; {d()}")
            changes += nxt.trustregion.radius != rad
    if changes >= 2:
        mon.sig(gen.signature(cfg), tuple(sorted(ro)))
    mon.sample(config=gen.describe(cfg), radii=[s.trustregion.radius for s in st][:30])


def direct(rng, mon):
    from tranquilo.adjust_radius import adjust_radius
    from tranquilo.options import RadiusOptions

    for _ in range(80):
        o = dict(DEF, initial_radius=1.0)
        if rng.random() < 0.8:
            o.update(min_radius=float(10.0 ** rng.uniform(-8, 0)), rho_decrease=float(rng.uniform(-1, 1)),
                     shrinking_factor=float(rng.uniform(0.01, 1)), expansion_factor=float(rng.uniform(1, 10)),
                     large_step=float(gen.pick(rng, 0.25, 0.5, 0.75, 1.0, rng.uniform(0, 1))))
            o["max_radius"] = o["min_radius"] * float(10.0 ** rng.uniform(0, 9))
            o["rho_increase"] = o["rho_decrease"] + float(gen.pick(rng, 0.0, rng.uniform(0, 2)))
            if rng.random() < 0.3:
                o["max_radius_to_step_ratio"] = float(rng.uniform(0.5, 10))
        radius = float(2.0 ** rng.integers(-20, 20)) if rng.random() < 0.5 else float(10.0 ** rng.uniform(-6, 6))
        step = float(gen.pick(rng, 0.0, o["large_step"] * radius, radius, rng.uniform(0, 1.1) * radius))
        rho = float(gen.pick(rng, o["rho_increase"], o["rho_decrease"], np.inf, -np.inf, 1.0, 0.0, rng.normal(), rng.uniform(0, 1)))
        more = bool(rng.random() < 0.4)
        got = adjust_radius(radius=radius, rho=rho, step_length=step, options=RadiusOptions(**o), n_evals_is_increased=more)
        want, br = rule(radius, rho, step, o, more)
        mon.count("direct")
        if abs(step / radius - o["large_step"]) <= 1e-12 and step / radius != o["large_step"]:
            continue
        mon.expect(close(got, want, rtol=1e-12), "direct_rule",
                   lambda: f"radius {radius}, rho {rho}, step {step}, more {more}, options {o}: {got} instead of {want} ({br})")
        mon.sig("direct", br)
