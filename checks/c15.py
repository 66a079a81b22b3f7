import itertools

import numpy as np
from scipy.optimize import Bounds as SciBounds, minimize

from checks import models
from checks.regions import box, limits, make_region
from vk import gen, trace

ID = "C15"
RULE = ("(a) random scalar models (definite, semidefinite, ill-conditioned, indefinite, linear; magnitudes 1e-4 to 1e4; gradient from tiny to "
        "dominant) on random spheres and cubes (center in the interior, on bounds, in corners), solved by every built-in solver and option; "
        "judged against independently computed feasibility, model decrease, best step along the projected gradient and global minimum; (b) "
        "user solvers that raise, return good, bad and infeasible points; (c) the subproblems of real runs, also with failing solvers; distinct by "
        "(solver, options, model kind, n, position of the center)")
REQUIRED = {"solved": 1500, "sphere": 500, "cube": 500, "cauchy_compared": 600, "optimum_compared": 500, "hard_case": 20, "start_at_corner": 50,
            "fallback_used": 60, "fallback_disabled_raised": 30, "user_solver_kept": 60, "infeasible_user_point": 30, "run_solutions": 300,
            "run_fallbacks": 20, "barely_worse": 20, "reported_failure": 10, "stat_cauchy": 1000, "stat_convex": 300, "multistart_compared": 80}
ASSUMPTIONS = ["sphere solvers may exceed the radius by the documented tolerance k_easy = 0.1 of the default (|norm - 1| <= k_easy)",
               "models with a zero gradient at a saddle point are excluded (no solver promises progress there)",
               "global optimality is only claimed for sphere models and for convex, well-conditioned cube models of magnitude above 0.1; conjugate "
               "gradient methods other than the default and the fallback solvers only promise feasibility and no increase"]
CASE_TIMEOUT = 60
# bntr promises no exact Cauchy step; observed minima over millions of models are documented in DESIGN.md
CAUCHY, CONVEX = 0.3, 0.85
SPHERE = ("gqtpar", "gqtpar_fast", "fallback_reparametrized", "fallback_inscribed_cube", "fallback_norm_constraint")
CUBE = ("bntr", "bntr_fast", "fallback_cube", "fallback_multistart")


def plan(tier, seed):
    k = 4 if tier == "quick" else 150
    return [("multistart", i) for i in range(20 * k)] + [("direct", i) for i in range(220 * k)] + [("stat", i) for i in range(8 * min(k, 20))] + [("fallback", i) for i in range(25 * min(k, 40))] + [("run", i) for i in range(15 * min(k, 40))]


def run_case(group, idx, rng, mon):
    return globals()[group](rng, mon)


# ------------------------------------------------------------------------------ references
def val(g, H, x):
    return float(g @ x + 0.5 * x @ H @ x)


def sphere_opt(g, H):
    """Global minimum of the model in the unit ball (More-Sorensen by bisection on eigenvalues)."""
    w, V = np.linalg.eigh(H)
    q = V.T @ g
    if w[0] > 0 and np.linalg.norm(q / w) <= 1:
        return val(g, H, -V @ (q / w)), False
    nrm = lambda lam: np.linalg.norm(q / (w + lam)) if (w + lam).min() > 0 else np.inf
    lo, hi = max(0.0, -w[0]), max(0.0, -w[0]) + np.linalg.norm(g) + 1e-300
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if nrm(mid) > 1:
            lo = mid
        else:
            hi = mid
    x = np.where(w + hi > 0, -q / np.where(w + hi > 0, w + hi, 1), 0.0)
    hard = np.linalg.norm(x) < 1 - 1e-6
    if hard:
        x[0] += np.sqrt(max(0.0, 1 - x @ x)) * (1 if x[0] >= 0 else -1)
    x /= max(1.0, np.linalg.norm(x))
    return val(g, H, V @ x), hard


def cube_convex_opt(g, H):
    """An upper bound of the minimum over the unit cube (the minimum, if the local search converges)."""
    n = len(g)
    best = 0.0
    sc = np.abs(g).max() + np.abs(H).max() + 1e-300
    for s in (np.zeros(n), -np.sign(g)):
        r = minimize(lambda x: val(g, H, x) / sc, s, jac=lambda x: (g + H @ x) / sc, method="L-BFGS-B",
                     bounds=SciBounds(-np.ones(n), np.ones(n)), options=dict(maxiter=2000, ftol=1e-15, gtol=1e-12))
        best = min(best, val(g, H, np.clip(r.x, -1, 1)))
    return best


def cauchy(g, H, x0, shape):
    """Value of the best step from x0 along the negative (projected) gradient."""
    d = -(g + H @ x0)
    if shape == "cube":
        d = np.where(((x0 >= 1) & (d > 0)) | ((x0 <= -1) & (d < 0)), 0.0, d)
    if not d.any():
        return val(g, H, x0)
    if shape == "sphere":
        tmax = 1 / np.linalg.norm(d)  # x0 is the center
    else:
        tmax = min(((np.sign(q) - x) / q) for q, x in zip(d, x0) if q != 0)
    a, c = d @ d, d @ H @ d
    t = tmax if c <= 0 else min(tmax, a / c)
    return min(val(g, H, x0), val(g, H, x0 + t * d), val(g, H, x0 + tmax * d))


def inverse_map(region, u):
    """Original coordinates of unit points."""
    n = len(u)
    if region.shape == "sphere":
        return np.asarray(region.center) + u * float(region.radius)
    lo, up = box(region, n)
    return 0.5 * (lo + up) + 0.5 * (up - lo) * u


# ------------------------------------------------------------------------------ oracle
def judge(sol, model, region, solver, mon, opts=None, pre="", quality=True, stat=None):
    a, g, h = models.parts(model)
    g, H = g[0], h[0]
    n = len(g)
    shape = region.shape
    u, x = np.asarray(sol.x_unit, float), np.asarray(sol.x, float)
    d = lambda: (f"solver {solver} {opts}, shape {shape}, center {np.asarray(region.center).tolist()}, radius {region.radius}, bounds "
                 f"{[q.tolist() for q in limits(region, n)]}, g {g.tolist()}, H {H.tolist()}, intercept {a}, result {sol}")
    ok = u.shape == (n,) and x.shape == (n,) and np.isfinite(u).all() and np.isfinite(x).all() and np.isfinite(sol.expected_improvement)
    if not mon.expect(ok, pre + "form", d):
        return
    mon.count("solved")
    mon.count(shape)
    mon.expect(sol.shape == shape, pre + "shape", d)
    lo, up = limits(region, n)
    mon.expect((x >= lo).all() and (x <= up).all(), pre + "within_bounds", d)
    tol = 0.1 if solver in ("gqtpar", "gqtpar_fast") else 0.0
    if opts and tol:
        tol = max(opts.get("k_easy", 0.1), 0.0)
    big = np.abs(region.center).max() + region.radius
    if shape == "sphere":
        mon.expect(np.linalg.norm(u) <= 1 + tol + 1e-8 + 1e-14 * big / region.radius, pre + "within_sphere", d)
        half = np.full(n, float(region.radius))
        u0 = np.zeros(n)
    else:
        mon.expect((np.abs(u) <= 1.0).all(), pre + "within_cube", d)
        blo, bup = box(region, n)
        half = 0.5 * (bup - blo)
        mon.expect((x >= blo - 1e-9 * half - 1e-14 * big).all() and (x <= bup + 1e-9 * half + 1e-14 * big).all(), pre + "within_box", d)
        u0 = (np.asarray(region.center) - 0.5 * (blo + bup)) / half
    mon.expect((np.abs(x - inverse_map(region, u)) <= 1e-9 * half + 1e-13 * big).all(), pre + "coordinates_agree", d)
    # decrease predicted by the model between the current point and the candidate
    v, mag = models.evaluate(model, np.array([u0, u]))
    dec = v[0, 0] - v[1, 0]
    slack = 1e-11 * (mag.sum() + abs(a[0])) + 1e-9 * (big / half).max() * 1e-4 * (np.abs(g).sum() + np.abs(H).sum())
    ei = float(sol.expected_improvement)
    mon.expect(ei >= 0, pre + "nonnegative_improvement", d)
    mon.expect(abs(ei - dec) <= slack, pre + "improvement_is_model_decrease", lambda: d() + f"; model decrease {dec}")
    base = val(g, H, u0)
    if not quality or solver not in ("gqtpar", "gqtpar_fast", "bntr", "bntr_fast") or (opts and set(opts) - {"k_easy"}):
        return
    if not np.any(g):
        mon.count("zero_gradient_skipped")
        return
    size = np.abs(g).max() + np.abs(H).max()
    noise = 1e-9 * (np.abs(g).sum() + np.abs(H).sum()) + slack
    ca = base - cauchy(g, H, u0, shape)
    if ca > noise:
        mon.count("cauchy_compared")
        lim = 0.8 if shape == "sphere" else (CAUCHY if size > 0.1 else -1.0)  # absolute gradient tolerance of bntr: 1e-8
        if stat is not None:
            stat.append(("cauchy", dec / ca))
        mon.expect(dec >= lim * ca, pre + "cauchy_decrease", lambda: d() + f"; decrease {dec}, best gradient step {ca}")
    if shape == "sphere":
        o, hard = sphere_opt(g, H)
        if hard:
            mon.count("hard_case")
        if base - o > noise :
            mon.count("optimum_compared")
            mon.expect(dec >= 0.8 * (base - o), pre + "near_global_optimum", lambda: d() + f"; decrease {dec}, possible {base - o}")
    else:
        w = np.linalg.eigvalsh(H)
        if w[0] > 0 and w[-1] / w[0] <= 10 and size > 0.1:
            o = cube_convex_opt(g, H)
            if base - o > max(noise, 1e-6 * size):
                mon.count("optimum_compared")
                if stat is not None:
                    stat.append(("convex", dec / (base - o)))
                mon.expect(dec >= CONVEX * (base - o), pre + "near_convex_optimum", lambda: d() + f"; decrease {dec}, possible {base - o}")


def random_model(rng, n, region, kind):
    from tranquilo.models import ScalarModel

    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    ev = dict(pd=rng.uniform(0.3, 3, n), psd=np.r_[0.0, rng.uniform(0.3, 3, n - 1)], ill=10.0 ** rng.uniform(-4, 2, n), lin=np.zeros(n),
              indef=rng.normal(size=n), nd=-rng.uniform(0.3, 3, n), flat=rng.uniform(1e-3, 1e-2, n), diag=rng.normal(size=n), hard=rng.normal(size=n))[kind]
    if kind == "diag":
        Q = np.eye(n)
    H = Q @ np.diag(ev) @ Q.T
    H = 0.5 * (H + H.T)
    g = rng.normal(size=n) * 10.0 ** rng.uniform(-3, 2)
    if kind == "hard":  # gradient orthogonal to the leading eigenvector
        v = Q[:, np.argmin(ev)]
        g = g - v * (v @ g)
        g *= 0.3 / max(np.linalg.norm(g), 1e-300)
        if n == 1:
            g = np.array([0.5])
    if kind == "pd" and rng.random() < 0.3:
        g = H @ rng.uniform(-0.9, 0.9, n)  # minimum inside
    if rng.random() < 0.1:
        g[rng.random(n) < 0.5] = 0.0
    mag = 10.0 ** int(rng.integers(-4, 5) if rng.random() < 0.8 else rng.integers(5, 14))
    return ScalarModel(intercept=float(gen.pick(rng, 0.0, 1.0, -100.0)) * mag, linear_terms=g * mag, square_terms=H * mag,
                       shift=region.effective_center, scale=region.effective_radius)


def direct(rng, mon):
    from tranquilo.solve_subproblem import get_subsolver

    for _ in range(5):
        n = int(rng.integers(1, 8))
        shape = gen.pick(rng, "sphere", "cube")
        region, _k = make_region(rng, n=n, shape=shape)
        half = np.min(np.asarray(region.effective_radius))
        if region.shape != shape or half <= 1e-9 * (np.abs(region.center).max() + region.radius):
            continue
        kind = gen.pick(rng, "pd", "pd", "psd", "ill", "lin", "indef", "nd", "flat", "diag", "hard")
        model = random_model(rng, n, region, kind)
        if not np.any(model.linear_terms) and shape == "sphere":
            continue
        if shape == "cube":
            u0 = region.map_to_unit(region.center)
            if (np.abs(u0) == 1).all():
                mon.count("start_at_corner")
        names = SPHERE if shape == "sphere" else CUBE
        for name in [names[0], names[1], gen.pick(rng, *names[2:])]:
            if name == "fallback_multistart" and rng.random() < 0.8:
                name = "fallback_cube"
            opts = None
            if rng.random() < 0.3:
                opts = {}
                if name.startswith("bntr"):
                    opts = gen.pick(rng, dict(conjugate_gradient_method="steihaug_toint"), dict(conjugate_gradient_method="trsbox"), dict(maxiter=3),
                                    dict(maxiter=40, maxiter_gradient_descent=2))
                if name.startswith("gqtpar"):
                    opts = gen.pick(rng, dict(k_easy=1e-3), dict(maxiter=3), dict(k_easy=0.01, k_hard=0.01, maxiter=60))
                    if set(opts) == {"k_easy"}:
                        opts = dict(k_easy=1e-3, maxiter=60)
            before = models.copy_of(model)
            ctr, rad = np.array(region.center), region.radius
            sol = get_subsolver(name if shape == "sphere" else "gqtpar", name if shape == "cube" else "bntr", False, user_options=opts)(
                model=model, trustregion=region)
            mon.count("evaluations")
            mon.expect(models.same(before, model) and np.array_equal(ctr, region.center) and rad == region.radius, "inputs_unchanged",
                       lambda: f"{name} {opts} {before} {model}")
            judge(sol, model, region, name, mon, opts)
            mon.sig(name, tuple((opts or {}).items()), kind, n, _k)


def cube_global(g, H):
    """Global minimum over the unit cube: best stationary point of all faces."""
    best = 0.0
    for face in itertools.product((-1, 0, 1), repeat=len(g)):
        x = np.array(face, float)
        free = x == 0
        if free.any():
            try:
                x[free] = np.linalg.solve(H[np.ix_(free, free)], -(g[free] + H[np.ix_(free, ~free)] @ x[~free]))
            except np.linalg.LinAlgError:
                continue
            if np.abs(x).max() > 1:
                continue
        best = min(best, val(g, H, x))
    return best


def multistart(rng, mon):
    """The multistart solver returns the best of many local searches: in up to three dimensions the global minimum."""
    from tranquilo.solve_subproblem import get_subsolver

    solve = get_subsolver("gqtpar", "fallback_multistart", False)
    for _ in range(3):
        n = int(rng.integers(1, 4))
        region, _k = make_region(rng, n=n, shape="cube")
        half = np.min(np.asarray(region.effective_radius))
        kind = gen.pick(rng, "pd", "indef", "nd", "diag", "hard")
        model = random_model(rng, n, region, kind)
        g, H = np.asarray(model.linear_terms), np.asarray(model.square_terms)
        size = np.abs(g).max() + np.abs(H).max()
        if region.shape != "cube" or half <= 1e-9 * (np.abs(region.center).max() + region.radius) or not 0.1 < size < 1e6:
            continue
        sol = solve(model=model, trustregion=region)
        judge(sol, model, region, "fallback_multistart", mon)
        gap = val(g, H, np.asarray(sol.x_unit, float)) - cube_global(g, H)
        mon.count("multistart_compared")
        mon.expect(gap <= 0.01 * size, "multistart_global", lambda: f"g {g.tolist()} H {H.tolist()} {sol}: {gap} above the minimum")
        mon.sig("fallback_multistart", kind, n, _k)


def stat(rng, mon):
    """Single models may fall short of the best gradient step; more than a few must not."""
    from tranquilo.solve_subproblem import get_subsolver

    for name in ("bntr", "bntr_fast"):
        seen = []
        solve = get_subsolver("gqtpar", name, False)
        while len([1 for k, _ in seen if k == "cauchy"]) < 120:
            n = int(rng.integers(2, 7))
            region, _k = make_region(rng, n=n, shape="cube", decades=(-1, 1))
            half = np.min(np.asarray(region.effective_radius))
            if region.shape != "cube" or half <= 1e-6 * (np.abs(region.center).max() + region.radius):
                continue
            model = random_model(rng, n, region, gen.pick(rng, "pd", "pd", "pd", "indef", "lin", "psd", "nd"))
            if np.abs(model.linear_terms).max() < 0.5:
                continue
            judge(solve(model=model, trustregion=region), model, region, name, mon, stat=seen)
        for k, lim in (("cauchy", 0.9), ("convex", 0.95)):
            q = np.array([r for kk, r in seen if kk == k])
            mon.count("stat_" + k, len(q))
            mon.expect((q < lim).mean() <= 0.05, "usual_quality_" + k, lambda: f"{name}: share below {lim}: {(q < lim).mean()}, lowest {np.sort(q)[:10]}")


def fallback(rng, mon):
    from tranquilo.solve_subproblem import get_subsolver

    for _ in range(4):
        n = int(rng.integers(1, 6))
        shape = gen.pick(rng, "sphere", "cube")
        region, _k = make_region(rng, n=n, shape=shape, decades=(-2, 2))
        half = np.min(np.asarray(region.effective_radius))
        if region.shape != shape or half <= 1e-7 * (np.abs(region.center).max() + region.radius):
            continue
        model = random_model(rng, n, region, gen.pick(rng, "pd", "psd", "indef", "lin"))
        exc = gen.pick(rng, ValueError, ZeroDivisionError, np.linalg.LinAlgError, RuntimeError, KeyError)
        calls = []

        def bad(model, x_candidate, lower_bounds=None, upper_bounds=None):
            calls.append("bad")
            raise exc("solver failed")

        other = lambda model, x_candidate, lower_bounds=None, upper_bounds=None: calls.append("other") or dict(x=x_candidate, success=True, n_iterations=0)
        other.__name__ = "other"
        pair = dict(sphere_solver=bad, cube_solver=other) if shape == "sphere" else dict(sphere_solver=other, cube_solver=bad)
        calls.clear()
        sol = get_subsolver(**pair, retry_with_fallback=True)(model=model, trustregion=region)
        mon.expect(calls == ["bad"], "right_solver_called", lambda: f"{calls} {shape}")
        mon.count("fallback_used")
        judge(sol, model, region, "fallback", mon, pre="fallback_")
        # the fallback solver makes progress from the current point if the model is of normal size
        g = np.asarray(model.linear_terms)
        u0 = region.map_to_unit(np.asarray(region.center))
        ca = val(g, model.square_terms, u0) - cauchy(g, model.square_terms, u0, shape)
        if 1e-2 < np.abs(g).max() < 1e3 and ca > 0.1 * np.abs(g).max():
            mon.expect(sol.expected_improvement > 0, "fallback_progress", lambda: f"{model} {region} {sol}")
        try:
            sol = get_subsolver(**pair, retry_with_fallback=False)(model=model, trustregion=region)
            mon.violate("fallback_used_although_disabled", f"{shape} {sol}")
        except exc:
            mon.count("fallback_disabled_raised")
        # a solver that does not raise is used as it is
        u0 = np.asarray(region.map_to_unit(region.center))
        kind = gen.pick(rng, "improving", "worse", "barely_worse", "outside", "stay")
        grad = g + model.square_terms @ u0
        if kind == "improving":
            target = u0 - 1e-3 * grad / max(np.abs(grad).max(), 1e-300)
            target = np.clip(target, -1, 1)
        elif kind == "worse":
            target = np.clip(u0 + 1e-3 * grad / max(np.abs(grad).max(), 1e-300), -1, 1)
        elif kind == "barely_worse":  # within rounding distance of the current value
            target = np.clip(u0 + 10.0 ** rng.uniform(-14, -6) * grad / max(np.abs(grad).max(), 1e-300), -1, 1)
            mon.count("barely_worse")
        elif kind == "outside":
            target = u0 - 50 * grad / max(np.abs(grad).max(), 1e-300)
        else:
            target = u0.copy()

        found, steps = bool(rng.random() < 0.6), int(rng.integers(0, 30))

        def mine(model, x_candidate, lower_bounds=None, upper_bounds=None):
            calls.append((np.array(x_candidate), lower_bounds, upper_bounds))
            return dict(x=target.copy(), criterion=0.0, n_iterations=steps, success=found)

        if kind == "outside" and shape == "sphere":
            continue
        pair = dict(sphere_solver=mine, cube_solver=other) if shape == "sphere" else dict(sphere_solver=other, cube_solver=mine)
        calls.clear()
        sol = get_subsolver(**pair, retry_with_fallback=bool(rng.random() < 0.5))(model=model, trustregion=region)
        mon.expect(len(calls) == 1 and calls[0] != "other" and np.allclose(calls[0][0], u0, rtol=0, atol=1e-9), "start_at_current_point", lambda: f"{calls} {u0}")
        if shape == "cube" and calls[0][1] is not None:
            mon.expect((np.asarray(calls[0][1]) == -1).all() and (np.asarray(calls[0][2]) == 1).all(), "unit_bounds_passed", lambda: f"{calls}")
        judge(sol, model, region, "user", mon, pre="user_")
        want = np.clip(target, -1, 1) if shape == "cube" else target
        v, mag = models.evaluate(model, np.array([u0, want]))
        dec = v[0, 0] - v[1, 0]
        if kind == "outside":
            mon.count("infeasible_user_point")
        lo, up = limits(region, n)
        xw = inverse_map(region, want)
        inside = (xw >= lo).all() and (xw <= up).all()
        if dec > 1e-10 * mag.sum() and (inside or shape == "cube"):
            mon.count("user_solver_kept")
            mon.expect(np.allclose(sol.x_unit, want, rtol=0, atol=1e-9), "user_solution_used", lambda: f"{kind} {want} {sol}")
            mon.expect(bool(sol.success) == found, "success_as_reported", lambda: f"{kind}: solver reported {found}; {sol}")
            mon.expect(sol.n_iterations == steps, "iterations_as_reported", lambda: f"{kind}: solver reported {steps}; {sol}")
            mon.count("reported_failure", not found)
        elif dec < -1e-10 * mag.sum():
            mon.expect(np.allclose(sol.x, region.center, rtol=0, atol=1e-9 * region.radius) and sol.expected_improvement == 0, "no_step_if_worse", lambda: f"{want} {sol}")
            mon.expect(not sol.success, "no_success_if_worse", lambda: f"{want} {sol}")


def run(rng, mon):
    flaky = rng.random() < 0.4
    cfg = gen.make_config(rng, maxiter=12, maxfun=150, kind=gen.pick(rng, "q", "q", "nl", "rosen", "step", "large", "neg"))
    o = cfg["options"]
    o.setdefault("sphere_subsolver", "gqtpar_fast")
    o.setdefault("cube_subsolver", "bntr_fast")
    if flaky:
        rate = float(gen.pick(rng, 0.3, 1.0))
        base = trace.observed_components

        def wrap(t, cfg):
            out = base(t, cfg)
            import functools

            for k in ("sphere_subsolver", "cube_subsolver"):
                def deco(f):
                    @functools.wraps(f)
                    def solver(*a, **kw):
                        ev_before = len(t.events)
                        if rng.random() < rate:
                            t.events.append(("solve", dict(shape=None, model=kw.get("model"), raised=True)))
                            raise RuntimeError("injected")
                        return f(*a, **kw)
                    return solver
                out[k] = deco(out[k])
            return out

        trace.observed_components = wrap
        try:
            t = trace.run_traced(cfg, only=("sphere_subsolver", "cube_subsolver", "acceptance_decider"))
        finally:
            trace.observed_components = base
    else:
        t = trace.run_traced(cfg, only=("sphere_subsolver", "cube_subsolver", "acceptance_decider"))
    last = None
    seen = set()
    for kind, ev in t.events:
        if kind == "solve":
            last = ev
        elif kind == "accept" and last is not None and last["model"] is not None:
            state, sol = ev["state"], ev["sol"]
            if id(sol) in seen:
                continue
            seen.add(id(sol))
            region = state.trustregion
            half = np.min(np.asarray(region.effective_radius))
            if half <= 1e-9 * (np.abs(region.center).max() + region.radius):
                last = None
                continue
            name = o["sphere_subsolver"] if region.shape == "sphere" else o["cube_subsolver"]
            if last["raised"]:
                name = "fallback"
                mon.count("run_fallbacks")
            mon.count("run_solutions")
            judge(sol, last["model"], region, name, mon, o.get("subsolver_options"), pre="run_", quality=np.any(models.parts(last["model"])[1]))
            mon.sig("run", name, region.shape, len(sol.x))
            last = None
