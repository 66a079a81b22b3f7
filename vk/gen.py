"""Generators for problems and configurations of optimization runs.

A configuration is a plain dict; `Problem(cfg)` rebuilds the criterion from it, so that a
case is reproducible from (seed, group, index) alone.
"""
import zlib

import numpy as np

FUNCTYPES = ("scalar", "least_squares", "likelihood")


class Fail(Exception):
    pass


class Problem:
    """A criterion with a chosen shape, noise and failure pattern.

    Stateful only through a call counter; the first n_safe calls never fail.
    """

    def __init__(self, cfg):
        p = cfg["problem"]
        self.p = p
        rng = np.random.default_rng(p["seed"])
        n, m = p["n"], p["m"]
        self.A = rng.normal(size=(m, n)) / np.sqrt(n)
        if m >= n:
            self.A[:n] += np.eye(n)
        self.x0 = np.asarray(cfg["x0"], dtype=float)
        self.w = max(np.abs(self.x0).max(), 1e-300) if np.any(self.x0) else 1.0
        # distance of the optimum from the start, in units of the start's scale
        self.t = self.x0 + p["dist"] * self.w * rng.uniform(-1, 1, n)
        self.c = p.get("resid", 0.0) * rng.normal(size=m)
        self.noise_rng = np.random.default_rng(p["seed"] + 17)
        self.fail_rng = np.random.default_rng(p["seed"] + 18)
        self.calls = 0
        self.functype = cfg["functype"]

    def base(self, x):
        p = self.p
        r = self.A @ ((x - self.t) / self.w) + self.c
        kind = p["kind"]
        if kind == "nl":
            r = r + 0.3 * np.sin(3 * (x - self.t) / self.w).sum()
        elif kind == "rosen":
            z = (x - self.t) / self.w
            r = r + 0.5 * np.sum(z**2)
        elif kind == "const":
            r = np.ones(len(r))
        elif kind == "step":
            r = np.floor(4 * r)
        elif kind == "huge":
            r = r * 1e50
        elif kind == "large":
            r = r * 1e6
        elif kind == "tiny":
            r = r * 1e-12
        elif kind == "neg":  # unbounded below for scalar functions
            r = r * 0.1
        return r

    def value(self, x):
        r = self.base(x)
        if self.functype == "scalar":
            if self.p["kind"] == "neg":
                return float(np.sum((x - self.t) / self.w))
            return float(r @ r) + self.p.get("offset", 0.0)
        if self.functype == "likelihood":
            return r**2 + self.p.get("offset", 0.0)
        return r

    def __call__(self, x):
        self.calls += 1
        p = self.p
        k = self.calls
        x = np.asarray(x)
        v = self.value(x)
        if p.get("noise"):
            e = self.noise_rng.normal(size=np.shape(v))
            v = v + p["noise"] * e
            if self.functype == "scalar":
                v = float(v)
        fail = p.get("fail")
        if fail and k > p.get("n_safe", 1):
            v = self._fail(fail, x, v, k)
        if p.get("as_list") and self.functype != "scalar":
            v = [float(q) for q in v]
        if p.get("mutate"):
            x[...] = np.nan
        return v

    def _fail(self, fail, x, v, k):
        kind, rate = fail
        if kind in ("exc", "nan", "inf", "ninf", "elnan", "elinf", "elboth", "all_exc", "mix"):
            hit = self.fail_rng.random() < rate
            if kind == "all_exc":
                hit = k > 1 + rate
        elif kind in ("exc_x", "nan_x", "inf_x", "elinf_x"):
            # determined by the point, independent of the order of evaluations
            h = zlib.crc32(np.ascontiguousarray(x).tobytes()) / 2**32
            hit = h < rate
            kind = kind[:-2]
        elif kind in ("exc_reg", "nan_reg", "inf_reg"):
            d = (x - self.x0) @ (self.t - self.x0)
            hit = d > rate * max((self.t - self.x0) @ (self.t - self.x0), 1e-300)
            kind = kind[:-4]
        else:
            raise AssertionError(kind)
        if not hit:
            return v
        if kind == "mix":
            kind = ("exc", "nan", "inf", "elnan", "elinf", "ninf")[int(self.fail_rng.integers(6))]
        if kind in ("exc", "all_exc"):
            raise (Fail, ValueError, ZeroDivisionError, np.linalg.LinAlgError)[k % 4](f"fail {k}")
        scal = self.functype == "scalar"
        if kind == "nan":
            return np.nan if scal else np.full(np.shape(v), np.nan)
        if kind == "inf":
            return np.inf if scal else np.full(np.shape(v), np.inf)
        if kind == "ninf":
            return -np.inf if scal else np.full(np.shape(v), -np.inf)
        bad = np.nan if kind == "elnan" or (kind == "elboth" and k % 2) else np.inf
        if scal:
            return bad
        v = np.array(v, dtype=float)
        v[k % len(v)] = bad
        if kind == "elboth":
            v[(k + 1) % len(v)] = -np.inf
        return v


def pick(rng, *a):
    return a[int(rng.integers(len(a)))]


BOUNDS = ("none", "loose", "tight", "tiny", "mixed", "edge", "corner", "onesl", "onesu",
          "justout", "huge", "partial")


def make_bounds(rng, kind, x0, w, radius):
    n = len(x0)
    if kind == "none":
        return {}
    if kind == "loose":
        return dict(lower_bounds=x0 - 100 * w, upper_bounds=x0 + 100 * w)
    if kind == "huge":
        return dict(lower_bounds=np.full(n, -1e12), upper_bounds=np.full(n, 1e12))
    if kind == "tight":
        return dict(lower_bounds=x0 - 0.2 * w * rng.uniform(0.01, 1, n),
                    upper_bounds=x0 + 0.2 * w * rng.uniform(0.01, 1, n))
    if kind == "tiny":
        s = 10.0 ** rng.uniform(-6, -2)
        return dict(lower_bounds=x0 - s * w * rng.uniform(0.01, 1, n),
                    upper_bounds=x0 + s * w * rng.uniform(0.01, 1, n))
    if kind == "mixed":
        return dict(lower_bounds=np.where(rng.random(n) < 0.5, -np.inf, x0 - 0.3 * w * rng.uniform(0.01, 1, n)),
                    upper_bounds=np.where(rng.random(n) < 0.5, np.inf, x0 + 0.3 * w * rng.uniform(0.01, 1, n)))
    if kind == "partial":
        lo = np.full(n, -np.inf)
        lo[0] = x0[0] - w * rng.uniform(0, 0.5)
        return dict(lower_bounds=lo, upper_bounds=np.full(n, np.inf))
    if kind == "edge":
        return dict(lower_bounds=x0.copy(), upper_bounds=x0 + w * 3)
    if kind == "corner":
        up = rng.random(n) < 0.5
        return dict(lower_bounds=np.where(up, x0 - w, x0), upper_bounds=np.where(up, x0, x0 + w))
    if kind == "onesl":
        return dict(lower_bounds=x0 - w * 0.3 * rng.uniform(0, 1, n))
    if kind == "onesu":
        return dict(upper_bounds=x0 + w * 0.3 * rng.uniform(0, 1, n))
    if kind == "justout":
        # bounds just outside the initial sphere, where solver tolerances matter
        f = rng.uniform(1.00001, 1.12, n)
        return dict(lower_bounds=x0 - radius * f, upper_bounds=x0 + radius * f[::-1])
    raise AssertionError(kind)


def make_config(rng, *, functype=None, n=None, kind=None, bounds=None, noisy=None, fail=None,
                noise=None, defaults=False, maxfun=None, maxiter=None, components=True, n_max=5,
                slow_ok=False, **force):
    """Draw a configuration. kwargs fix single dimensions; `force` are optimizer options."""
    ft = functype or pick(rng, "scalar", "least_squares", "least_squares", "likelihood")
    n = n or int(rng.integers(1, n_max + 1))
    kind = kind or pick(rng, "q", "q", "q", "nl", "rosen", "const", "step", "huge", "large", "tiny", "neg")
    if noisy is None:
        noisy = bool(rng.random() < 0.3)
    if noisy and kind in ("huge", "tiny"):
        kind = "q"
    x0 = rng.normal(size=n) * 10.0 ** rng.integers(-2, 3)
    if rng.random() < 0.1:
        x0 = np.round(x0)  # zeros and repeated entries
    w = np.abs(x0).max()
    w = w if w > 0 else 1.0
    problem = dict(seed=int(rng.integers(2**31)), n=n, m=n + int(rng.integers(0, 4)), kind=kind,
                   dist=float(pick(rng, 0.05, 0.5, 2.0, 10.0)), resid=float(pick(rng, 0.0, 0.0, 0.5)),
                   offset=float(pick(rng, 0.0, 0.0, 1.0, -3.0)))
    if ft == "likelihood" and rng.random() < 0.3:
        problem["m"] = int(rng.integers(1, 4))
    if ft != "scalar" and rng.random() < 0.08:
        problem["m"] = 1
    if noise is None:
        noise = float(pick(rng, 0.001, 0.05, 0.3)) if (noisy and rng.random() < 0.85) else 0.0
    problem["noise"] = noise
    if fail:
        problem["fail"] = fail
    o = {}
    o["seed"] = int(rng.integers(1, 2**31))
    o["stopping_max_iterations"] = int(maxiter if maxiter is not None else pick(rng, 3, 8, 15, 30))
    o["stopping_max_criterion_evaluations"] = int(maxfun if maxfun is not None else pick(rng, 30, 80, 200, 400))
    o["noisy"] = noisy
    radius = 0.1 * (w if np.any(x0) else 1.0)
    if not defaults:
        if rng.random() < 0.35:
            radius = float(w * 10.0 ** rng.uniform(-3, 1))
            o["radius_options"] = dict(initial_radius=radius)
            if rng.random() < 0.5:
                o["radius_options"].update(
                    shrinking_factor=float(pick(rng, 0.25, 0.5, 0.8)),
                    expansion_factor=float(pick(rng, 1.5, 2.0, 4.0)),
                    large_step=float(pick(rng, 0.2, 0.5, 0.9)),
                    rho_decrease=float(pick(rng, 0.05, 0.1, 0.3)),
                    rho_increase=float(pick(rng, 0.1, 0.3, 0.7)),
                )
            if rng.random() < 0.3:
                o["radius_options"].update(min_radius=float(radius * pick(rng, 0.1, 0.5, 1e-3)),
                                           max_radius=float(radius * pick(rng, 1.0, 3.0, 10.0)))
            if rng.random() < 0.15:
                o["radius_options"]["max_radius_to_step_ratio"] = float(pick(rng, 1.5, 4.0))
        o["batch_size"] = pick(rng, None, None, 1, 2, 3, 4, 5, 7)
        if components:
            o["sampler"] = pick(rng, "optimal_hull", "optimal_hull", "random_hull", "random_interior")
            if rng.random() < 0.25:
                o["sampler_options"] = dict(distribution=pick(rng, "normal", "uniform"),
                                            criterion=pick(rng, None, "distance", "determinant"),
                                            hardness=float(pick(rng, 0.5, 1.0, 5.0)),
                                            n_points_randomsearch=int(pick(rng, 1, 3)))
            o["sample_filter"] = pick(rng, None, None, "discard_all", "keep_all", "clustering", "drop_excess")
            if rng.random() < 0.25:
                o["sample_filter_options"] = dict(n_max_factor=int(pick(rng, 1, 2, 3)),
                                                  strictness=float(pick(rng, 1e-10, 1e-3, 0.1)))
            o["model_fitter"] = pick(rng, None, None, None, "ols", "ridge", "powell", "tranquilo")
            if rng.random() < 0.25:
                o["residualize"] = bool(rng.random() < 0.5)
            if rng.random() < 0.2:
                o["model_fitter_options"] = dict(l2_penalty_linear=float(pick(rng, 0.0, 0.01)),
                                                 l2_penalty_square=float(pick(rng, 0.01, 0.1, 1.0)))
            sphere = ["gqtpar_fast", "gqtpar_fast", "gqtpar", "fallback_inscribed_cube"]
            cube = ["bntr_fast", "bntr_fast", "bntr", "fallback_cube"]
            if slow_ok:
                sphere += ["fallback_reparametrized", "fallback_norm_constraint"]
                cube += ["fallback_multistart"]
            o["sphere_subsolver"] = pick(rng, *sphere)
            o["cube_subsolver"] = pick(rng, *cube)
            if rng.random() < 0.25:
                o["subsolver_options"] = dict(
                    conjugate_gradient_method=pick(rng, "cg", "steihaug_toint", "trsbox"),
                    maxiter=int(pick(rng, 5, 20, 50)), k_easy=float(pick(rng, 0.1, 1e-3)))
            o["acceptance_decider"] = (pick(rng, None, "noisy", "naive_noisy") if noisy
                                       else pick(rng, None, None, "classic", "classic_line_search",
                                                 "classic_line_search"))
            if rng.random() < 0.3:
                o["acceptance_decider_options"] = dict(
                    min_improvement=float(pick(rng, 0.0, 1e-10, 1e-2)),
                    n_min=int(pick(rng, 1, 2, 4)), n_max=int(pick(rng, 5, 10, 20)),
                    power_level=float(pick(rng, 0.5, 0.8, 0.95)),
                    speculative_sampling_radius_factor=float(pick(rng, 0.5, 0.75, 1.0)))
        if noisy and rng.random() < 0.5:
            mn = int(pick(rng, 1, 2, 3))
            o["noise_adaptation_options"] = dict(
                rho_noise_n_draws=int(pick(rng, 3, 10)), min_n_evals=mn,
                max_n_evals=int(pick(rng, mn, mn + 1, 8)))
        if rng.random() < 0.25:
            o["stagnation_options"] = dict(
                min_relative_step=float(pick(rng, 0.0, 0.05, 0.3)),
                min_relative_step_keep=float(pick(rng, 0.0, 0.125, 0.6)),
                sample_increment=int(pick(rng, 1, 2)), max_trials=int(pick(rng, 1, 3)),
                drop=bool(rng.random() < 0.6))
        if rng.random() < 0.25:
            o["search_radius_factor"] = float(pick(rng, 1.0, 2.0, 8.0))
        if rng.random() < 0.25:
            o["sample_size"] = int(n + 1 + rng.integers(0, 2 * n + 2))
        if rng.random() < 0.15:
            o["n_evals_at_start"] = int(pick(rng, 1, 2, 3, 7))
        if noisy and rng.random() < 0.2:
            o["n_evals_per_point"] = int(pick(rng, 1, 2, 4))
        if rng.random() < 0.3:
            o["disable_convergence"] = True
    if noisy:
        o.setdefault("noise_adaptation_options", dict(rho_noise_n_draws=int(pick(rng, 2, 5))))
        o["stopping_max_criterion_evaluations"] = min(o["stopping_max_criterion_evaluations"], 300)
        o["stopping_max_iterations"] = min(o["stopping_max_iterations"], 12)
    o.update(force)
    if fail:
        # all evaluations of the start point succeed
        ns = o.get("n_evals_at_start") or (5 if noisy else 1)
        bs = o.get("batch_size") or o.get("n_cores") or 1
        problem["n_safe"] = int(-(-ns // bs) * bs) if ns > 1 else 1
    b = bounds or pick(rng, *BOUNDS)
    o.update(make_bounds(rng, b, x0, w, radius))
    o.update(force)
    return dict(functype=ft, x0=x0, problem=problem, options=o, bounds=b)


def describe(cfg):
    o = cfg["options"]
    return dict(functype=cfg["functype"], bounds=cfg["bounds"], problem=cfg["problem"],
                x0=np.asarray(cfg["x0"]).tolist(),
                options={k: (v if not isinstance(v, np.ndarray) else v.tolist()) for k, v in o.items()})


def signature(cfg):
    """What distinguishes one non-trivial configuration from another."""
    o = cfg["options"]
    p = cfg["problem"]
    return (cfg["functype"], p["n"], p["kind"], cfg["bounds"], bool(p.get("noise")), p.get("fail", (None,))[0],
            o.get("batch_size"), o.get("sampler"), o.get("sample_filter"), o.get("model_fitter"),
            o.get("acceptance_decider"), o.get("sphere_subsolver"), o.get("cube_subsolver"), o.get("noisy"))
