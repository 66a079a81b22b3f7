"""Run the real optimizer under observation.

`run_plain` observes only the boundary: criterion calls, batches and the result.
`run_traced` additionally passes user-defined components (a supported feature) that
delegate to the built-in ones and record inputs and outputs.
"""
import copy
import functools
import time

import numpy as np

from vk import core, gen


class Trace:
    def __init__(self, cfg):
        self.cfg = cfg
        self.evals = []  # (x, value or None on exception), in the order of execution
        self.batches = []  # dict(start, stop, n_cores, args, order, error_handling)
        self.events = []  # (kind, dict)
        self.res = None
        self.problem = None
        self.n_evals = 0

    # ---- derived
    @property
    def states(self):
        return self.res["states"]

    @property
    def history(self):
        return self.res["tranquilo_history"]

    @property
    def option(self):
        return self.cfg["options"]

    def of_kind(self, kind):
        return [d for k, d in self.events if k == kind]

    def iterations(self):
        """Split events into iterations; an iteration starts with its filter event."""
        out, cur = [], None
        for k, d in self.events:
            if k == "filter":
                cur = []
                out.append(cur)
            if cur is not None:
                cur.append((k, d))
        return out


class Recorder:
    """Criterion wrapper + batch evaluator."""

    def __init__(self, trace, fun, order="forward", cap=None, order_rng=None, sleep=0.0):
        self.t = trace
        self.fun = fun
        self.order = order
        self.cap = cap
        self.order_rng = order_rng
        self.sleep = sleep
        self.criterion = self._make_criterion()

    def _make_criterion(self):
        def criterion(x):
            t = self.t
            xc = np.array(x, dtype=float, copy=True)
            t.n_evals += 1
            if self.cap is not None and t.n_evals > self.cap:
                raise core.Runaway(f"more than {self.cap} evaluations")
            if self.sleep:
                time.sleep(self.sleep)
            k = len(t.evals)
            t.evals.append((xc, None))
            v = self.fun(x)
            t.evals[k] = (xc, copy.deepcopy(v))
            return v

        return criterion

    def batch_evaluator(self, func, arguments, n_cores=1, error_handling="continue", **kw):
        t = self.t
        n = len(arguments)
        idx = list(range(n))
        if self.order == "reverse":
            idx = idx[::-1]
        elif self.order == "random":
            idx = [int(i) for i in self.order_rng.permutation(n)]
        rec = dict(start=len(t.evals), n=n, n_cores=n_cores, error_handling=error_handling,
                   args=[np.array(a, dtype=float, copy=True) for a in arguments], order=idx,
                   extra=sorted(kw), time=time.monotonic())
        t.batches.append(rec)
        t.events.append(("batch", rec))
        out = [None] * n
        for i in idx:
            try:
                out[i] = func(arguments[i])
            except Exception as e:  # documented behavior of the batch evaluators
                if error_handling != "continue":
                    raise
                out[i] = f"Traceback of a failed evaluation: {e!r}"
        rec["stop"] = len(t.evals)
        rec["time_end"] = time.monotonic()
        # results in the order of the arguments
        pos = {i: rec["start"] + k for k, i in enumerate(idx)}
        rec["raw"] = [t.evals[pos[i]][1] for i in range(n)] if rec["stop"] - rec["start"] == n else None
        rec["at"] = [t.evals[pos[i]][0] for i in range(n)] if rec["raw"] is not None else None
        return out


def default_cap(cfg):
    """Far more evaluations than any justified run needs."""
    return cfg["options"].get("stopping_max_criterion_evaluations", 2000) + 6000


def call(cfg, criterion, batch_evaluator, extra=None):
    from tranquilo.tranquilo import _tranquilo

    o = dict(cfg["options"])
    o.update(extra or {})
    return _tranquilo(functype=cfg["functype"], criterion=criterion, x=cfg["x0"],
                      batch_evaluator=batch_evaluator, **o)


def run_plain(cfg, order="forward", order_rng=None, fun=None, cap=None, sleep=0.0, extra=None):
    t = Trace(cfg)
    t.problem = gen.Problem(cfg) if fun is None else None
    r = Recorder(t, fun or t.problem, order=order, cap=cap or default_cap(cfg), order_rng=order_rng, sleep=sleep)
    t.t0 = time.monotonic()
    t.res = call(cfg, r.criterion, r.batch_evaluator, extra)
    t.t1 = time.monotonic()
    return t


# --------------------------------------------------------------------------------------
# observed components
# --------------------------------------------------------------------------------------
def _n_fun(history):
    return history.get_n_fun()


def _eval_counts(history):
    n = history.get_n_xs()
    if n == 0:
        return np.zeros(0, int)
    d = history.get_fvals(np.arange(n))
    return np.array([len(d[i]) for i in range(n)], dtype=int)


def _c(a):
    return None if a is None else np.array(a, copy=True)


def observed_components(t, cfg):
    from tranquilo.acceptance_decision import get_acceptance_decider
    from tranquilo.estimate_variance import get_variance_estimator
    from tranquilo.filter_points import get_sample_filter
    from tranquilo.handle_infinity import get_infinity_handler
    from tranquilo.options import get_default_sample_filter
    from tranquilo.sample_points import get_sampler
    from tranquilo.subsolvers import bntr, bntr_fast, fallback_subsolvers as fb, gqtpar, gqtpar_fast

    o = cfg["options"]
    out = {}

    # sampler
    _sampler = get_sampler(o.get("sampler", "optimal_hull"), o.get("sampler_options"))

    def sampler(trustregion, n_points, existing_xs, rng):
        before = _c(existing_xs)
        xs = _sampler(trustregion=trustregion, n_points=n_points, existing_xs=existing_xs, rng=rng)
        t.events.append(("sample", dict(trustregion=trustregion, n_points=n_points, existing=before,
                                        existing_after=_c(existing_xs), xs=_c(xs))))
        return xs

    out["sampler"] = sampler
    out["sampler_options"] = None

    # filter
    bs = o.get("batch_size") or 1
    name = o.get("sample_filter") or get_default_sample_filter(bs)
    _filter = get_sample_filter(name, o.get("sample_filter_options"))

    def sample_filter(xs, indices, state, target_size, history, n_evals_per_point):
        ev = dict(xs=_c(xs), indices=_c(indices), state=state, target_size=target_size, name=name,
                  n_evals_per_point=n_evals_per_point, n_fun=_n_fun(history), n_xs=history.get_n_xs(),
                  counts=_eval_counts(history), time=time.monotonic())
        t.events.append(("filter", ev))
        a, b = _filter(xs=xs, indices=indices, state=state, target_size=target_size, history=history,
                       n_evals_per_point=n_evals_per_point)
        ev["out_xs"], ev["out_indices"] = _c(a), _c(b)
        return a, b

    out["sample_filter"] = sample_filter
    out["sample_filter_options"] = None

    # subsolvers (functools.wraps keeps the signature, so that options are passed on)
    solvers = {
        "gqtpar": gqtpar.gqtpar, "gqtpar_fast": gqtpar_fast.gqtpar_fast,
        "bntr": bntr.bntr, "bntr_fast": bntr_fast.bntr_fast,
        "fallback_reparametrized": fb.robust_sphere_solver_reparametrized,
        "fallback_inscribed_cube": fb.robust_sphere_solver_inscribed_cube,
        "fallback_norm_constraint": fb.robust_sphere_solver_norm_constraint,
        "fallback_cube": fb.robust_cube_solver, "fallback_multistart": fb.robust_cube_solver_multistart,
    }

    def observe_solver(f, shape):
        @functools.wraps(f)
        def solver(*args, **kwargs):
            model = kwargs.get("model", args[0] if args else None)
            ev = dict(shape=shape, model=model, raised=True)
            t.events.append(("solve", ev))
            r = f(*args, **kwargs)
            ev["raised"] = False
            ev["x"] = _c(r["x"])
            return r

        return solver

    out["sphere_subsolver"] = observe_solver(solvers[o.get("sphere_subsolver", "gqtpar_fast")], "sphere")
    out["cube_subsolver"] = observe_solver(solvers[o.get("cube_subsolver", "bntr_fast")], "cube")

    # acceptance
    acc_name = o.get("acceptance_decider") or ("noisy" if o.get("noisy") else "classic")
    _accept = get_acceptance_decider(acc_name, o.get("acceptance_decider_options"))

    def acceptance_decider(subproblem_solution=None, state=None, history=None, wrapped_criterion=None,
                           noise_variance=None, search_radius_factor=None, batch_size=None,
                           sample_points=None, rng=None):
        kw = dict(subproblem_solution=subproblem_solution, state=state, history=history,
                  wrapped_criterion=wrapped_criterion, noise_variance=noise_variance,
                  search_radius_factor=search_radius_factor, batch_size=batch_size,
                  sample_points=sample_points, rng=rng)
        kw = {k: v for k, v in kw.items() if v is not None}
        ev = dict(name=acc_name, sol=subproblem_solution, state=state, noise_variance=noise_variance,
                  n_fun=_n_fun(history), n_xs=history.get_n_xs(), counts=_eval_counts(history),
                  fvals_current=_c(history.get_fvals(state.index)), batch_size=batch_size)
        t.events.append(("accept", ev))
        r = _accept(**kw)
        ev.update(result=r, n_fun_after=_n_fun(history), n_xs_after=history.get_n_xs(),
                  counts_after=_eval_counts(history))
        return r

    out["acceptance_decider"] = acceptance_decider

    # variance
    _var = get_variance_estimator(o.get("variance_estimator", "classic"), o.get("variance_estimator_options"))

    def variance_estimator(trustregion, history, model_type):
        r = _var(trustregion=trustregion, history=history, model_type=model_type)
        n = history.get_n_xs()
        t.events.append(("variance", dict(trustregion=trustregion, model_type=model_type, out=copy.deepcopy(r),
                                          n_fun=_n_fun(history), xs=_c(history.get_xs(np.arange(n))),
                                          fvecs={i: _c(v) for i, v in history.get_fvecs(np.arange(n)).items()},
                                          fvals={i: _c(v) for i, v in history.get_fvals(np.arange(n)).items()})))
        return r

    out["variance_estimator"] = variance_estimator
    out["variance_estimator_options"] = None

    # infinity handler
    _clip = get_infinity_handler(o.get("infinity_handler", "relative"))

    def infinity_handler(fvecs):
        before = _c(fvecs)
        r = _clip(fvecs)
        t.events.append(("clip", dict(before=before, after=_c(r))))
        return r

    out["infinity_handler"] = infinity_handler
    return out


def run_traced(cfg, order="forward", order_rng=None, cap=None, fun=None, sleep=0.0, only=None):
    t = Trace(cfg)
    t.problem = gen.Problem(cfg) if fun is None else None
    r = Recorder(t, fun or t.problem, order=order, cap=cap or default_cap(cfg), order_rng=order_rng, sleep=sleep)
    comps = observed_components(t, cfg)
    if only is not None:
        comps = {k: v for k, v in comps.items() if k in only or k.removesuffix("_options") in only}
    t.t0 = time.monotonic()
    t.res = call(cfg, r.criterion, r.batch_evaluator, comps)
    t.t1 = time.monotonic()
    return t


# --------------------------------------------------------------------------------------
# independent reference functions
# --------------------------------------------------------------------------------------
def aggregate(functype, fvec):
    """Scalar objective of one evaluation."""
    v = np.asarray(fvec, dtype=float).reshape(-1)
    if functype == "scalar":
        assert v.size == 1
        return float(v[0])
    if functype == "likelihood":
        # infinities of both signs have no sum, such an evaluation failed
        return float(np.inf if np.isnan(np.sum(v)) else np.sum(v))
    return float(np.sum(v * v))


def recorded_value(raw, m):
    """What has to be stored for the raw return value (None for an exception)."""
    if raw is None:
        return np.full(m, np.inf)
    v = np.asarray(raw, dtype=float).reshape(-1)
    return np.where(np.isnan(v), np.inf, v)


def n_resid(t):
    return 1 if t.cfg["functype"] == "scalar" else t.cfg["problem"]["m"]


def close(a, b, rtol=1e-9, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))))
