import functools
import warnings
from typing import NamedTuple

import numpy as np

from checks.c07 import digest, differs
from vk import core, gen, trace

ID = "C19"
RULE = ("(a) component processing on generated functions (random signatures, own defaults, callable objects, partials), default and user options: "
        "values that arrive in a call against precedence runtime > user > default > own default; (b) invalid settings: exception and zero criterion calls, each "
        "beside a valid control; (c) user components with random subsets of the arguments in real runs; (d) pairs of runs: default settings against all documented "
        "defaults passed explicitly, built-in names against equivalent functions; non-trivial: at least one user option or component; distinct by the options involved")
REQUIRED = {"component_calls": 2500, "option_values": 6000, "converted_values": 300, "redundant_cases": 300, "missing_mandatory": 100, "unknown_options": 100,
            "nameless_callables": 100, "rejected_settings": 150, "control_runs": 60, "user_component_calls": 500, "user_component_runs": 60, "explicit_default_pairs": 60,
            "by_name_pairs": 40, "bundles": 400}
ASSUMPTIONS = ["settings whose values (not names or types) are unreasonable are not covered", "the bounds are consistent and contain the start parameters"]
CASE_TIMEOUT = 60
CHUNK = 6


def plan(tier, seed):
    k = 1 if tier == "quick" else 14
    return ([("component", i) for i in range(90 * k)] + [("bundle", i) for i in range(30 * k)] + [("invalid", i) for i in range(110 * k)]
            + [("user", i) for i in range(90 * k)] + [("explicit", i) for i in range(100 * k)] + [("byname", i) for i in range(60 * k)])


def run_case(group, idx, rng, mon):
    return globals()["g_" + group](idx, rng, mon)


def same(a, b):
    """Equal value and type."""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b


# ------------------------------------------------------------------- option bundles
def random_bundle(rng, n_fields=None):
    n = n_fields or int(rng.integers(1, 7))
    names = list(rng.permutation([f"opt_{c}" for c in "abcdefghijk"])[:n])
    vals = {}
    for k in names:
        vals[str(k)] = gen.pick(rng, 1, 7, 0.5, 2.0, np.inf, True, False, "word", None, 0, 0.0)
    T = NamedTuple("Bundle", [(k, object) for k in vals])
    return T(**vals), vals


def user_value(rng, default):
    """A value and the value it has to become."""
    if default is None:
        v = gen.pick(rng, 3, "s", 1.5, None, (1, 2))
        return v, v
    t = type(default)
    if t is bool:
        v = gen.pick(rng, True, False, 0, 1, 2, np.bool_(True), 0.0)
        return v, bool(v)
    if t is int:
        v = gen.pick(rng, 3, 4.0, "5", np.int64(6), np.float64(7.0), 8.9)
        return v, int(v)
    if t is float:
        v = gen.pick(rng, 3, 4.5, "5.25", np.int64(6), np.float64(7.5), np.float32(0.5), np.inf, "inf", True)
        return v, (v if isinstance(v, float) else float(v))
    v = gen.pick(rng, "x", 3, np.str_("y"))
    return v, (v if isinstance(v, str) else str(v))


def random_user_options(rng, vals, p=0.5):
    user, want = {}, dict(vals)
    for k, d in vals.items():
        if rng.random() < p:
            user[k], want[k] = user_value(rng, d)
    return user, want


def as_user(rng, user):
    """dict or NamedTuple."""
    if rng.random() < 0.35:
        return NamedTuple("User", [(k, object) for k in user])(**user)
    return dict(user)


def g_bundle(idx, rng, mon):
    from tranquilo.options import update_option_bundle

    for _ in range(20):
        mon.count("bundles")
        default, vals = random_bundle(rng)
        user, want = random_user_options(rng, vals)
        u = as_user(rng, user) if rng.random() < 0.85 or user else None
        before = dict(u) if isinstance(u, dict) else u
        out = update_option_bundle(default, user_options=u)
        got = out._asdict()
        mon.expect(set(got) == set(want), "fields", lambda: f"{got} {want}")
        for k in want:
            mon.count("option_values")
            mon.count("converted_values", k in user and type(user[k]) is not type(vals[k]))
            mon.expect(same(got[k], want[k]), "option_value", lambda: f"{k}: {got[k]!r} instead of {want[k]!r}; default {vals[k]!r}, user {user.get(k)!r}")
        mon.expect(default._asdict() == vals and (before == (dict(u) if isinstance(u, dict) else u)), "inputs_unchanged", lambda: f"{default} {u}")
        mon.sig("bundle", tuple(sorted((type(vals[k]).__name__, type(user[k]).__name__) for k in user)))
        # unknown name
        bad = dict(user, **{gen.pick(rng, "opt_z", "OPT_A", "foo", "opt_" + "a" * 3): 1})
        rejected(mon, lambda: update_option_bundle(default, user_options=as_user(rng, bad)), ValueError, "unknown_option", bad)
        mon.count("unknown_options")
        # wrong types
        for k, d in vals.items():
            if type(d) in (int, float):
                v = gen.pick(rng, "word", None, [1, 2], {})
                rejected(mon, lambda: update_option_bundle(default, user_options={k: v}), (TypeError, ValueError), "unconvertible", (k, d, v))
                break


def rejected(mon, f, exc, key, info):
    try:
        r = f()
    except exc as e:
        mon.expect(True, key)
        return e
    except Exception as e:
        mon.expect(False, key, f"{type(e).__name__} instead of {exc} for {info}: {e}")
        return e
    mon.expect(False, key, lambda: f"accepted {info}: {r!r}"[:400])
    return None


# ------------------------------------------------------------------- component processing
class Obj:
    """Callable without __name__."""

    def __init__(self, f):
        self.f = f
        functools.update_wrapper(self, f)
        if "__name__" in self.__dict__:
            del self.__dict__["__name__"]

    def __call__(self, *a, **k):
        return self.f(*a, **k)


def g_component(idx, rng, mon):
    from tranquilo.get_component import get_component

    for _ in range(40):
        default, vals = random_bundle(rng)
        user, want_opts = random_user_options(rng, vals, p=float(gen.pick(rng, 0.0, 0.3, 0.9)))
        runtime = [str(s) for s in rng.permutation(["xs", "state", "rng", "n_points", "history"])[: rng.integers(1, 6)]]
        rt_vals = {k: object() for k in runtime}
        # signature: subset of runtime arguments, options and own optional arguments
        sig_rt = [k for k in runtime if rng.random() < 0.8]
        sig_opt = [k for k in vals if rng.random() < 0.7]
        own = {f"own_{i}": gen.pick(rng, 1, 2.5, "w") for i in range(int(rng.integers(0, 3)))}
        rt_default = {k for k in sig_rt if rng.random() < 0.2}  # own default for a runtime argument
        # order: mandatory positional, optional positional, keyword only
        names = list(rng.permutation(sig_rt + sig_opt + list(own)))
        names = [str(s) for s in names]
        kwonly = {k for k in names if rng.random() < 0.4}
        opt_default = {k: "own" for k in sig_opt if rng.random() < 0.4}
        dflt = {**{k: "own" for k in rt_default}, **opt_default, **own}
        pos = [k for k in names if k not in kwonly and k not in dflt] + [k for k in names if k not in kwonly and k in dflt]
        kws = [k for k in names if k in kwonly]
        src = ", ".join([k + (f"={dflt[k]!r}" if k in dflt else "") for k in pos] + (["*"] if kws else [])
                        + [k + (f"={dflt[k]!r}" if k in dflt else "") for k in kws])
        calls = []
        ns = {"calls": calls}
        exec(f"def fun({src}):\n    calls.append(dict({', '.join(k + '=' + k for k in pos + kws)}))\n    return 'result', len(calls)", ns)
        f = ns["fun"]
        kind = gen.pick(rng, "plain", "name", "object", "partial", "wrapped")
        funcs = {"other": lambda x: x, "third": lambda y: y}
        arg = f
        if kind == "name":
            funcs["the_name"] = f
            arg = "the_name"
        elif kind == "object":
            arg = Obj(f)
        elif kind == "partial":
            arg = functools.partial(f)
        elif kind == "wrapped":
            arg = functools.wraps(f)(lambda *a, **k: f(*a, **k))
        mon.count("nameless_callables", kind in ("object", "partial"))
        roh = gen.pick(rng, "ignore", "warn", "raise", None)
        rah = gen.pick(rng, "ignore", "warn", "raise", None)
        mandatory = [k for k in names if rng.random() < 0.3]
        kw = dict(name_or_func=arg, component_name="comp", func_dict=funcs, default_options=default,
                  user_options=as_user(rng, user) if user or rng.random() < 0.5 else None,
                  mandatory_signature=mandatory if rng.random() < 0.8 else (None if not mandatory else tuple(mandatory)))
        if roh:
            kw["redundant_option_handling"] = roh
        if rah:
            kw["redundant_argument_handling"] = rah
        info = lambda: f"def fun({src}) as {kind}; default {vals}; user {user}; options {roh}, arguments {rah}; runtime {runtime}"
        redundant_opts = [k for k in vals if k not in sig_opt]
        # building
        if roh == "raise" and redundant_opts:
            mon.count("redundant_cases")
            rejected(mon, lambda: get_component(**kw), ValueError, "redundant_option_raises", info())
            continue
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            comp = get_component(**kw)
        if roh == "warn" or redundant_opts:
            mon.count("redundant_cases", bool(redundant_opts))
            mon.expect(bool(w) == (roh == "warn" and bool(redundant_opts)), "redundant_option_warning", lambda: f"{len(w)} warnings; {info()}")
        # missing mandatory
        if rng.random() < 0.3:
            mon.count("missing_mandatory")
            rejected(mon, lambda: get_component(**dict(kw, mandatory_signature=list(mandatory) + ["not_there"])), ValueError, "mandatory", info())
        if rng.random() < 0.15:
            mon.count("unknown_options")
            rejected(mon, lambda: get_component(**dict(kw, user_options=dict(user, zzz=1))), ValueError, "unknown_component_option", info())
        if rng.random() < 0.15:
            rejected(mon, lambda: get_component(**dict(kw, name_or_func="unknown")), ValueError, "unknown_component", info())
            rejected(mon, lambda: get_component(**dict(kw, name_or_func=gen.pick(rng, 3, None, ["other"], 1.5))), TypeError, "component_type", info())
        # calls: all runtime arguments, as the callers do; some by position, some options overridden at runtime
        for rep in range(2):
            given = dict(rt_vals)
            over = [k for k in sig_opt if rng.random() < 0.1]
            for k in over:
                given[k] = "runtime"
            if rt_default and rng.random() < 0.5:
                for k in rt_default:
                    given.pop(k, None)
            redundant_args = [k for k in given if k not in names]
            args = []
            if not (set(redundant_args) and rah == "raise"):
                for k in pos:  # leading runtime arguments by position
                    if rah == "raise" and k in sig_opt:
                        break
                    if k in given and rng.random() < 0.5:
                        args.append(given.pop(k))
                    else:
                        break
            n0 = len(calls)
            if rah == "raise" and redundant_args:
                mon.count("redundant_cases")
                rejected(mon, lambda: comp(*args, **given), TypeError, "redundant_argument_raises", info())
                mon.expect(len(calls) == n0, "called_despite_redundant", info)
                break
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                out = comp(*args, **given)
            mon.count("component_calls")
            mon.count("redundant_cases", bool(redundant_args))
            mon.expect(bool(w) == (rah == "warn" and bool(redundant_args)), "redundant_argument_warning", lambda: f"{len(w)} warnings; {info()}")
            mon.expect(len(calls) == n0 + 1 and out == ("result", n0 + 1), "result_passed_on", info)
            got = calls[-1]
            allgiven = dict(given, **dict(zip(pos, args)))
            for k in names:
                mon.count("option_values")
                if k in allgiven:
                    ok = got[k] is allgiven[k]
                    want = "runtime argument"
                elif k in want_opts:
                    ok = same(got[k], want_opts[k])
                    want = want_opts[k]
                    mon.count("converted_values", k in user and type(user[k]) is not type(vals[k]))
                else:
                    want = dflt[k]
                    ok = got[k] == want
                mon.expect(ok, "argument_value", lambda: f"{k}: {got[k]!r} instead of {want!r}; {info()}")
        mon.sig("component", kind, roh, rah, len(sig_rt), len(sig_opt), len(own), len(user), bool(kwonly))


# ------------------------------------------------------------------- invalid settings
BUNDLES = ("radius_options", "stagnation_options", "noise_adaptation_options", "sampler_options", "sample_filter_options",
           "model_fitter_options", "subsolver_options", "acceptance_decider_options", "variance_estimator_options")
COMPONENTS = {
    "sampler": ["trustregion", "n_points", "existing_xs", "rng"], "sample_filter": [], "model_fitter": ["x", "y", "model_type"],
    "cube_subsolver": ["model", "x_candidate", "lower_bounds", "upper_bounds"], "sphere_subsolver": ["model", "x_candidate"],
    "acceptance_decider": [], "variance_estimator": []}
FIELDS = {
    "radius_options": ["initial_radius", "min_radius", "max_radius", "rho_decrease", "rho_increase", "shrinking_factor", "expansion_factor", "large_step", "max_radius_to_step_ratio"],
    "stagnation_options": ["min_relative_step_keep", "min_relative_step", "sample_increment", "max_trials"],
    "noise_adaptation_options": ["rho_noise_n_draws", "high_rho", "low_rho", "min_share_high_rho", "min_share_low_rho", "min_n_evals", "max_n_evals", "good_rho_threshold"],
    "sampler_options": ["hardness", "n_points_randomsearch"],
    "sample_filter_options": ["strictness", "n_max_factor"],
    "model_fitter_options": ["l2_penalty_linear", "l2_penalty_square", "p_intercept", "p_linear", "p_square"],
    "subsolver_options": ["maxiter", "maxiter_gradient_descent", "gtol_abs", "gtol_rel", "gtol_scaled", "gtol_abs_conjugate_gradient", "gtol_rel_conjugate_gradient", "k_easy", "k_hard"],
    "acceptance_decider_options": ["confidence_level", "power_level", "n_initial", "n_min", "n_max", "min_improvement", "speculative_sampling_radius_factor"],
    "variance_estimator_options": ["max_distance_factor", "min_n_evals"]}


def make_function(args):
    ns = {}
    exec(f"def user_component({', '.join(args)}):\n    raise AssertionError('must not be called')", ns)
    return ns["user_component"]


def invalid_setting(rng, ft, idx, noisy):
    """Returns (description, options to update)."""
    kind = idx % 14
    word = str(gen.pick(rng, "foo", "bntrfast", "random", "classc", "Optimal_Hull", "", "none"))
    if kind in (0, 1):
        c = gen.pick(rng, *COMPONENTS, "infinity_handler", "batch_evaluator")
        return f"unknown name for {c}", {c: word}, Exception
    if kind == 2:
        c = gen.pick(rng, *COMPONENTS, "infinity_handler", "batch_evaluator")
        return f"wrong type for {c}", {c: gen.pick(rng, 3, 1.5, ["ols"], {"a": 1})}, TypeError
    if kind in (3, 4):
        b = gen.pick(rng, *BUNDLES)
        good = gen.pick(rng, *FIELDS[b])
        name = gen.pick(rng, "foo", good + "_", good.upper(), "min_radius_" if b != "x" else "", "n_points_random_search")
        return f"unknown option in {b}", {b: {name: 1}}, ValueError
    if kind == 5:
        b = gen.pick(rng, *BUNDLES)
        return f"wrong type of {b}", {b: gen.pick(rng, 3, [1], "abc", ("a", 1))}, Exception
    if kind in (6, 7):
        b = gen.pick(rng, *BUNDLES)
        return f"wrong type in {b}", {b: {gen.pick(rng, *FIELDS[b]): gen.pick(rng, "abc", None, [1, 2], {})}}, (TypeError, ValueError)
    if kind == 8:
        name = gen.pick(rng, "foo", "max_iter", "stopping_max_iteration", "samplers", "subsolver", "Noisy", "tol", "trustregion")
        return f"unknown keyword {name}", {name: 1}, TypeError
    if kind == 9:
        n = int(rng.integers(2, 6))
        return "batch_size below n_cores", {"n_cores": n, "batch_size": int(rng.integers(1, n))}, ValueError
    if kind == 10:
        if rng.random() < 0.5:
            return "unknown model_type", {"model_type": gen.pick(rng, "cubic", "Linear", 3, "")}, ValueError
        return "unsupported model_type", {"model_type": {"scalar": "linear"}.get(ft, "quadratic")}, NotImplementedError
    if kind == 11:
        return "search_radius_factor", {"search_radius_factor": float(gen.pick(rng, 0.0, -1.0, -np.inf))}, ValueError
    if kind == 12:
        if rng.random() < 0.4:
            return "residualize", {"residualize": gen.pick(rng, 1, "yes", 0.0, "True", "no")}, ValueError
        k = gen.pick(rng, "n_evals_at_start", "n_evals_per_point")
        return k, {k: int(gen.pick(rng, 0, -1, -5))}, ValueError
    if kind == 13:
        if rng.random() < 0.5:
            k = gen.pick(rng, "stopping_max_iterations", "stopping_max_criterion_evaluations", "stopping_max_time", "convergence_absolute_criterion_tolerance",
                         "convergence_absolute_gradient_tolerance", "convergence_absolute_params_tolerance", "convergence_relative_criterion_tolerance",
                         "convergence_relative_gradient_tolerance", "convergence_relative_params_tolerance", "convergence_min_trust_region_radius", "n_cores",
                         "sample_size", "search_radius_factor", "n_evals_per_point", "n_evals_at_start")
            v = gen.pick(rng, "abc", [1, 2], {}) if k in ("sample_size", "search_radius_factor", "n_evals_per_point", "n_evals_at_start") else gen.pick(rng, "abc", None, [1, 2])
            return f"wrong type of {k}", {k: v}, (TypeError, ValueError)
        c = gen.pick(rng, *[c for c in COMPONENTS if COMPONENTS[c]])
        drop = gen.pick(rng, *COMPONENTS[c])
        return f"component {c} without {drop}", {c: make_function([a for a in COMPONENTS[c] if a != drop] + ["extra=1"])}, ValueError


def g_invalid(idx, rng, mon):
    cfg = gen.make_config(rng, maxiter=3, maxfun=40, n_max=3, noisy=bool(rng.random() < 0.3))
    if rng.random() < 0.3:
        cfg["options"] = {k: cfg["options"][k] for k in ("seed", "noisy", "stopping_max_iterations", "stopping_max_criterion_evaluations")}
    for j in range(3):
        what, upd, exc = invalid_setting(rng, cfg["functype"], idx * 3 + j, cfg["options"].get("noisy"))
        o = dict(cfg["options"])
        for k, v in upd.items():
            if isinstance(v, dict) and k in BUNDLES and isinstance(o.get(k), dict):
                v = dict(o[k], **v)
            o[k] = v
        if "n_cores" in upd and upd.get("n_cores") == "abc":
            o.pop("batch_size", None)
        n = [0]
        fun = gen.Problem(cfg)

        def criterion(x):
            n[0] += 1
            return fun(x)

        def evaluator(func, arguments, n_cores=1, error_handling="continue", **kw):
            return [func(a) for a in arguments]

        be = o.pop("batch_evaluator", evaluator)
        e = rejected(mon, lambda: trace.call(dict(cfg, options=o), criterion, be), exc, "accepted_invalid", what + " " + str(upd))
        mon.count("rejected_settings", e is not None)
        mon.expect(n[0] == 0, "evaluated_before_rejection", lambda: f"{n[0]} evaluations; {what} {upd}")
        mon.sig("invalid", what.split(" in ")[0], cfg["functype"])
        mon.sample(setting=what, update=str(upd), error=repr(e)[:200])
    # control: the same settings without the invalid part evaluate
    t = trace.run_plain(cfg)
    mon.expect(t.n_evals >= 1, "control_evaluates", lambda: gen.describe(cfg))
    mon.count("control_runs")


# ------------------------------------------------------------------- user components in runs
RUNTIME = {
    "sampler": ["trustregion", "n_points", "existing_xs", "rng"],
    "sample_filter": ["xs", "indices", "state", "target_size", "history", "n_evals_per_point"],
    "model_fitter": ["x", "y", "weights", "model_type"],
    "cube_subsolver": ["model", "x_candidate", "lower_bounds", "upper_bounds"],
    "sphere_subsolver": ["model", "x_candidate"],
    "acceptance_decider": ["subproblem_solution", "state", "wrapped_criterion", "noise_variance", "history", "search_radius_factor", "batch_size", "sample_points", "rng"],
    "variance_estimator": ["trustregion", "history", "model_type"],
}
# what an implementation needs
NEEDED = {
    "sampler": RUNTIME["sampler"], "sample_filter": ["xs", "indices"], "model_fitter": ["x", "y", "model_type"],
    "cube_subsolver": RUNTIME["cube_subsolver"], "sphere_subsolver": ["model", "x_candidate"],
    "acceptance_decider": ["subproblem_solution", "state", "wrapped_criterion", "history"], "variance_estimator": ["trustregion", "history", "model_type"]}
DEFAULTS = {
    "sampler": dict(distribution=None, hardness=1, algorithm="L-BFGS-B", algo_options=None, criterion=None, n_points_randomsearch=1, return_info=False),
    "sample_filter": dict(strictness=1e-10, shape="sphere", n_max_factor=3),
    "model_fitter": dict(l2_penalty_linear=0.0, l2_penalty_square=0.1, p_intercept=0.05, p_linear=0.4, p_square=1.0),
    "subsolver": dict(maxiter=20, maxiter_gradient_descent=5, conjugate_gradient_method="cg", gtol_abs=1e-8, gtol_rel=1e-8, gtol_scaled=0.0,
                      gtol_abs_conjugate_gradient=1e-8, gtol_rel_conjugate_gradient=1e-6, k_easy=0.1, k_hard=0.2),
    "acceptance_decider": dict(confidence_level=0.95, power_level=0.95, n_initial=5, n_min=4, n_max=50, min_improvement=0.0, speculative_sampling_radius_factor=0.75),
    "variance_estimator": dict(max_distance_factor=3.0, min_n_evals=3),
}


def builtin(component, name, user):
    from tranquilo.acceptance_decision import get_acceptance_decider
    from tranquilo.estimate_variance import get_variance_estimator
    from tranquilo.filter_points import get_sample_filter
    from tranquilo.sample_points import get_sampler

    return {"sampler": get_sampler, "sample_filter": get_sample_filter, "acceptance_decider": get_acceptance_decider,
            "variance_estimator": get_variance_estimator}[component](name, user)


def g_user(idx, rng, mon):
    noisy = idx % 4 == 0
    bounds = gen.pick(rng, "tight", "edge") if idx % 3 == 0 else "none"
    cfg = gen.make_config(rng, noisy=noisy, kind=gen.pick(rng, "q", "nl"), maxiter=5, maxfun=80, n_max=3, bounds=bounds, components=False, noise=0.01 if noisy else 0.0)
    o = cfg["options"]
    comps = [str(c) for c in rng.permutation(list(RUNTIME))[: rng.integers(1, 5)]]
    seen = {c: [] for c in comps}
    expected = {}
    user_sub, want_sub = random_options(rng, DEFAULTS["subsolver"])
    sig_used = []
    for c in comps:
        bundle = "subsolver" if "subsolver" in c else c
        D = DEFAULTS[bundle]
        if bundle == "subsolver":
            user, want = user_sub, want_sub
        else:
            user, want = random_options(rng, D)
        optional_rt = [a for a in RUNTIME[c] if a not in NEEDED[c] and rng.random() < 0.5]
        opts = [k for k in D if rng.random() < 0.6]
        own = {"own_flag": "mine"} if rng.random() < 0.5 else {}
        body = implementation(c, noisy)
        names = NEEDED[c] + optional_rt + opts
        if noisy and c == "acceptance_decider":
            names = list(dict.fromkeys(names + ["noise_variance", "rng"]))
        src = ", ".join(list(rng.permutation(names)) + [f"{k}={v!r}" for k, v in own.items()])
        ns = {"impl": body, "record": seen[c]}
        allnames = list(dict.fromkeys(names + list(own)))
        exec(f"def user_{c}({src}):\n    kw = dict({', '.join(k + '=' + k for k in allnames)})\n    record.append(kw)\n    return impl(kw)", ns)
        f = ns[f"user_{c}"]
        if rng.random() < 0.3:
            f = gen.pick(rng, functools.partial, Obj)(f)
        o[c] = f
        if bundle != "subsolver":
            o[c + "_options"] = as_user(rng, user) if user else None
        expected[c] = (want, opts, own, names)
        sig_used.append((c, len(optional_rt), len(opts), len(user)))
    if any("subsolver" in c for c in comps):
        # options of the other subsolver are valid as well
        o["subsolver_options"] = as_user(rng, user_sub) if user_sub else None
    info = lambda: dict(cfg=str(gen.describe(cfg))[:300])
    t = trace.run_plain(cfg)
    mon.count("user_component_runs")
    for c in comps:
        want, opts, own, names = expected[c]
        for kw in seen[c]:
            mon.count("user_component_calls")
            for k in opts:
                mon.count("option_values")
                mon.expect(same(kw[k], want[k]), "user_component_option", lambda: f"{c}: {k}={kw[k]!r} instead of {want[k]!r}; {info()}")
            for k in own:
                mon.expect(kw[k] == own[k], "own_default", lambda: f"{c} {k}={kw[k]!r}")
            runtime_ok(mon, c, kw, cfg)
    if sig_used:
        mon.sig("user", tuple(sorted(sig_used)), cfg["functype"], noisy)
    used = {c for c in comps if seen[c]}
    for c in used:
        mon.count("used_" + c)
    # a component that is needed has been used
    n_iter = len(t.states) - 1
    if n_iter >= 1:
        for c in comps:
            if c in ("sampler", "sample_filter", "model_fitter", "acceptance_decider") or (c == "variance_estimator" and noisy):
                if c == "acceptance_decider" or len(seen[c]) or c == "sampler":
                    mon.expect(len(seen[c]) >= 1, "component_unused", lambda: f"{c} {info()}")
    mon.sample(components=sig_used, calls={c: len(v) for c, v in seen.items()})


def random_options(rng, D):
    """User options of a built-in bundle that do not change whether it works."""
    user, want = {}, dict(D)
    for k, d in D.items():
        if rng.random() > 0.35:
            continue
        if k in ("distribution", "criterion", "algo_options", "algorithm", "conjugate_gradient_method", "shape", "return_info"):
            if k == "criterion":
                user[k] = want[k] = gen.pick(rng, "distance", "determinant")
            elif k == "conjugate_gradient_method":
                user[k] = want[k] = gen.pick(rng, "steihaug_toint", "trsbox", "cg")
            elif k == "algo_options":
                user[k] = want[k] = {"maxiter": 5}
            continue
        if isinstance(d, int):
            v = int(d + rng.integers(0, 3))
            user[k] = gen.pick(rng, v, float(v), str(v), np.int64(v), v)
            want[k] = v
        elif isinstance(d, float):
            v = float(d * gen.pick(rng, 0.5, 1.0, 0.9)) if d else 0.0
            user[k] = gen.pick(rng, v, str(v), v, np.float64(v))
            want[k] = v
            if type(user[k]) is np.float64:
                want[k] = user[k]
    return user, want


def implementation(c, noisy):
    if c == "sampler":
        f = builtin("sampler", "random_interior", None)
        return lambda kw: f(**{k: kw[k] for k in RUNTIME["sampler"]})
    if c == "sample_filter":
        return lambda kw: (kw["xs"], kw["indices"])
    if c == "model_fitter":
        def fit(kw):
            x, y = np.asarray(kw["x"]), np.asarray(kw["y"])
            n = x.shape[1]
            X = np.column_stack([np.ones(len(x)), x])
            coef = np.linalg.lstsq(X, y, rcond=None)[0].T
            if kw["model_type"] == "quadratic":
                k = n * (n + 1) // 2
                coef = np.column_stack([coef, np.zeros((len(coef), k))])
            return coef
        return fit
    if c in ("cube_subsolver", "sphere_subsolver"):
        def solve(kw):
            m = kw["model"]
            g = np.asarray(m.linear_terms)
            n = np.linalg.norm(g)
            x = -0.5 * g / n if n > 0 else np.zeros(len(g))
            if "lower_bounds" in kw:
                x = np.clip(x, kw["lower_bounds"], kw["upper_bounds"])
            return {"x": x, "criterion": 0.0, "success": True, "n_iterations": 1}
        return solve
    if c == "acceptance_decider":
        f = builtin("acceptance_decider", "classic" if not noisy else "naive_noisy", None)
        keys = ["subproblem_solution", "state", "history", "wrapped_criterion"] + (["noise_variance", "rng"] if noisy else [])
        return lambda kw: f(**{k: kw[k] for k in keys if k in kw})
    f = builtin("variance_estimator", "classic", None)
    return lambda kw: f(**{k: kw[k] for k in RUNTIME["variance_estimator"]})


def runtime_ok(mon, c, kw, cfg):
    """Arguments have the documented meaning."""
    n = len(cfg["x0"])
    o = cfg["options"]
    key = "runtime_argument"
    if c == "sampler":
        mon.expect(np.shape(kw["existing_xs"])[1:] == (n,) and kw["n_points"] >= 0 and hasattr(kw["rng"], "uniform") and len(kw["trustregion"].center) == n,
                   key, lambda: f"{c} {kw}")
    elif c == "sample_filter":
        ok = len(kw["xs"]) == len(kw["indices"])
        if "history" in kw:
            ok = ok and np.array_equal(kw["history"].get_xs(kw["indices"]), kw["xs"])
        if "state" in kw:
            ok = ok and len(kw["state"].x) == n
        if "n_evals_per_point" in kw:
            ok = ok and kw["n_evals_per_point"] >= 1
        if "target_size" in kw and o.get("sample_size") is not None:
            ok = ok and kw["target_size"] == o["sample_size"]
        mon.expect(ok, key, lambda: f"{c} {kw}")
    elif c == "model_fitter":
        ok = np.shape(kw["x"])[1] == n and len(kw["x"]) == len(kw["y"]) and kw["model_type"] == ("quadratic" if cfg["functype"] == "scalar" else "linear")
        ok = ok and np.isfinite(kw["y"]).all() and kw.get("weights") is None
        mon.expect(ok, key, lambda: f"{c} {kw}")
    elif c == "acceptance_decider":
        ok = len(kw["state"].x) == n and len(kw["subproblem_solution"].x) == n
        if "batch_size" in kw:
            ok = ok and kw["batch_size"] == (o.get("batch_size") or o.get("n_cores") or 1)
        if "search_radius_factor" in kw:
            ok = ok and kw["search_radius_factor"] == (o.get("search_radius_factor") or (4.25 if cfg["functype"] == "scalar" else 5.0))
        if "sample_points" in kw:
            ok = ok and callable(kw["sample_points"])
        if "rng" in kw:
            ok = ok and hasattr(kw["rng"], "normal")
        if "noise_variance" in kw:
            ok = ok and ((kw["noise_variance"] is None) == (not o.get("noisy")))
        mon.expect(ok, key, lambda: f"{c} {kw}")
    elif c == "variance_estimator":
        mon.expect(kw["model_type"] in ("scalar", "vector"), key, lambda: f"{c} {kw}")
    else:
        ok = len(kw["x_candidate"]) == n and len(kw["model"].linear_terms) == n
        if c == "cube_subsolver":
            ok = ok and np.all(np.asarray(kw["lower_bounds"]) <= kw["upper_bounds"]) and np.all(np.asarray(kw["lower_bounds"]) >= -1 - 1e-9) and np.all(np.asarray(kw["upper_bounds"]) <= 1 + 1e-9)
        mon.expect(ok, key, lambda: f"{c} {kw}")


# ------------------------------------------------------------------- documented defaults
def explicit_defaults(cfg):
    """All options with their documented defaults, given those that are set."""
    o = cfg["options"]
    ft = cfg["functype"]
    x = np.asarray(cfg["x0"])
    n = len(x)
    noisy = bool(o.get("noisy", False))
    n_cores = o.get("n_cores", 1)
    bs = o.get("batch_size") or n_cores
    mt = "quadratic" if ft == "scalar" else "linear"
    d = dict(
        lower_bounds=None, upper_bounds=None, noisy=False, disable_convergence=False, convergence_absolute_criterion_tolerance=0.0,
        convergence_absolute_gradient_tolerance=0.0, convergence_absolute_params_tolerance=0.0, convergence_relative_criterion_tolerance=2e-9,
        convergence_relative_gradient_tolerance=1e-8, convergence_relative_params_tolerance=1e-8, convergence_min_trust_region_radius=0.0,
        stopping_max_criterion_evaluations=2000, stopping_max_iterations=200, stopping_max_time=np.inf, n_cores=1, batch_size=bs, model_type=mt,
        search_radius_factor=4.25 if ft == "scalar" else 5.0, n_evals_at_start=5 if noisy else 1, seed=925408,
        sampler="optimal_hull", sample_filter="drop_excess" if bs > 1 else "keep_all", cube_subsolver="bntr_fast", sphere_subsolver="gqtpar_fast",
        retry_subproblem_with_fallback=True, acceptance_decider="noisy" if noisy else "classic", variance_estimator="classic", infinity_handler="relative")
    if mt == "quadratic":
        d["sample_size"] = 2 * n + 1
    else:
        d["sample_size"] = n + 1 if (noisy or bs > 1) else n + 2
    size = o.get("sample_size") or d["sample_size"]
    n_free = 1 + n + (n * (n + 1) // 2 if mt == "quadratic" else 0)
    d["model_fitter"] = "ols" if (mt == "linear" or size >= n_free) else "tranquilo"
    d["residualize"] = (o.get("model_fitter") or d["model_fitter"]) == "tranquilo"
    scale = np.abs(x).max()
    d["radius_options"] = dict(initial_radius=0.1 * scale if scale > 0 else 0.1, min_radius=1e-6, max_radius=1e6, rho_decrease=0.1, rho_increase=0.1,
                               shrinking_factor=0.5, expansion_factor=2.0, large_step=0.5, max_radius_to_step_ratio=np.inf)
    d["stagnation_options"] = dict(min_relative_step=0.05, sample_increment=1, max_trials=1,
                                   min_relative_step_keep=0.0 if (noisy or bs > 1) else 0.125, drop=not noisy)
    d["noise_adaptation_options"] = dict(rho_noise_n_draws=100, high_rho=0.6, low_rho=0.1, ignore_corelation=True, min_share_high_rho=0.7, min_share_low_rho=0.9,
                                         min_n_evals=1, max_n_evals=30, good_rho_threshold=0.1)
    nao = dict(d["noise_adaptation_options"], **(o.get("noise_adaptation_options") or {}))
    d["n_evals_per_point"] = nao["min_n_evals"] if noisy else 1
    d["subsolver_options"] = DEFAULTS["subsolver"]
    for c in ("sampler", "sample_filter", "model_fitter", "acceptance_decider", "variance_estimator"):
        d[c + "_options"] = DEFAULTS[c]
    return d


def g_explicit(idx, rng, mon):
    noisy = idx % 5 == 4
    cfg = gen.make_config(rng, defaults=idx % 2 == 0, noisy=noisy, maxiter=gen.pick(rng, 12, 40), maxfun=200,
                          kind=gen.pick(rng, "q", "nl", "rosen", "step", "const", "neg"), n_max=6)
    o = cfg["options"]
    if not noisy and idx % 2 == 0:
        if cfg["functype"] == "least_squares" and len(cfg["x0"]) < 4 and cfg["problem"]["kind"] == "q":
            del o["stopping_max_iterations"]  # other runs would take very long if they do not converge
        del o["stopping_max_criterion_evaluations"]
        if rng.random() < 0.5:
            del o["seed"]
        del o["noisy"]
    d = explicit_defaults(cfg)
    full = {}
    for k, v in d.items():
        if isinstance(v, dict):
            u = dict(v, **(o.get(k) or {}))
            full[k] = u if rng.random() < 0.7 else NamedTuple("U", [(q, object) for q in u])(**u)
        elif o.get(k) is None:
            full[k] = v
    b = dict(cfg, options=dict(o, **full))
    # a random subset made explicit
    if rng.random() < 0.3:
        keep = [k for k in full if rng.random() < 0.5]
        b = dict(cfg, options=dict(o, **{k: full[k] for k in keep}))
    t1 = trace.run_plain(cfg, cap=3000)
    t2 = trace.run_plain(b, cap=3000)
    mon.count("explicit_default_pairs")
    diff = differs(digest(t1), digest(t2))
    mon.expect(diff is None, "explicit_defaults", lambda: f"{diff}; {gen.describe(cfg)}")
    mon.count("stops:" + str(t1.res["message"])[:30])
    # the processed arguments, if accessible
    try:
        from tranquilo.process_arguments import process_arguments
    except ImportError:
        return
    args = process_arguments(functype=cfg["functype"], criterion=lambda x: 0.0, x=cfg["x0"], batch_evaluator=lambda *a, **k: [], **o)
    f = lambda k: (dict(d[k], **(o.get(k) or {})) if isinstance(d.get(k), dict) else (d[k] if o.get(k) is None else o[k]))
    want = {}
    for k in ("radius_options", "stagnation_options", "noise_adaptation_options"):
        for q, v in f(k).items():
            want[k, q] = v
    for k, q in (("disable", "disable_convergence"), ("ftol_abs", "convergence_absolute_criterion_tolerance"), ("gtol_abs", "convergence_absolute_gradient_tolerance"),
                 ("xtol_abs", "convergence_absolute_params_tolerance"), ("ftol_rel", "convergence_relative_criterion_tolerance"), ("gtol_rel", "convergence_relative_gradient_tolerance"),
                 ("xtol_rel", "convergence_relative_params_tolerance"), ("min_radius", "convergence_min_trust_region_radius")):
        want["conv_options", k] = f(q)
    for k, q in (("max_iter", "stopping_max_iterations"), ("max_eval", "stopping_max_criterion_evaluations"), ("max_time", "stopping_max_time")):
        want["stop_options", k] = f(q)
    for (b_, k), v in want.items():
        got = getattr(args.get(b_, None), k, None)
        if got is None:
            continue
        mon.count("processed_values")
        mon.expect(got == v, "processed_value", lambda: f"{b_}.{k} = {got} instead of {v}; {o}")
    for k, q in (("batch_size", "batch_size"), ("target_sample_size", "sample_size"), ("search_radius_factor", "search_radius_factor"), ("n_evals_per_point", "n_evals_per_point"),
                 ("n_evals_at_start", "n_evals_at_start"), ("noisy", "noisy")):
        if k in args:
            mon.count("processed_values")
            mon.expect(args[k] == f(q), "processed_value", lambda: f"{k} = {args[k]} instead of {f(q)}; {o}")
    mon.sig("explicit", gen.signature(cfg))


# ------------------------------------------------------------------- names and functions
def wrap(f):
    @functools.wraps(f)
    def g(*a, **k):
        return f(*a, **k)

    return g


def builtins_():
    from tranquilo import acceptance_decision as ad, estimate_variance as ev, filter_points as fp, fit_models as fm, sample_points as sp, handle_infinity as hi
    from tranquilo.subsolvers import bntr, bntr_fast, gqtpar, gqtpar_fast, fallback_subsolvers as fb

    g = lambda m, *names: next((getattr(m, q) for q in names if hasattr(m, q)), None)
    return {
        ("sampler", "optimal_hull"): g(sp, "_optimal_hull_sampler"), ("sampler", "random_hull"): g(sp, "_hull_sampler"), ("sampler", "random_interior"): g(sp, "_interior_sampler"),
        ("sample_filter", "discard_all"): g(fp, "discard_all"), ("sample_filter", "keep_all"): g(fp, "keep_all"), ("sample_filter", "drop_excess"): g(fp, "drop_excess"),
        ("sample_filter", "clustering"): g(fp, "keep_cluster_centers"),
        ("model_fitter", "ols"): g(fm, "fit_ols"), ("model_fitter", "ridge"): g(fm, "fit_ridge"), ("model_fitter", "powell"): g(fm, "fit_powell"), ("model_fitter", "tranquilo"): g(fm, "fit_tranquilo"),
        ("cube_subsolver", "bntr"): g(bntr, "bntr"), ("cube_subsolver", "bntr_fast"): g(bntr_fast, "bntr_fast"), ("cube_subsolver", "fallback_cube"): g(fb, "robust_cube_solver"),
        ("sphere_subsolver", "gqtpar"): g(gqtpar, "gqtpar"), ("sphere_subsolver", "gqtpar_fast"): g(gqtpar_fast, "gqtpar_fast"),
        ("sphere_subsolver", "fallback_inscribed_cube"): g(fb, "robust_sphere_solver_inscribed_cube"),
        ("acceptance_decider", "classic"): g(ad, "_accept_classic"), ("acceptance_decider", "naive_noisy"): g(ad, "accept_naive_noisy"), ("acceptance_decider", "noisy"): g(ad, "accept_noisy"),
        ("acceptance_decider", "classic_line_search"): g(ad, "accept_classic_line_search"),
        ("variance_estimator", "classic"): g(ev, "_estimate_variance_classic"),
        ("infinity_handler", "relative"): g(hi, "clip_relative")}


def g_byname(idx, rng, mon):
    cfg = gen.make_config(rng, maxiter=8, maxfun=120, n_max=4)
    o = cfg["options"]
    B = builtins_()
    noisy = o.get("noisy")
    names = {c: (o.get(c)) for c, _ in B}
    d = explicit_defaults(cfg)
    names = {c: v or d[c] for c, v in names.items()}
    alt = dict(o)
    changed = []
    for c, v in names.items():
        f = B.get((c, v))
        if f is not None and rng.random() < 0.6:
            alt[c] = wrap(f) if rng.random() < 0.7 else f
            changed.append((c, v))
    # defaults that depend on the name of the fitter
    alt["residualize"] = o["residualize"] if o.get("residualize") is not None else d["residualize"]
    if not changed:
        return
    t1 = trace.run_plain(cfg)
    t2 = trace.run_plain(dict(cfg, options=alt))
    diff = differs(digest(t1), digest(t2))
    mon.count("by_name_pairs")
    mon.expect(diff is None, "function_instead_of_name", lambda: f"{diff}; {changed}; {gen.describe(cfg)}")
    mon.sig("byname", tuple(changed))
