import copy
import inspect

import numpy as np

from checks import models
from checks.regions import make_region
from vk import gen, trace

ID = "C25"
RULE = ("(a) direct simulations with real fitters, aggregators and subsolvers wrapped by recorders: random regions, samples, "
        "models (fitted or arbitrary), covariances (zero, diagonal, strongly correlated, singular); every ratio is recomputed "
        "from the recorded simulated subproblem solution, the recorded noise is tested against the covariance (7 standard "
        "errors); (b) all simulations in noisy runs; distinct by (functype, fitter, n, residuals, shape, covariance, options)")
REQUIRED = {"simulations": 250, "ratios": 6000, "noise_free": 80, "noise_free_ratio_one": 200, "covariances_tested": 120,
            "correlated_tested": 12, "correlation_ignored": 12}
ASSUMPTIONS = ["the sample identifies the model where ratio one is claimed", "noise is normal with the given covariance"]
CASE_TIMEOUT = 90


def plan(tier, seed):
    k = 1 if tier == "quick" else 25
    return [("direct", i) for i in range(160 * k)] + [("free", i) for i in range(140 * k)] + [("run", i) for i in range(32 * min(k, 15))]


def ref_ratio(actual, expected):
    if expected == 0:
        return np.inf if actual > 0 else -np.inf
    return actual / expected


def setup(rng, free):
    from tranquilo.aggregate_models import get_aggregator
    from tranquilo.fit_models import get_fitter
    from tranquilo.solve_subproblem import get_subsolver

    n = int(rng.integers(1, 5))
    region, kind = make_region(rng, n=n)
    while ((np.asarray(region.effective_radius) <= 1e-5 * np.abs(region.center).max()).any()
           or np.min(region.effective_radius) < 1e-4 * np.max(region.effective_radius)):
        region, kind = make_region(rng, n=n)
    ft = gen.pick(rng, "scalar", "least_squares", "likelihood")
    m = 1 if ft == "scalar" else int(rng.integers(1, 5))
    quad = ft == "scalar" or (ft == "likelihood" and rng.random() < 0.7)
    p = n + 1 + (n * (n + 1) // 2 if quad else 0)
    fitter = gen.pick(rng, "ols", "ols", "tranquilo", "powell") if quad else gen.pick(rng, "ols", "tranquilo")
    k = p + int(rng.integers(0, 4)) if free or rng.random() < 0.6 else int(rng.integers(max(1, n), p + 4))
    u = rng.uniform(-1, 1, size=(k, n))
    for _ in range(20):
        f = [np.ones(k)] + [u[:, i] for i in range(n)] + ([u[:, i] * u[:, j] for i in range(n) for j in range(i, n)] if quad else [])
        if k < p or np.linalg.cond(np.array(f).T) < 50:
            break
        u = rng.uniform(-1, 1, size=(k, n))
    identified = k >= p and np.linalg.cond(np.array(f).T) < 50
    xs = region.map_from_unit(u)
    model_type = "quadratic" if quad else "linear"
    agg = dict(scalar="identity", least_squares="least_squares_linear", likelihood="sum" if quad else "information_equality_linear")[ft]
    fit = get_fitter(fitter=fitter, model_type=model_type, residualize=bool(rng.random() < 0.3), infinity_handling="relative")
    sub = get_subsolver(sphere_solver="gqtpar_fast", cube_solver="bntr_fast", retry_with_fallback=True)
    vm = models.vector_model(rng, n, m, quad, region.effective_radius, region.effective_center, mag=10.0 ** rng.integers(-3, 4))
    old = models.vector_model(rng, n, m, quad, region.effective_radius, region.effective_center, mag=1.0)
    return dict(n=n, m=m, ft=ft, fitter=fitter, quad=quad, region=region, kind=kind, xs=xs, identified=identified, fit=fit,
                sub=sub, agg=get_aggregator(agg), vm=vm, old=old)


class Spy:
    def __init__(self, f):
        self.f, self.calls = f, []

    def __call__(self, *a, **k):
        r = self.f(*a, **k)
        self.calls.append((a, dict(k), r))
        return r


def arg(call, name, pos):
    a, k, _ = call
    return k[name] if name in k else a[pos]


def passed(call, f, name):
    """Value a fitter got for an argument, however it was passed."""
    try:
        return inspect.signature(f).bind(*call[0], **call[1]).arguments.get(name, "absent")
    except (TypeError, ValueError):
        return "absent"


def judge(s, rhos, fit, sub, true_scalar, cov, n_draws, mon, pre=""):
    region = s["region"]
    rhos = np.asarray(rhos)
    d = lambda: f"{s['ft']}, fitter {s['fitter']}, region {region.shape}: {rhos[:10]}"
    mon.count(pre + "simulations")
    mon.count(pre + "ratios", rhos.size)
    mon.expect(rhos.shape == (n_draws,) and not np.isnan(rhos).any(), pre + "one_ratio_per_draw", d)
    if not mon.expect(len(fit.calls) == n_draws and len(sub.calls) == n_draws, pre + "calls_per_draw",
                      lambda: f"{len(fit.calls)} fits, {len(sub.calls)} solutions for {n_draws} draws"):
        return
    cu = np.asarray(region.map_to_unit(np.asarray(region.center)))
    f0, g0 = models.evaluate(true_scalar, cu)
    for i in range(n_draws):
        sol = sub.calls[i][2]
        f1, g1 = models.evaluate(true_scalar, sol.x_unit)
        act = float(f0[0, 0] - f1[0, 0])
        want = ref_ratio(act, float(sol.expected_improvement))
        tol = 1e-10 * float(g0[0, 0] + g1[0, 0])
        e = float(sol.expected_improvement)
        if e == 0:
            ok = rhos[i] == want or abs(act) <= tol
        else:
            ok = abs(rhos[i] - want) <= tol / abs(e) + 1e-9 * abs(want)
        mon.expect(ok, pre + "ratio", lambda: f"draw {i}: {rhos[i]} instead of {want}; " + d())
        mon.expect(np.array_equal(arg(fit.calls[i], "x", 0), s["xs"]), pre + "sample", "fit on other points")
        om = passed(fit.calls[i], fit.f, "old_model")
        if not isinstance(om, str) and s.get("old") is not None:
            mon.count(pre + "old_model_seen")
            mon.expect(models.same(om, s["old"]), pre + "old_model", "simulated models are residualized against another model")
        rg = passed(fit.calls[i], fit.f, "region")
        if not isinstance(rg, str):
            mon.expect(np.array_equal(rg.center, region.center) and rg.radius == region.radius, pre + "region", "fit in another region")
    u = (s["xs"] - np.asarray(region.effective_center)) / np.asarray(region.effective_radius)
    tv, tm = models.evaluate(s["vm"], u)
    E = np.array([arg(c, "y", 1) - tv for c in fit.calls])  # draws x samples x residuals
    return E, tm


def noise_test(E, tm, cov, ignore, mon, pre=""):
    m = E.shape[2]
    flat = E.reshape(-1, m)
    N = len(flat)
    want = np.diag(np.diag(cov)) if ignore else cov
    sd = np.sqrt(np.diag(want))
    if N < 300 or (sd <= 1e-9 * np.abs(tm).max()).any():
        return False
    d = lambda: f"{N} simulated noise vectors with covariance {np.cov(flat, rowvar=False).tolist()} and mean {flat.mean(axis=0)}, given {want.tolist()}"
    mon.expect((np.abs(flat.mean(axis=0)) <= 7 * sd / np.sqrt(N)).all(), pre + "noise_mean", d)
    S = np.atleast_2d(np.cov(flat, rowvar=False))
    se = np.sqrt((np.outer(sd**2, sd**2) + want**2) / N)
    mon.expect((np.abs(S - want) <= 7.5 * se).all(), pre + "noise_covariance", d)
    lag = (flat[:-1] * flat[1:]).mean(axis=0) / sd**2
    mon.expect((np.abs(lag) <= 7.5 / np.sqrt(N)).all(), pre + "noise_independent", d)
    mon.count("covariances_tested")
    return True


def run_case(group, idx, rng, mon):
    if group == "run":
        return loop(rng, mon)
    from tranquilo.options import NoiseAdaptationOptions
    from tranquilo.rho_noise import simulate_rho_noise

    for _ in range(2):
        free = group == "free"
        s = setup(rng, free)
        m = s["m"]
        A = rng.normal(size=(m, m))
        ck = "zero" if free else gen.pick(rng, "diag", "corr", "corr", "singular")
        scale = float(np.abs(s["vm"].predict(s["region"].map_to_unit(s["xs"]))).max() or 1.0) * 10.0 ** rng.uniform(-3, 0)
        cov = np.zeros((m, m))
        if ck == "diag":
            cov = np.diag(rng.uniform(0.1, 2, m))
        elif ck == "corr":
            cov = A @ A.T + 0.1 * np.eye(m)
        elif ck == "singular":
            v = rng.uniform(0.5, 2, m) * rng.choice([-1, 1], m)
            cov = np.outer(v, v)
        cov = cov * scale**2
        ign = bool(rng.random() < 0.5)
        nd = int(gen.pick(rng, 1, 3) if free else gen.pick(rng, 5, 60, 120))
        opt = NoiseAdaptationOptions(rho_noise_n_draws=nd, ignore_corelation=ign)
        fit, sub, agg = Spy(s["fit"]), Spy(s["sub"]), s["agg"]
        seed = int(rng.integers(2**31))
        kw = dict(xs=s["xs"].copy(), vector_model=s["vm"], old_vector_model=s["old"], trustregion=s["region"], noise_cov=cov.copy(),
                  model_fitter=fit, model_aggregator=agg, subsolver=sub, options=opt)
        before = {k: copy.deepcopy(kw[k]) for k in ("xs", "vector_model", "old_vector_model", "noise_cov")}
        g0 = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
        rhos = simulate_rho_noise(rng=np.random.default_rng(seed), **kw)
        g1 = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
        mon.expect(g0 == g1, "global_rng_untouched")
        mon.expect(all(models.same(kw[k], before[k]) for k in ("vector_model", "old_vector_model"))
                   and np.array_equal(kw["xs"], before["xs"]) and np.array_equal(kw["noise_cov"], before["noise_cov"]), "inputs_modified")
        true_scalar = agg(vector_model=s["vm"])
        r = judge(s, rhos, fit, sub, true_scalar, cov, nd, mon)
        if r is None:
            return
        E, tm = r
        if free:
            mon.count("noise_free")
            mon.expect((np.abs(E) <= 1e-10 * tm).all(), "no_noise_added", lambda: f"noise {np.abs(E).max()} for zero covariance")
            if s["identified"]:
                for i, c in enumerate(sub.calls):
                    e = float(c[2].expected_improvement)
                    big = float(models.evaluate(true_scalar, np.stack([c[2].x_unit, s["region"].map_to_unit(np.asarray(s["region"].center))]))[1].max())
                    # rounding of large residuals enters squared terms
                    om = models.evaluate(s["old"], np.asarray(s["region"].map_to_unit(s["xs"])))[1]
                    tm = np.maximum(tm, om)
                    amp = float((tm**2).sum(axis=1).max()) if s["ft"] == "least_squares" else float(tm.sum(axis=1).max())
                    if e == 0:
                        mon.expect(np.isinf(rhos[i]), "noise_free_zero", lambda: f"{rhos}")
                    elif e > 1e-4 * max(big, amp):
                        mon.count("noise_free_ratio_one")
                        mon.expect(abs(rhos[i] - 1) <= 1e-5, "noise_free_one", lambda: f"ratio {rhos[i]} without noise ({s['ft']}, {s['fitter']}, {s['region'].shape})")
        elif noise_test(E, tm, cov, ign, mon):
            if m > 1 and ck in ("corr", "singular"):
                mon.count("correlation_ignored" if ign else "correlated_tested")
        if not free and nd <= 60:
            again = simulate_rho_noise(rng=np.random.default_rng(seed), **kw)
            mon.expect(np.array_equal(rhos, again), "same_generator_same_ratios", lambda: f"{rhos[:5]} {again[:5]}")
        mon.sig(s["ft"], s["fitter"], s["n"], m, s["region"].shape, ck, ign, nd)
    mon.sample(functype=s["ft"], fitter=s["fitter"], covariance=cov, ratios=np.asarray(rhos)[:5])


def loop(rng, mon):
    """Simulations inside of noisy runs: interposed at the name used by the main loop."""
    import tranquilo.tranquilo as tq

    cfg = gen.make_config(rng, noisy=True, kind=gen.pick(rng, "q", "nl"), noise=float(gen.pick(rng, 0.01, 0.1)), maxiter=5,
                          noise_adaptation_options=dict(rho_noise_n_draws=int(gen.pick(rng, 3, 6)), ignore_corelation=bool(rng.random() < 0.5)))
    cfg["options"]["noise_adaptation_options"]["ignore_corelation"] = bool(rng.random() < 0.5)
    orig = getattr(tq, "simulate_rho_noise", None)
    if orig is None:
        mon.count("run_unobservable")
        return
    box = {}

    sig = inspect.signature(orig)

    def spy(*a, **k):
        kw = dict(sig.bind(*a, **k).arguments)
        fit, sub = Spy(kw["model_fitter"]), Spy(kw["subsolver"])
        n0 = len(box["t"].evals) if "t" in box else None
        gst = repr(kw["rng"].bit_generator.state)
        mon.expect(gst not in box.setdefault("rngs", set()), "run_fresh_noise", "two simulations of a run draw the same noise")
        box["rngs"].add(gst)
        out = orig(**{**kw, "model_fitter": fit, "subsolver": sub})
        nd = cfg["options"]["noise_adaptation_options"]["rho_noise_n_draws"]
        s = dict(region=kw["trustregion"], xs=np.asarray(kw["xs"]), vm=kw["vector_model"], old=kw["old_vector_model"], ft=cfg["functype"], fitter="run")
        judge(s, out, fit, sub, kw["model_aggregator"](vector_model=kw["vector_model"]), kw["noise_cov"], nd, mon, "run_")
        if n0 is not None:
            mon.expect(len(box["t"].evals) == n0, "run_no_criterion_calls")
        return out

    tq.simulate_rho_noise = spy
    try:
        t = trace.Trace(cfg)
        box["t"] = t
        t.problem = gen.Problem(cfg)
        r = trace.Recorder(t, t.problem, cap=trace.default_cap(cfg))
        t.res = trace.call(cfg, r.criterion, r.batch_evaluator)
    finally:
        tq.simulate_rho_noise = orig
