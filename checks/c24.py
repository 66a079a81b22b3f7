import copy
import inspect

import numpy as np

from checks.regions import make_region
from vk import gen, trace
from vk.trace import aggregate, close

ID = "C24"
RULE = ("(a) histories with random repeated evaluations (levels over many decades, failed evaluations, points inside and "
        "outside the relevant region, several batches) against an independent estimator, plus shift/zero-noise relations; "
        "(b) the adaptation rule on random ratio vectors at and around all thresholds; (c) every estimate and adaptation in "
        "noisy runs; non-trivial: at least two points with repeated evaluations, or a changed number of evaluations")
REQUIRED = {"estimates": 600, "several_points": 300, "excluded_far": 200, "excluded_few": 200, "with_failures": 80, "shifted": 200,
            "zero_noise": 60, "decisions": 4000, "ups": 500, "downs": 500, "keeps": 500, "run_estimates": 100}
ASSUMPTIONS = ["the initial number of evaluations per point lies within the configured limits",
               "evaluations with an infinite value are not informative about the noise"]
CASE_TIMEOUT = 60


def plan(tier, seed):
    k = 1 if tier == "quick" else 50
    return ([("direct", i) for i in range(160 * k)] + [("adapt", i) for i in range(120 * k)]
            + [("run", i) for i in range(80 * min(k, 12))])


def reference(xs, samples, ft, region, factor, min_n):
    """samples: {index: list of residual vectors}. Returns scalar variance, covariance, scale, facts."""
    c = np.asarray(region.center, float)
    d = {i: np.sqrt(((np.asarray(xs[i]) - c) ** 2).sum()) for i in samples}
    lim = region.radius * factor
    if any(abs(q - lim) <= 1e-9 * lim for q in d.values()):
        return None
    near = [i for i in samples if d[i] <= lim]
    good = {i: [np.asarray(v, float) for v in samples[i] if np.isfinite(aggregate(ft, v))] for i in near}
    most = max((len(v) for v in good.values()), default=0)
    cut = max(2, min(most, min_n))
    use = [i for i in near if len(good[i]) >= cut]
    m = len(next(iter(samples.values()))[0])
    tot = sum(len(good[i]) for i in use)
    var, cov, mag, cmag = 0.0, np.zeros((m, m)), 0.0, 0.0
    for i in use:
        v = np.array(good[i])
        f = np.array([aggregate(ft, q) for q in v])
        w = len(v) / tot
        var += w * ((f - f.mean()) ** 2).sum() / (len(f) - 1)
        e = v - v.mean(axis=0)
        cov += w * (e.T @ e) / (len(v) - 1)
        mag = max(mag, np.abs(f).max())
        cmag = max(cmag, np.abs(v).max())
    facts = dict(use=len(use), far=len(samples) - len(near), few=len(near) - len(use),
                 failed=sum(len(samples[i]) - len(good[i]) for i in near))
    return var, cov, mag, cmag, facts


def compare(ref, var, cov, mon, pre=""):
    rv, rc, mag, cmag, facts = ref
    d = lambda: f"{var}, {cov} instead of {rv}, {rc}; {facts}"
    # cancellation of the mean
    mon.expect(np.ndim(var) == 0 and abs(var - rv) <= 1e-9 * rv + (1e-13 * mag) ** 2 + 1e-13 * mag * np.sqrt(abs(rv)), pre + "variance", d)
    if cov is not None:
        sd = np.sqrt(np.diag(rc))
        tol = 1e-9 * np.outer(sd, sd) + (1e-13 * cmag) ** 2 + 1e-13 * cmag * sd.max()
        mon.expect(np.shape(cov) == np.shape(rc) and (np.abs(cov - rc) <= tol).all(), pre + "covariance", d)


def run_case(group, idx, rng, mon):
    if group == "run":
        return loop(rng, mon)
    if group == "adapt":
        return adapt(rng, mon)
    from tranquilo.estimate_variance import get_variance_estimator
    from tranquilo.history import History
    from tranquilo.options import VarianceEstimatorOptions

    for _ in range(6):
        n = int(rng.integers(1, 5))
        region, kind = make_region(rng, n=n)
        ft = gen.pick(rng, "scalar", "least_squares", "likelihood")
        m = 1 if ft == "scalar" else int(rng.integers(1, 4))
        k = int(rng.integers(1, 9))
        opt = {}
        if rng.random() < 0.7:
            opt = dict(max_distance_factor=float(gen.pick(rng, 0.3, 1.0, 2.0, 3.0, 10.0)), min_n_evals=int(gen.pick(rng, 1, 2, 3, 5, 20)))
        full = {**VarianceEstimatorOptions()._asdict(), **opt}
        direction = rng.normal(size=(k, n))
        direction /= np.linalg.norm(direction, axis=1, keepdims=True)
        xs = np.asarray(region.center) + region.radius * direction * full["max_distance_factor"] * rng.uniform(0, 1.6, size=(k, 1))
        xs[0] = region.center
        zero = rng.random() < 0.15
        level = rng.normal(size=(k, m)) * 10.0 ** rng.integers(-2, 4)
        noise = 10.0 ** rng.uniform(-2, 2)
        L = rng.normal(size=(m, m))
        counts = rng.choice([1, 1, 2, 3, 4, 5, 8], size=k)
        samples = {i: [level[i] + (0 if zero else noise) * (L @ rng.normal(size=m)) for _ in range(counts[i])] for i in range(k)}
        if rng.random() < 0.3:
            for i in range(k):
                for j in range(counts[i]):
                    if rng.random() < 0.3 and not (i == 0 and j == 0):
                        samples[i][j] = np.full(m, np.inf)

        def build(sam):
            h = History(functype=ft)
            h.add_xs(xs)
            order = [(i, v) for i in range(k) for v in sam[i]]
            perm = rng.permutation(len(order))
            cuts = sorted(rng.integers(0, len(order) + 1, size=int(rng.integers(0, 4))))
            for chunk in np.split(perm, cuts):
                if len(chunk):
                    ev = [order[int(q)][1] for q in chunk]
                    h.add_evals([order[int(q)][0] for q in chunk], [float(e[0]) for e in ev] if ft == "scalar" else ev)
            return h

        est = get_variance_estimator("classic", opt or None)
        h = build(samples)
        args = lambda hh, t: est(trustregion=region, history=hh, model_type=t)
        ref = reference(xs, samples, ft, region, full["max_distance_factor"], full["min_n_evals"])
        if ref is None:
            continue
        x0, f0, v0 = h.get_xs().copy(), copy.deepcopy(h.get_fvals(np.arange(k))), copy.deepcopy(h.get_fvecs(np.arange(k)))
        var, cov = args(h, "scalar"), args(h, "vector")
        mon.count("estimates")
        compare(ref, var, cov, mon)
        facts = ref[4]
        mon.count("several_points", facts["use"] > 1)
        mon.count("excluded_far", facts["far"] > 0)
        mon.count("excluded_few", facts["few"] > 0)
        mon.count("with_failures", facts["failed"] > 0)
        mon.expect(np.array_equal(x0, h.get_xs()) and all(np.array_equal(f0[i], q) for i, q in h.get_fvals(np.arange(k)).items())
                   and all(np.array_equal(v0[i], q) for i, q in h.get_fvecs(np.arange(k)).items()), "history_modified")
        if zero:
            mon.count("zero_noise")
            mon.expect(var <= (1e-13 * ref[2]) ** 2 * 10 and (np.abs(cov) <= (1e-13 * ref[3]) ** 2 * 10).all(), "zero_without_noise",
                       lambda: f"{var}, {cov} without noise")
        if ft != "least_squares":
            # other levels at the points, same noise
            move = rng.normal(size=(k, m)) * 10.0 ** rng.integers(-2, 3)
            sam2 = {i: [v + move[i] for v in samples[i]] for i in samples}
            h2 = build(sam2)
            mon.count("shifted")
            s = max(np.abs(level).max(), np.abs(move).max()) * m
            v2, c2 = args(h2, "scalar"), args(h2, "vector")
            mon.expect(abs(v2 - var) <= 1e-9 * var + (1e-12 * s) ** 2 + 1e-12 * s * np.sqrt(var), "level_invariant", lambda: f"{var} -> {v2}")
            mon.expect((np.abs(c2 - cov) <= 1e-9 * np.abs(cov).max() + (1e-12 * s) ** 2 + 1e-12 * s * np.sqrt(np.abs(cov).max())).all(), "level_invariant_cov")
        if facts["use"] > 1:
            mon.sig("est", n, m, ft, facts["use"], facts["far"], facts["few"], facts["failed"])
    mon.sample(xs=xs, counts=counts, variance=var, region=region.radius, facts=ref[4] if ref else None)


def rule(n, rho, vec, o):
    vec = np.asarray(vec)
    if np.mean(vec > o.high_rho) > o.min_share_high_rho:
        return max(n - 1, o.min_n_evals)
    if np.mean(vec > o.low_rho) > o.min_share_low_rho or rho >= o.good_rho_threshold:
        return n
    return min(n + 1, o.max_n_evals)


def adapt(rng, mon):
    from tranquilo.adjust_n_evals import adjust_n_evals
    from tranquilo.options import NoiseAdaptationOptions

    for _ in range(60):
        lo = int(rng.integers(1, 5))
        hi = int(lo + rng.integers(0, 6))
        o = NoiseAdaptationOptions(min_n_evals=lo, max_n_evals=hi)
        if rng.random() < 0.5:
            low = float(rng.uniform(-0.2, 0.5))
            o = o._replace(low_rho=low, high_rho=low + float(rng.uniform(0, 0.8)), min_share_high_rho=float(gen.pick(rng, 0.5, 0.7, 0.95)),
                           min_share_low_rho=float(gen.pick(rng, 0.5, 0.8, 0.9)), good_rho_threshold=float(rng.uniform(-0.2, 1.0)))
        m = int(gen.pick(rng, 1, 2, 10, 100))
        base = gen.pick(rng, o.low_rho, o.high_rho, 0.0, 1.0)
        vec = rng.normal(size=m) * gen.pick(rng, 0.01, 0.3, 3.0) + base
        # exact thresholds and infinite ratios
        vec[rng.random(m) < 0.1] = gen.pick(rng, o.low_rho, o.high_rho)
        vec[rng.random(m) < 0.05] = gen.pick(rng, np.inf, -np.inf)
        if rng.random() < 0.3:
            share = gen.pick(rng, o.min_share_high_rho, o.min_share_low_rho)
            cut = int(round(share * m))
            vec = np.where(np.arange(m) < cut, 10.0, -10.0)
        rho = float(gen.pick(rng, o.good_rho_threshold, o.good_rho_threshold + 1e-9, o.good_rho_threshold - 1e-9, rng.normal(), np.inf, -np.inf))
        n = int(rng.integers(lo, hi + 1))
        v0 = vec.copy()
        new, up = adjust_n_evals(n_evals=n, rho=rho, rho_noise=vec, options=o)
        want = rule(n, rho, vec, o)
        mon.count("decisions")
        mon.count("ups" if want > n else "downs" if want < n else "keeps")
        d = lambda: f"n {n} -> {new}, {up}; should be {want}; rho {rho}, ratios {vec.tolist()[:10]}, {o}"
        mon.expect(new == want, "rule", d)
        mon.expect(bool(up) == (want > n), "increase_flag", d)
        mon.expect(lo <= new <= hi and abs(new - n) <= 1, "step_and_limits", d)
        mon.expect(np.array_equal(vec, v0), "ratios_modified")
        if want != n:
            mon.sig("adapt", want - n, m, lo, hi)


def loop(rng, mon):
    import tranquilo.tranquilo as tq
    from tranquilo.options import NoiseAdaptationOptions, VarianceEstimatorOptions

    lo = int(rng.integers(1, 3))
    hi = int(lo + rng.integers(0, 5))
    ada = dict(rho_noise_n_draws=int(gen.pick(rng, 3, 8)), min_n_evals=lo, max_n_evals=hi,
               high_rho=float(gen.pick(rng, 0.3, 0.6, 0.9)), min_share_high_rho=float(gen.pick(rng, 0.4, 0.7)))
    fail = gen.pick(rng, None, None, None, ("mix", 0.1))
    cfg = gen.make_config(rng, noisy=True, kind=gen.pick(rng, "q", "nl"), noise=float(gen.pick(rng, 0.0, 0.01, 0.1, 0.5)), fail=fail,
                          noise_adaptation_options=ada, n_evals_per_point=int(rng.integers(lo, hi + 1)))
    o = cfg["options"]
    opt = VarianceEstimatorOptions()._asdict()
    if rng.random() < 0.5:
        o["variance_estimator_options"] = dict(max_distance_factor=float(gen.pick(rng, 0.5, 1.0, 2.0, 5.0)), min_n_evals=int(gen.pick(rng, 2, 3, 6)))
        opt.update(o["variance_estimator_options"])
    orig = getattr(tq, "simulate_rho_noise", None)
    sims = []

    def spy(*a, **k):
        out = orig(*a, **k)
        sims.append(np.array(out))
        return out

    if orig is not None:
        tq.simulate_rho_noise = spy
    try:
        t = trace.run_traced(cfg, only=("variance_estimator",))
    finally:
        if orig is not None:
            tq.simulate_rho_noise = orig
    for ev in t.of_kind("variance"):
        ref = reference(ev["xs"], {i: list(v) for i, v in ev["fvecs"].items()}, cfg["functype"], ev["trustregion"],
                        opt["max_distance_factor"], opt["min_n_evals"])
        if ref is None:
            continue
        mon.count("run_estimates")
        if ev["model_type"] == "scalar":
            compare(ref, ev["out"], None, mon, "run_")
        else:
            compare(ref, ref[0], ev["out"], mon, "run_")
    oo = NoiseAdaptationOptions()._replace(**ada)
    st = t.states[1:]
    for k, s in enumerate(st):
        mon.expect(lo <= s.n_evals_per_point <= hi, "run_limits", lambda: f"{s.n_evals_per_point} outside {lo, hi}")
        if k + 1 < len(st):
            a, b = s.n_evals_per_point, st[k + 1].n_evals_per_point
            mon.expect(abs(a - b) <= 1, "run_step", lambda: f"{a} -> {b}")
            if len(sims) == len(st):
                mon.count("run_decisions")
                want = rule(a, s.rho, sims[k], oo)
                mon.expect(b == want, "run_rule", lambda: f"{a} -> {b}, should be {want}: rho {s.rho}, ratios {sims[k]}, {oo}")
                if a != b:
                    mon.sig("run", b - a, a, lo, hi)
