import numpy as np

from checks import models
from checks.regions import make_region
from vk import gen, trace

ID = "C12"
RULE = ("(a) random samples (fewer points than unknowns up to three times as many, 1-5 parameters, 1-6 residuals of different "
        "magnitude, all region shapes, infinite entries, integer weights, duplicates, old models from other regions) fitted by all "
        "built-in fitters with default and random options; exact data on badly conditioned samples (1e3 to 1e7); (b) the samples of recorded iterations of real runs; each model is judged "
        "by the optimality conditions of the documented estimation problem; distinct by (fitter, type, regime, n, residuals, features)")
REQUIRED = {"ols": 150, "ridge": 150, "tranquilo": 150, "powell": 150, "underdetermined": 150, "identified": 200, "residualized": 150,
            "weighted": 80, "with_infinite": 80, "exact": 100, "minimum_norm": 50, "minimum_frobenius": 20, "ridge_stationary": 100,
            "per_residual": 100, "scaled": 100, "run_fits": 100, "thin_samples": 50, "user_fitters": 30}
ASSUMPTIONS = ["judged in the unit coordinates of the region; optimality conditions only for samples with a condition number of the relevant feature matrix below 1e3",
               "powell ignores weights (it has no such argument); the points have to be affinely well conditioned",
               "infinite entries are replaced by the repository's own handler, which C17 judges"]
CASE_TIMEOUT = 60
TOL = 1e-7


def plan(tier, seed):
    k = 1 if tier == "quick" else 60
    return [("direct", i) for i in range(110 * k)] + [("run", i) for i in range(40 * min(k, 25))] + [("thin", i) for i in range(12 * min(k, 40))] + [("user", i) for i in range(16 * min(k, 10))]


# ------------------------------------------------------------------------------ references
def features(u, quad):
    n = u.shape[1]
    cols = [np.ones(len(u))] + [u[:, i] for i in range(n)]
    if quad:
        cols += [u[:, i] * u[:, j] for i in range(n) for j in range(i, n)]
    return np.array(cols).T


def moved(old, region_center, region_scale):
    """The old model expressed around another center and scale (the same function of x)."""
    a, g, h = models.parts(old)
    s0 = np.asarray(old.scale, float) * np.ones(g.shape[1])
    s1 = np.asarray(region_scale, float) * np.ones(g.shape[1])
    d = (region_center - np.asarray(old.shift)) / s0
    r = s1 / s0
    a1 = a + g @ d + 0.5 * np.einsum("i,kij,j->k", d, h, d)
    g1 = (g + h @ d) * r
    h1 = h * np.outer(r, r)
    return a1, g1, h1


def coefs(a, g, h, quad):
    n = g.shape[1]
    out = [a[:, None], g]
    if quad:
        out.append(np.array([[h[k, i, j] * (0.5 if i == j else 1.0) for i in range(n) for j in range(i, n)] for k in range(len(a))]).reshape(len(a), -1))
    return np.hstack(out)


def unit(x, region):
    return (x - np.asarray(region.effective_center)) / np.asarray(region.effective_radius)


def cond(F):
    s = np.linalg.svd(F, compute_uv=False)
    return np.inf if s.min() == 0 else s.max() / s.min()


def null(F):
    _, s, vt = np.linalg.svd(F)
    return vt[(s > 1e-10 * s.max()).sum():].T


def small(v, scale):
    return bool((np.abs(v) <= TOL * scale + 1e-290).all())


# ------------------------------------------------------------------------------ oracle
def judge(fitter, opts, model_type, x, y, region, old, weights, model, mon, pre=""):
    """y is the clipped data; old is None if not residualized."""
    n, m = x.shape[1], y.shape[1]
    quad = model_type == "quadratic"
    u = unit(x, region)
    a, g, h = models.parts(model)
    d = lambda: (f"{fitter} {model_type}, {len(x)} points, n {n}, residuals {m}, residualized {old is not None}, weights {weights}, "
                 f"options {opts}, unit x {u.tolist()}, y {y.tolist()}")
    ok = a.shape == (m,) and g.shape == (m, n) and h.shape == (m, n, n) and all(np.isfinite(q).all() for q in (a, g, h))
    if not mon.expect(ok, pre + "form", d):
        return
    mon.expect(np.array_equal(np.asarray(model.shift) * np.ones(n), np.asarray(region.effective_center) * np.ones(n))
               and np.array_equal(np.asarray(model.scale) * np.ones(n), np.asarray(region.effective_radius) * np.ones(n)),
               pre + "region_coordinates", lambda: d() + f"; shift {model.shift} scale {model.scale}")
    if quad or (old is not None and old.square_terms is not None):
        mon.expect(np.shape(model.square_terms) == (m, n, n) and (np.abs(h - h.transpose(0, 2, 1)) <= 1e-12 * np.abs(h)).all(), pre + "symmetric_hessian", d)
    if old is not None:
        mon.count("residualized")
        a0, g0, h0 = moved(old, np.asarray(region.effective_center), region.effective_radius)
        pred0 = features(u, True) @ coefs(a0, g0, h0, True).T
        big = 1 + np.abs(coefs(a0, g0, h0, True)).max() / max(np.abs(y).max(), 1e-300)
        if big > 1e4:  # the correction cannot be separated from rounding
            mon.count("old_model_too_large")
            return
    else:
        a0, g0, h0, pred0, big = 0.0, 0.0, 0.0, 0.0, 1.0
    z = y - pred0
    H = h - h0
    if not quad:
        # a linear fit leaves the square terms alone
        lim = TOL * np.abs(h0).max() if old is not None else 0.0
        mon.expect(np.abs(H).max() <= lim, pre + "linear_has_no_square_terms", d)
    C = coefs(a - a0, g - g0, H, quad)
    F = features(u, quad)
    w = np.ones(len(u)) if weights is None or fitter == "powell" else np.asarray(weights, float)
    Fw, zw = F * np.sqrt(w)[:, None], z * np.sqrt(w)[:, None]
    N, p = F.shape
    zmag = (np.abs(zw).max(axis=0) + np.abs(np.asarray(pred0) * np.sqrt(w)[:, None]).max(axis=0) + np.abs(y).max(axis=0))  # per residual
    if fitter == "powell" and N <= n + 1:
        mon.count("powell_linear")
        mon.expect(np.abs(H).max() <= TOL * (np.abs(h0).max() if old is not None else 0), pre + "powell_linear", d)
        F = Fw = features(u, False)
        C, p, quad = C[:, :n + 1], n + 1, False
    fmag = np.abs(Fw).max() ** 2
    mags = fmag * N * (zmag + np.abs(C.T).max(axis=0))
    mon.count("underdetermined" if N < p else "identified")
    if fitter == "ridge":
        pen = np.array([0.0] + [opts["l2_penalty_linear"]] * n + [opts["l2_penalty_square"]] * (p - n - 1))
        if pen[1:].min() >= 1e-6 or (N >= p and cond(Fw) < 1e3):
            mon.count("ridge_stationary")
            grad = Fw.T @ (Fw @ C.T - zw) + pen[:, None] * C.T
            mon.expect(small(grad, mags * (1 + pen.max())), pre + "ridge_stationary", lambda: d() + f"; gradient of the objective {grad.T.tolist()}, coefficients {C.tolist()}")
        return
    if cond(Fw) > 1e3:
        mon.count("ill_conditioned_skipped")
        return
    if fitter == "powell" and quad and n + 1 < N < p and cond(features(u, False)) > 1e3:
        mon.count("ill_conditioned_skipped")
        return
    grad = Fw.T @ (Fw @ C.T - zw)
    mon.count("least_squares_stationary")
    mon.expect(small(grad, mags), pre + "normal_equations", lambda: d() + f"; gradient {grad.T.tolist()}, coefficients {C.tolist()}")
    if N < p:
        mon.expect(small(Fw @ C.T - zw, np.abs(Fw).max() * 1e2 * (zmag + np.abs(C.T).max(axis=0))), pre + "interpolates", d)
        V = null(Fw)
        if fitter == "tranquilo":
            mon.count("minimum_norm")
            q = np.array([opts["p_intercept"]] + [opts["p_linear"]] * n + [opts["p_square"]] * (p - n - 1)) ** 2
            mon.expect(small(V.T @ (q[:, None] * C.T), 1e2 * (q[:, None] * np.abs(C.T)).sum(axis=0) + 1e-3 * zmag), pre + "minimum_weighted_norm",
                       lambda: d() + f"; coefficients {C.tolist()}, not optimal along {(V.T @ (q[:, None] * C.T)).tolist()}")
        if fitter == "powell" and quad:
            mon.count("minimum_frobenius")
            q = np.array([0.0] * (n + 1) + [4.0 if i == j else 2.0 for i in range(n) for j in range(i, n)])
            mon.expect(small(V.T @ (q[:, None] * C.T), 1e3 * zmag), pre + "minimum_frobenius_norm", lambda: d() + f"; coefficients {C.tolist()}")
    mon.sig(fitter, model_type, int(np.sign(N - p)), n, m, old is not None, weights is not None)


# ------------------------------------------------------------------------------ workloads
def options(rng, fitter):
    o = dict(l2_penalty_linear=0.0, l2_penalty_square=0.1, p_intercept=0.05, p_linear=0.4, p_square=1.0)
    if rng.random() < 0.5:
        return o, None
    u = {}
    if fitter == "ridge":
        u = dict(l2_penalty_linear=float(gen.pick(rng, 0.0, 1e-3, 0.5, 10.0)), l2_penalty_square=float(gen.pick(rng, 1e-3, 0.3, 5.0)))
    if fitter == "tranquilo":
        u = dict(p_intercept=float(rng.uniform(0.05, 1)), p_linear=float(rng.uniform(0.2, 1)), p_square=float(rng.uniform(0.5, 2)))
    u = {k: v for k, v in u.items() if rng.random() < 0.8}
    return {**o, **u}, (u or None)


def sample_x(rng, region, n, N):
    u = rng.uniform(-1, 1, size=(N, n))
    if rng.random() < 0.5:
        u /= np.abs(u).max(axis=1, keepdims=True)
    if rng.random() < 0.5:
        u[0] = 0
    if rng.random() < 0.3:
        u = u * 2
    c, s = np.asarray(region.effective_center), np.asarray(region.effective_radius)
    return c + u * s


def run_case(group, idx, rng, mon):
    return globals()[group](rng, mon)


def thin(rng, mon):
    """Identified but badly conditioned samples (all points in a slab): exact data are still reproduced exactly."""
    from tranquilo.fit_models import get_fitter

    for _ in range(12):
        fitter = gen.pick(rng, "ols", "tranquilo", "powell")
        mt = gen.pick(rng, "linear", "quadratic")
        quad = mt == "quadratic"
        n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        region, _k = make_region(rng, n=n)
        s = np.asarray(region.effective_radius) * np.ones(n)
        if (s < 1e-3 * np.abs(region.effective_center).max()).any() or (s <= 0).any():
            continue
        p = 1 + n + (n * (n + 1) // 2 if quad else 0)
        N = int(gen.pick(rng, p + 1, 2 * p, 3 * p))
        u = rng.uniform(-1, 1, size=(N, n))
        q, _r = np.linalg.qr(rng.normal(size=(n, n)))
        width = 10.0 ** rng.uniform(-6, -2.5)
        f = np.ones(n)
        f[int(rng.integers(n))] = width ** (0.5 if quad else 1.0)
        u = (u * f) @ (q if rng.random() < 0.5 else np.eye(n)) / np.sqrt(n) + rng.uniform(-0.2, 0.2, n) * (rng.random() < 0.5)
        x = np.asarray(region.effective_center) + u * s
        u = unit(x, region)
        F = features(u, quad)
        c = cond(F)
        if not 1e3 < c < 1e7:
            continue
        mon.count("thin_samples")
        truth = models.vector_model(rng, n, m, quad, s, np.asarray(region.effective_center), mag=1.0)
        y = models.evaluate(truth, u)[0]
        model = get_fitter(fitter=fitter, fitter_options=None, model_type=mt, infinity_handling="relative", residualize=False)(
            x, y.copy(), region=region, old_model=None, weights=None)
        C, T = coefs(*models.parts(model), quad), coefs(*models.parts(truth), quad)
        big = np.abs(T).max() + 1e-300
        lim = max(1e-8, 1e-12 * c)
        mon.expect(np.abs(F @ (C - T).T).max() <= 1e-9 * big and np.abs(C - T).max() <= lim * big, "thin_exact",
                   lambda: f"{fitter} {mt}, condition number {c:.1e}, unit x {u.tolist()}: coefficients {C.tolist()} instead of {T.tolist()}")
        mon.sig("thin", fitter, mt, n, int(np.log10(c)))


def direct(rng, mon):
    from tranquilo.fit_models import get_fitter
    from tranquilo.handle_infinity import get_infinity_handler

    clip = get_infinity_handler("relative")
    for _ in range(14):
        fitter = gen.pick(rng, "ols", "ridge", "tranquilo", "powell")
        mt = gen.pick(rng, "linear", "quadratic", "quadratic")
        quad = mt == "quadratic"
        n, m = int(rng.integers(1, 6)), int(rng.integers(1, 7))
        region, _k = make_region(rng, n=n)
        s = np.asarray(region.effective_radius) * np.ones(n)
        if (s < 1e-5 * np.abs(region.effective_center).max()).any() or (s <= 0).any():
            continue
        p = 1 + n + (n * (n + 1) // 2 if quad else 0)
        N = int(gen.pick(rng, n + 1, n + 2, 2 * n + 1, p, p + 1, 2 * p, max(2, p - 1), 3 * p, max(1, n)))
        x = sample_x(rng, region, n, N)
        if 2 <= n < N - 1 and rng.random() < 0.4:
            # the points at the beginning of the sample are on a line, as after a line search
            mon.count("first_points_degenerate")
            x[2] = x[0] + rng.uniform(0.2, 0.8) * (x[1] - x[0])
        u = unit(x, region)
        mags = 10.0 ** rng.integers(-3, 4, size=m)
        truth = models.vector_model(rng, n, m, quad, s, np.asarray(region.effective_center), mag=1.0)
        kind = gen.pick(rng, "exact", "exact", "random", "random", "nonlinear")
        if kind == "exact":
            y = models.evaluate(truth, u)[0] * mags
        elif kind == "random":
            y = rng.normal(size=(N, m)) * mags
        else:
            y = (np.sin(3 * u).sum(axis=1)[:, None] + np.cos(u @ rng.normal(size=(n, m)))) * mags
        raw = y.copy()
        if N > 2 and rng.random() < 0.25:
            mon.count("with_infinite")
            kind = "inf"
            bad = rng.random((N, m)) < 0.2
            raw[bad] = np.inf
        elif rng.random() < 0.1:
            mon.count("nothing_infinite")
        yc = np.asarray(clip(raw.copy()), float)
        weights = None
        if rng.random() < 0.3 and N > 1:
            weights = rng.integers(1, 6, size=N).astype(float)
            mon.count("weighted", fitter != "powell")
        o, uo = options(rng, fitter)
        old = None
        if rng.random() < 0.5:
            reg2, _k = make_region(rng, n=n)
            near = np.asarray(region.effective_center) + rng.normal(size=n) * s
            old = models.vector_model(rng, n, m, rng.random() < 0.7, s * np.exp(rng.normal()), near, mag=1.0)
            old = old._replace(intercepts=old.intercepts * mags, linear_terms=old.linear_terms * mags[:, None],
                               square_terms=None if old.square_terms is None else old.square_terms * mags[:, None, None]) if hasattr(old, "_replace") else old
        mon.count(fitter)
        fit = get_fitter(fitter, fitter_options=dict(uo) if uo else None, model_type=mt, residualize=old is not None, infinity_handling="relative")
        keep = (x.copy(), raw.copy(), None if weights is None else weights.copy(), models.copy_of(old) if old is not None else None)
        call = lambda yy, **kw: fit(x, yy, region=region, old_model=old, weights=weights, **kw)
        model = call(raw)
        mon.expect(np.array_equal(x, keep[0]) and np.array_equal(raw, keep[1]) and (weights is None or np.array_equal(weights, keep[2]))
                   and (old is None or models.same(old, keep[3])), "inputs_modified")
        judge(fitter, o, mt, x, yc, region, old, weights, model, mon)
        F = features(u, quad)
        fw = F if weights is None or fitter == "powell" else F * np.sqrt(weights)[:, None]
        good = N >= p and cond(fw) < 1e3
        # data of a model of the fitted class are reproduced everywhere
        if kind == "exact" and fitter != "ridge" and good and (old is None or (np.abs(coefs(*moved(old, region.effective_center, s), True)).max(axis=1) < 1e3 * np.abs(y).max(axis=0)).all()) \
                and (quad or old is None or old.square_terms is None):
            mon.count("exact")
            z = rng.uniform(-1.5, 1.5, size=(4, n))
            want = models.evaluate(truth, z)[0] * mags
            got, mg = models.evaluate(model, z)
            lim = 1e-6 * (np.abs(want).max(axis=0) + np.abs(y).max(axis=0))
            mon.expect((np.abs(got - want) <= lim).all(), "exact", lambda: f"{fitter} {mt} {N} points: {got} instead of {want}")
        same_up_to = lambda A, B, mag: all((np.abs(q - r) <= 1e-6 * mag.reshape(-1, *[1] * (q.ndim - 1))).all() for q, r in zip(models.parts(A), models.parts(B)))
        well = cond(fw) < 1e3 and (fitter != "powell" or not quad or not (n + 1 < N < p) or cond(features(u, False)) < 1e3)
        mag = np.array([max(np.abs(q[k]).max() for q in models.parts(model)) for k in range(m)]) + np.abs(yc).max(axis=0)
        if old is not None:
            mag = mag + np.abs(coefs(*moved(old, np.asarray(region.effective_center), s), True)).max(axis=1)
        if well and m > 1:
            # every residual on its own
            k = int(rng.integers(m))
            sub = None
            if old is not None:
                a0, g0, h0 = models.parts(old)
                sub = type(old)(intercepts=a0[k:k + 1], linear_terms=g0[k:k + 1], square_terms=None if old.square_terms is None else h0[k:k + 1],
                                shift=old.shift, scale=old.scale)
            alone = fit(x, raw[:, [k]], region=region, old_model=sub, weights=weights)
            mon.count("per_residual")
            mon.expect(all((np.abs(q[[k]] - r) <= 1e-7 * mag[k]).all() for q, r in zip(models.parts(model), models.parts(alone))), "per_residual",
                       lambda: f"{fitter} {mt}: residual {k} fitted alone differs: {models.parts(alone)} instead of {[q[k] for q in models.parts(model)]}")
        if well and old is None and np.isfinite(raw).all():
            f = float(gen.pick(rng, -1.0, -3.0, 1e3, 1e-3))
            sc = call(raw * f)
            mon.count("scaled")
            mon.expect(same_up_to(sc, type(model)(*[None if q is None else np.asarray(q) * f for q in (model.intercepts, model.linear_terms, model.square_terms)],
                                                  shift=model.shift, scale=model.scale), mag * abs(f)), "scaling_equivariance", lambda: f"{fitter} {mt} factor {f}")
            perm = rng.permutation(N)
            pm = fit(x[perm], raw[perm], region=region, old_model=None, weights=None if weights is None else weights[perm])
            mon.expect(same_up_to(pm, model, mag), "order_of_points", lambda: f"{fitter} {mt}")
    mon.sample(fitter=fitter, type=mt, points=N, n=n, residuals=m, residualized=old is not None)


def run(rng, mon):
    """The samples and trust regions of recorded iterations."""
    from tranquilo.fit_models import get_fitter
    from tranquilo.handle_infinity import get_infinity_handler

    cfg = gen.make_config(rng, kind=gen.pick(rng, "q", "nl", "rosen"))
    t = trace.run_plain(cfg)
    states = t.states[1:]
    if not states:
        return
    clip = get_infinity_handler("relative")
    for _ in range(5):
        k = int(rng.integers(len(states)))
        s = states[k]
        xs, ys = t.history.get_model_data(np.asarray(s.model_indices), average=True)
        fitter = gen.pick(rng, "ols", "ridge", "tranquilo", "powell")
        mt = gen.pick(rng, "linear", "quadratic")
        r = s.trustregion
        sc = np.asarray(r.effective_radius)
        if (sc < 1e-5 * np.abs(r.effective_center).max()).any() or not np.isfinite(ys).any() or np.abs(ys[np.isfinite(ys)]).max() > 1e100:
            continue
        old = t.states[0].vector_model if rng.random() < 0.5 else (states[k - 1].vector_model if k else None)
        o, uo = options(rng, fitter)
        mon.count("run_fits")
        mon.count(fitter)
        yc = np.asarray(clip(ys.copy()), float)
        model = get_fitter(fitter, fitter_options=dict(uo) if uo else None, model_type=mt, residualize=old is not None, infinity_handling="relative")(
            xs, ys, region=r, old_model=old, weights=None)
        judge(fitter, o, mt, xs, yc, r, old, None, model, mon, "run_")


def user(rng, mon):
    """A user supplied fitter sees unit space points and clipped data; its coefficients become the model."""
    from tranquilo.fit_models import get_fitter

    for _ in range(4):
        n, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        mt = gen.pick(rng, "linear", "quadratic")
        region, _k = make_region(rng, n=n)
        s = np.asarray(region.effective_radius) * np.ones(n)
        if (s < 1e-5 * np.abs(region.effective_center).max()).any():
            continue
        N = int(rng.integers(2, 9))
        x = sample_x(rng, region, n, N)
        y = rng.normal(size=(N, m))
        p = 1 + n + (n * (n + 1) // 2 if mt == "quadratic" else 0)
        C = rng.normal(size=(m, p))
        seen = {}

        def mine(x, y, model_type, weights):
            seen.update(x=x.copy(), y=y.copy(), model_type=model_type, weights=weights)
            return C.copy()

        def handler(f):
            return f + 1.0

        old = models.vector_model(rng, n, m, True, s, np.asarray(region.effective_center), mag=1.0) if rng.random() < 0.5 else None
        wts = gen.pick(rng, None, rng.uniform(1, 2, size=N))
        model = get_fitter(mine, model_type=mt, residualize=old is not None, infinity_handling=handler)(x, y, region=region, old_model=old, weights=wts)
        mon.count("user_fitters")
        u = unit(x, region)
        mon.expect(np.allclose(seen["x"], u, rtol=0, atol=1e-9 + 1e-14 * np.abs(x).max() / s.min()) and seen["model_type"] == mt, "user_fitter_gets_unit_points", lambda: f"{seen}")
        want = y + 1.0 - (models.evaluate(old, u)[0] if old is not None else 0)
        mon.expect(np.allclose(seen["y"], want, rtol=1e-9, atol=1e-9 * (1 + np.abs(want).max())), "user_fitter_gets_clipped_data", lambda: f"{seen['y']} instead of {want}")
        mon.expect((seen["weights"] is None) == (wts is None) and (wts is None or np.array_equal(seen["weights"], wts)), "user_fitter_gets_weights")
        z = rng.uniform(-1, 1, size=(3, n))
        want = features(z, mt == "quadratic") @ C.T + (models.evaluate(old, z)[0] if old is not None else 0)
        got = models.evaluate(model, z)[0]
        mon.expect(np.allclose(got, want, rtol=1e-8, atol=1e-8 * (1 + np.abs(want).max())), "coefficients_to_model", lambda: f"{got} instead of {want}")
