import math

import numpy as np

from checks.regions import make_region
from vk import gen

ID = "C27"
RULE = ("(a) exploration samples: dimensions x methods x distributions x bounds (many scales, start at a bound) x sizes x seeds, "
        "judged by bounds, size, empirical distribution, stratification and reproducibility; (b) volumes and radii against a "
        "recursion; (c) d-quality; (d) poisedness constants against independently built Lagrange polynomials, their values on a "
        "dense grid and a local search; (e) poisedness improvement replayed step by step; distinct by parameters of the case")
REQUIRED = {"samples": 300, "distributions": 100, "stratified": 40, "volumes": 2000, "d_quality": 200, "poisedness": 60,
            "poisedness_3d": 10, "improvements": 16, "lagrange_values": 500}
ASSUMPTIONS = ["finite bounds with lower < upper", "samples whose feature matrix has full rank with condition below 1e4 (or fewer points)",
               "poisedness is maximized by a local search from the center (known finding): random samples are judged against a local "
               "search and the global maximum as upper bound"]
CASE_TIMEOUT = 120

# (shape, sample) for which the local search misses the maximum (known finding)
KNOWN_LOCAL = [
    ("sphere", [[0.25], [-0.2], [-0.9]]),
    ("cube", [[0.2], [-0.15], [0.9]]),
]


def plan(tier, seed):
    k = 1 if tier == "quick" else 30
    return ([("explore", i) for i in range(80 * k)] + [("volume", i) for i in range(30 * k)] + [("quality", i) for i in range(30 * k)]
            + [("poised", i) for i in range(80 * min(k, 12))] + [("improve", i) for i in range(24 * min(k, 12))] + [("known", 0)])


def run_case(group, idx, rng, mon):
    globals()["do_" + group](rng, mon)


# ------------------------------------------------------------------------------ exploration
def do_explore(rng, mon):
    from tranquilo.exploration_sample import draw_exploration_sample

    for _ in range(5):
        d = int(rng.integers(1, 7))
        method = gen.pick(rng, "sobol", "halton", "latin_hypercube", "random")
        dist = gen.pick(rng, "uniform", "triangular")
        n = int(gen.pick(rng, 1, 2, 7, 10 * d, 512, 512))
        lo = rng.normal(size=d) * 10.0 ** rng.integers(-3, 4, size=d)
        up = lo + 10.0 ** rng.uniform(-2, 4, size=d)
        f = rng.uniform(0, 1, size=d)
        f[rng.random(d) < 0.15] = gen.pick(rng, 0.0, 1.0)
        x = np.clip(lo + f * (up - lo), lo, up)
        seed = int(rng.integers(1, 2**31))
        a = [x.copy(), lo.copy(), up.copy()]
        draw = lambda s: draw_exploration_sample(x=x, lower=lo, upper=up, n_samples=n, sampling_distribution=dist, sampling_method=method, seed=s)
        xs = draw(seed)
        d_ = lambda: f"{method}, {dist}, n {n}, lower {lo}, upper {up}, x {x}"
        mon.count("samples")
        if not mon.expect(np.shape(xs) == (n, d), "size", lambda: f"{np.shape(xs)}; " + d_()):
            return
        ulp = 4e-16 * np.maximum(np.abs(lo), np.abs(up))
        mon.expect((np.isfinite(xs) & (xs >= lo - ulp) & (xs <= up + ulp)).all(), "within_bounds", d_)
        mon.expect(all(np.array_equal(p, q) for p, q in zip(a, (x, lo, up))), "inputs_modified")
        mon.expect(np.array_equal(xs, draw(seed)), "reproducible", d_)
        if method in ("random", "latin_hypercube"):
            mon.expect(not np.array_equal(xs, draw(seed + 1)), "seed_used", d_)
        # probability integral transform
        u = (xs - lo) / (up - lo)
        if dist == "triangular":
            c = (x - lo) / (up - lo)
            with np.errstate(all="ignore"):
                left = np.where(c > 0, u**2 / np.where(c > 0, c, 1), 0.0)
                right = np.where(c < 1, 1 - (1 - u) ** 2 / np.where(c < 1, 1 - c, 1), 1.0)
            u = np.where(u < c, left, right)
        u = np.clip(u, 0, 1)
        if method == "latin_hypercube":
            frac = u * n
            if (np.abs(frac - np.round(frac)) > 1e-7).all():
                mon.count("stratified")
                mon.expect(all(len(set(np.floor(frac[:, j]).astype(int))) == n for j in range(d)), "one_point_per_stratum", d_)
        if n >= 512:
            mon.count("distributions")
            s = np.sort(u, axis=0)
            g = (np.arange(n) + 0.5)[:, None] / n
            lim = math.sqrt(math.log(2 / 1e-10) / (2 * n)) + 0.5 / n if method == "random" else 0.05
            mon.expect((np.abs(s - g).max(axis=0) <= lim).all(), "distribution", lambda: f"deviates by {np.abs(s - g).max(axis=0)}; " + d_())
            if d > 1:
                r = np.corrcoef(u.T)
                mon.expect((np.abs(r[~np.eye(d, dtype=bool)]) <= (7 / math.sqrt(n))).all(), "dimensions_uncorrelated", d_)
        if n > 1:
            mon.expect(len(np.unique(xs, axis=0)) == n, "distinct_points", d_)
        mon.sig("explore", d, method, dist, n)
    mon.sample(method=method, distribution=dist, n=n, lower=lo, upper=up, first=xs[0])


# ------------------------------------------------------------------------------ volumes
def ball(n):
    return 1.0 if n == 0 else 2.0 if n == 1 else ball(n - 2) * 2 * math.pi / n


def do_volume(rng, mon):
    from tranquilo import volume as v

    for _ in range(80):
        n = int(rng.integers(1, 21))
        r = float(10.0 ** rng.uniform(-4, 4))
        mon.count("volumes")
        for shape, unit in (("sphere", ball(n)), ("cube", 2.0**n)):
            vol = v.get_volume(radius=r, dim=n, shape=shape)
            mon.expect(abs(vol / (unit * r**n) - 1) <= 1e-9, "volume", lambda: f"{shape} {n} {r}: {vol} instead of {unit * r**n}")
            mon.expect(abs(v.get_radius(volume=vol, dim=n, shape=shape) / r - 1) <= 1e-9, "radius_inverse", lambda: f"{shape} {n} {r}")
            f = float(10.0 ** rng.uniform(-5, 2))
            r2 = v.get_radius_after_volume_scaling(radius=r, dim=n, scaling_factor=f)
            mon.expect(abs((r2 / r) ** n / f - 1) <= 1e-9, "scaling", lambda: f"{n} {r} {f}: {r2}")
            to, back = ((v.get_radius_of_cube_with_volume_of_sphere, v.get_radius_of_sphere_with_volume_of_cube) if shape == "sphere"
                        else (v.get_radius_of_sphere_with_volume_of_cube, v.get_radius_of_cube_with_volume_of_sphere))
            other = (2.0**n) if shape == "sphere" else ball(n)
            q = to(r, n)
            mon.expect(abs((q / r) ** n * other / unit - 1) <= 1e-8, "equal_volume", lambda: f"{shape} {n} {r}: {q}")
            mon.expect(abs(back(q, n) / r - 1) <= 1e-9, "convert_back")
            qf = to(r, n, scaling_factor=f)
            mon.expect(abs((qf / q) ** n / f - 1) <= 1e-8, "equal_volume_scaled", lambda: f"{shape} {n} {r} {f}: {qf}")
        mon.sig("volume", n)


def do_quality(rng, mon):
    from tranquilo.geometry import log_d_quality_calculator

    for _ in range(12):
        n = int(rng.integers(1, 6))
        region, _k = make_region(rng, n=n)
        if (np.asarray(region.effective_radius) <= 1e-6 * np.abs(region.center).max()).any():
            continue
        k = int(rng.integers(1, 3 * n + 2))
        u = rng.uniform(-1, 1, size=(k, n))
        f = 1.0
        if rng.random() < 0.4 and (np.asarray(region.effective_radius) > 1e-2 * np.abs(region.center).max()).all():
            f = 10.0 ** rng.uniform(-6, -1)  # points close to the center
            mon.count("small_samples")
        u = u * f
        xs = region.map_from_unit(u)
        b = xs.copy()
        q = log_d_quality_calculator(sample=xs, trustregion=region)
        mon.count("d_quality")
        mon.expect(np.array_equal(xs, b), "quality_input_modified")
        sv = np.linalg.svd(u, compute_uv=False) if k >= n else np.zeros(1)
        if sv.min() > 1e-4 * f:
            want = 2 * np.log(sv).sum()
            mon.expect(abs(q - want) <= 1e-5 + 1e-6 / f * 1e-4, "d_quality", lambda: f"{q} instead of {want} for {u.tolist()}")
        elif k < n:
            mon.expect(not q > -15, "d_quality_singular", lambda: f"{q} for {k} points in dimension {n}")
        mon.sig("quality", n, k, region.shape)


# ------------------------------------------------------------------------------ poisedness
def feats(x):
    x = np.atleast_2d(x)
    n = x.shape[1]
    cols = [np.ones(len(x))] + [x[:, i] for i in range(n)]
    cols += [x[:, i] * x[:, j] * (0.5 if i == j else 1.0) for i in range(n) for j in range(i, n)]
    return np.array(cols).T


def lagrange(sample):
    """Coefficients (one row per point): least squares / minimum norm Lagrange polynomials."""
    B = feats(sample)
    return np.linalg.pinv(B).T  # row i: polynomial of point i


def draw_sample(rng, shape, n=None, k=None):
    n = n or int(gen.pick(rng, 1, 2, 2, 3))
    p = (n + 1) * (n + 2) // 2
    k = k or int(gen.pick(rng, p, p, p + 2, n + 2, n + 1))
    for _ in range(50):
        s = rng.normal(size=(k, n))
        s /= np.linalg.norm(s, axis=1, keepdims=True) if shape == "sphere" else np.abs(s).max(axis=1, keepdims=True)
        s *= np.maximum(rng.uniform(0.3, 1, size=(k, 1)), (rng.random((k, 1)) < 0.4))
        if np.linalg.cond(feats(s)) < 200:
            break
    return s


def dense(rng, shape, n, extra):
    if n == 1:
        z = np.linspace(-1, 1, 2001)[:, None]
    else:
        z = rng.normal(size=(20000, n))
        if shape == "sphere":
            z /= np.linalg.norm(z, axis=1, keepdims=True)
            z[:10000] *= rng.uniform(size=(10000, 1)) ** (1 / n)
        else:
            z = rng.uniform(-1, 1, size=(20000, n))
            z[:10000, 0] = np.sign(z[:10000, 0])
            corners = np.array(np.meshgrid(*[[-1.0, 1.0]] * n)).reshape(n, -1).T
            z = np.vstack([z, corners])
    return np.vstack([z, extra, np.zeros((1, n))])


def proj(shape, x):
    if shape == "cube":
        return np.clip(x, -1, 1)
    nrm = np.linalg.norm(x)
    return x / nrm if nrm > 1 else x


def global_bound(shape, n, c):
    """Certified upper bound of |polynomial| on the region."""
    r1 = np.linalg.norm(c[1:n + 1]) if shape == "sphere" else np.abs(c[1:n + 1]).sum()
    H = hess(c, n)
    if shape == "sphere":
        ev = np.linalg.eigvalsh(H)
        q = 0.5 * max(abs(ev[0]), abs(ev[-1]))
    else:
        q = 0.5 * np.abs(H).sum()
    return abs(c[0]) + r1 + q


def hess(c, n):
    H = np.zeros((n, n))
    it = iter(c[n + 1:])
    for i in range(n):
        for j in range(i, n):
            H[i, j] = H[j, i] = next(it)
    return H


def judge_constant(s, shape, rng, mon, pre=""):
    from tranquilo.poisedness import get_poisedness_constant

    n = s.shape[1]
    b = s.copy()
    lam, arg, i = get_poisedness_constant(sample=s, shape=shape)
    mon.count("poisedness")
    mon.count("poisedness_3d", n >= 3)
    d = lambda: f"{shape}, sample {b.tolist()}: constant {lam} at {np.asarray(arg).tolist()} of point {i}"
    mon.expect(np.array_equal(s, b), pre + "poisedness_input_modified")
    L = lagrange(b)
    # the reference polynomials satisfy their definition
    V = feats(b) @ L.T
    mon.count("lagrange_values", V.size)
    if len(b) <= feats(b).shape[1]:
        mon.expect(np.abs(V - np.eye(len(b))).max() <= 1e-6, pre + "reference_lagrange", d)
    arg = np.asarray(arg, float)
    ok = np.shape(arg) == (n,) and 0 <= int(i) < len(b)
    if not mon.expect(ok, pre + "result_form", d):
        return
    size = np.linalg.norm(arg) if shape == "sphere" else np.abs(arg).max()
    mon.expect(size <= 1 + 1e-6, pre + "maximizer_in_region", d)
    at = abs(float(feats(arg)[0] @ L[int(i)]))
    mon.expect(abs(at - lam) <= 1e-6 * (1 + lam), pre + "value_at_maximizer", lambda: d() + f"; polynomial is {at} there")
    # no other polynomial is larger at the maximizer or at the center, where the search starts
    mon.expect(lam >= np.abs(L[:, 0]).max() * (1 - 1e-3), pre + "not_below_center", lambda: d() + f"; values at center {L[:, 0]}")
    # a local maximum
    step = [proj(shape, arg + h * v) for h in (1e-3, 1e-2) for v in np.vstack([np.eye(n), -np.eye(n), rng.normal(size=(20, n))])]
    near = np.abs(feats(np.array(step)) @ L[int(i)])
    mon.expect(near.max() <= lam * (1 + 5e-3) + 1e-9, pre + "local_maximum", lambda: d() + f"; but {near.max()} nearby")
    # as large as a local search from the center finds for every polynomial
    from scipy.optimize import minimize

    best = 0.0
    for c in L:
        f = lambda x, c=c: -abs(float(feats(x)[0] @ c))
        if shape == "cube":
            from scipy.optimize import Bounds

            r = minimize(f, np.zeros(n), method="trust-constr", bounds=Bounds(-np.ones(n), np.ones(n)))
        else:
            from scipy.optimize import NonlinearConstraint

            r = minimize(f, np.zeros(n), method="trust-constr", constraints=[NonlinearConstraint(lambda x: np.linalg.norm(x), 0, 1)])
        best = max(best, -f(proj(shape, r.x)))
    mon.expect(lam >= best * (1 - 2e-2), pre + "local_search", lambda: d() + f"; a local search from the center reaches {best}")
    upper = max(global_bound(shape, n, c) for c in L)
    mon.expect(lam <= upper * (1 + 1e-6), pre + "below_upper_bound", lambda: d() + f"; upper bound {upper}")
    top = float(np.abs(feats(dense(rng, shape, n, arg[None])) @ L.T).max())
    mon.count("global_maximum_found", lam >= top * (1 - 1e-2))
    mon.count("global_maximum_missed", lam < top * (1 - 1e-2))
    return lam, arg, int(i), top


def do_poised(rng, mon):
    shape = gen.pick(rng, "sphere", "cube")
    s = draw_sample(rng, shape)
    r = judge_constant(s, shape, rng, mon)
    if r:
        mon.sig("poised", shape, s.shape, r[2])
        mon.sample(shape=shape, sample=s, constant=r[0], maximizer=r[1], dense_maximum=r[3])


def do_improve(rng, mon):
    from tranquilo.poisedness import get_poisedness_constant, improve_poisedness

    shape = gen.pick(rng, "sphere", "cube")
    n = int(gen.pick(rng, 1, 2, 2))
    s = draw_sample(rng, shape, n=n)
    b = s.copy()
    it = int(rng.integers(1, 4))
    out, lambdas = improve_poisedness(sample=s, shape=shape, maxiter=it)
    mon.count("improvements")
    d = lambda: f"{shape}, {it} iterations, {b.tolist()} -> {np.asarray(out).tolist()}, {lambdas}"
    mon.expect(np.array_equal(s, b), "improve_input_modified", d)
    mon.expect(np.shape(out) == b.shape and len(lambdas) == it, "improve_form", d)
    size = np.linalg.norm(out, axis=1) if shape == "sphere" else np.abs(out).max(axis=1)
    mon.expect((size <= 1 + 1e-6).all(), "improve_in_region", d)
    changed = (out != b).any(axis=1).sum()
    mon.expect(changed <= it, "improve_replaces_one_per_iteration", d)
    cur = b.copy()
    for j in range(it):
        lam, arg, i = get_poisedness_constant(sample=cur, shape=shape)
        mon.expect(abs(lam - lambdas[j]) <= 1e-8 * lam, "improve_lambdas", lambda: d() + f"; iteration {j}: {lam}")
        cur = cur.copy()
        cur[i] = arg
    mon.expect(np.allclose(cur, out, rtol=0, atol=1e-8), "improve_replacement", lambda: d() + f"; expected {cur.tolist()}")
    mon.sig("improve", shape, n, it, len(b))


def do_known(rng, mon):
    """Listed inputs for which the constant is only a local maximum."""
    for k, (shape, s) in enumerate(KNOWN_LOCAL):
        r = judge_constant(np.array(s), shape, rng, mon, "fixed_")
        if r and r[0] < r[3] * (1 - 1e-2):
            mon.violate(f"poisedness_local_maximum:{k}", f"{shape}, sample {s}: constant {r[0]}, but a polynomial attains {r[3]}")
