import numpy as np

from checks.regions import box, limits, make_region
from vk import gen, trace

ID = "C11"
RULE = ("(a) direct sampler calls: random regions x dimensions x numbers of points (including 0) x existing points "
        "(none, few, at the center, duplicates) x samplers x options; (b) all sampler calls inside optimization runs; "
        "non-trivial: at least one new point; distinct by (sampler, shape, n, number of points, options)")
REQUIRED = {"samples": 1500, "points": 5000, "hull_points": 3000, "cube_samples": 500, "optimality_checked": 300,
            "reproduced": 400, "run_samples": 500, "random_searches": 12}
ASSUMPTIONS = ["d-optimality: determinant of X'X in unit space; existing points closer than 0.1 to the center are "
               "disregarded for the distance criterion, as in the sampler"]
CASE_TIMEOUT = 60
TIMEOUT_IS_VIOLATION = True


def plan(tier, seed):
    k = 1 if tier == "quick" else 15
    return ([("direct", i) for i in range(240 * k)] + [("optimal", i) for i in range(160 * k)] + [("interior", i) for i in range(40 * k)]
            + [("run", i) for i in range(60 * k)] + [("search", i) for i in range(12 * k)])


def inside(xs, region, n, mon, hull, d):
    lo, up = limits(region, n)
    c = np.asarray(region.center, float)
    tol = 1e-9
    mon.expect(np.isfinite(xs).all(), "finite", d)
    if region.shape == "cube":
        mon.expect(((xs >= lo) & (xs <= up)).all(), "bounds", d)
        a, b = box(region, n)
        s = (b - a) / 2
        u = (xs - (a + b) / 2) / s
        t = tol + 1e-15 * (np.abs(c) / s)
        mon.expect((np.abs(u) <= 1 + t).all(), "inside_region", d)
        if hull:
            mon.expect((np.max(np.abs(u) + t, axis=1) >= 1 - tol).all(), "on_boundary", d)
    else:
        dist = np.linalg.norm(xs - c, axis=1) / region.radius
        t = tol + 1e-15 * np.abs(c).max() / region.radius
        mon.expect((dist <= 1 + t).all(), "inside_region", d)
        mon.expect(((xs >= lo) & (xs <= up)).all(), "bounds", d)
        if hull:
            mon.expect((dist >= 1 - t).all(), "on_boundary", d)
    if hull:
        mon.count("hull_points", len(xs))


def run_case(group, idx, rng, mon):
    if group == "run":
        return loop(idx, rng, mon)
    if group == "search":
        return randomsearch(rng, mon)
    from tranquilo.sample_points import get_sampler

    for _ in range(4):
        n = int(rng.integers(1, 7))
        region, kind = make_region(rng, n=n, shape=gen.pick(rng, None, "cube", "sphere"))
        if region.shape == "cube" and ((region.cube_bounds.upper - region.cube_bounds.lower) <= 1e-8 * np.abs(region.center)).any():
            continue
        name = {"optimal": "optimal_hull", "interior": "random_interior"}.get(group) or gen.pick(
            rng, "random_hull", "random_interior", "optimal_hull")
        k = int(gen.pick(rng, 0, 1, 1, 2, n, n + 1, 2 * n + 1, 9))
        opt = {}
        if name != "random_interior" and rng.random() < 0.5:
            opt["distribution"] = gen.pick(rng, "normal", "uniform")
        crit = None
        if name == "optimal_hull":
            crit = gen.pick(rng, None, None, "distance", "determinant")
            opt.update(criterion=crit, return_info=group == "optimal")
            if rng.random() < 0.3:
                opt["hardness"] = float(gen.pick(rng, 0.1, 1.0, 20.0))
            if rng.random() < 0.3:
                opt["n_points_randomsearch"] = int(gen.pick(rng, 1, 2, 10))
            if rng.random() < 0.2:
                opt["algo_options"] = {"maxiter": int(rng.integers(1, 5))}
            if rng.random() < 0.15:
                opt["algorithm"] = gen.pick(rng, "L-BFGS-B", "TNC")
        ex = None
        ek = gen.pick(rng, "none", "few", "center", "many", "dup")
        if ek != "none":
            cnt = dict(few=int(rng.integers(1, 4)), center=1, many=2 * n + 3, dup=3)[ek]
            u = rng.uniform(-1, 1, size=(cnt, n)) / (1 if region.shape == "cube" else np.sqrt(n))
            if ek == "center":
                u[0] = 0
            if ek == "dup":
                u[:] = u[0]
            if rng.random() < 0.3:
                u = u * 4  # from the larger search region
            ex = region.map_from_unit(u)
            if rng.random() < 0.3:
                ex[0] = region.center
        f = get_sampler(name, opt)
        seed = int(rng.integers(2**31))
        gs = np.random.get_state()[1].tobytes()
        exc = None if ex is None else ex.copy()
        g1 = np.random.default_rng(seed)
        st0 = g1.bit_generator.state
        out = f(trustregion=region, n_points=k, existing_xs=ex, rng=g1)
        d = lambda: f"{name} {opt} n={n} k={k} existing={ek} region center {region.center.tolist()} radius {region.radius} bounds {region.bounds}"
        mon.count("samples")
        info = None
        if opt.get("return_info") and k > 0:
            out, info = out
        xs = np.asarray(out)
        if k == 0:
            mon.expect(xs.size == 0, "zero_points", d)
            continue
        if not mon.expect(xs.shape == (k, n), "number_of_points", lambda: f"shape {xs.shape} instead of {(k, n)}; {d()}"):
            continue
        mon.count("points", k)
        if region.shape == "cube":
            mon.count("cube_samples")
        mon.expect(exc is None or np.array_equal(ex, exc), "existing_modified", d)
        mon.expect(gs == np.random.get_state()[1].tobytes(), "global_rng", d)
        mon.expect(g1.bit_generator.state != st0, "uses_generator", d)
        inside(xs, region, n, mon, "hull" in name, lambda: f"{xs.tolist()} {d()}")
        np.random.seed(int(rng.integers(2**31)))
        g2 = np.random.default_rng(seed)
        out2 = f(trustregion=region, n_points=k, existing_xs=None if exc is None else exc.copy(), rng=g2)
        xs2 = out2[0] if info is not None else out2
        mon.expect(np.array_equal(xs, xs2) and g2.bit_generator.state == g1.bit_generator.state, "reproducible", d)
        mon.count("reproduced")
        if n * k > 1 and name == "random_interior":
            x3 = f(trustregion=region, n_points=k, existing_xs=ex, rng=np.random.default_rng(seed + 1))
            mon.expect(not np.array_equal(xs, x3), "seed_matters", d)
        if info is not None:
            # compare with the random start sample in unit space
            start = np.asarray(info["start_params"]).reshape(k, n)
            un = region.map_to_unit(xs)
            o = np.inf if region.shape == "cube" else 2
            norm = np.linalg.norm(start, axis=1, ord=o)
            mon.expect((np.abs(norm - 1) <= 1e-9).all(), "start_on_hull", d)
            eu = None
            if ex is not None:
                eu = region.map_to_unit(ex)
                if (crit or ("determinant" if k == 1 else "distance")) == "distance":
                    eu = eu[np.linalg.norm(eu, axis=1) >= 0.1]
            a, b = (np.linalg.det((lambda s: s.T @ s / k)(s if eu is None else np.vstack([s, eu]))) for s in (un, start))
            sc = max(1.0, np.abs(eu).max() if eu is not None and len(eu) else 1.0)
            mon.expect(a >= b - 1e-7 * max(abs(b), sc ** (2 * n) * 1e-3), "less_optimal_than_start",
                       lambda: f"determinant {a} after, {b} before; {d()}")
            mon.count("optimality_checked")
        mon.sig(name, region.shape, n, k, ek, tuple(sorted(map(str, opt.items()))))
    if group == "interior":
        uniform(rng, mon)
    mon.sample(sampler=name, n=n, k=k, options=str(opt), region=dict(center=region.center, radius=region.radius, kind=kind))


def randomsearch(rng, mon):
    """With several random starting samples the best of them is used: best of 20 beats a single draw in 20 of 21 pairs."""
    from tranquilo.sample_points import get_sampler

    n = int(rng.integers(2, 5))
    shape = gen.pick(rng, "sphere", "cube")
    region, _ = make_region(rng, n=n, shape=shape)
    while region.shape == "cube" and ((region.cube_bounds.upper - region.cube_bounds.lower) <= 1e-6 * np.abs(region.center)).any():
        region, _ = make_region(rng, n=n, shape=shape)
    k = int(gen.pick(rng, 1, 1, 2, n + 1))
    u = rng.normal(size=(n + 1, n))
    u *= rng.uniform(0.3, 0.9, size=(n + 1, 1)) / np.linalg.norm(u, axis=1, keepdims=True)
    ex = region.map_from_unit(u)
    crit = gen.pick(rng, None, "distance", "determinant")
    wins, pairs = 0, 40
    for _ in range(pairs):
        d = []
        for nrs in (1, 20):
            f = get_sampler("optimal_hull", dict(return_info=True, n_points_randomsearch=nrs, criterion=crit, algo_options={"maxiter": 1}))
            _x, info = f(trustregion=region, n_points=k, existing_xs=ex, rng=np.random.default_rng(int(rng.integers(2**31))))
            s = np.vstack([np.asarray(info["start_params"]).reshape(k, n), u])
            d.append(np.linalg.det(s.T @ s))
        wins += d[1] >= d[0]
    mon.count("random_searches")
    mon.expect(wins >= 29, "best_of_random_starts",
               lambda: f"best of 20 random starting samples beats a single one only in {wins} of {pairs} pairs ({shape}, n={n}, k={k}, {crit})")


def uniform(rng, mon):
    """Interior points fill the region: no orthant or shell is starved (very loose)."""
    from tranquilo.sample_points import get_sampler

    n = int(rng.integers(1, 5))
    region, _ = make_region(rng, n=n, shape=gen.pick(rng, "cube", "sphere"))
    if region.shape == "cube" and ((region.cube_bounds.upper - region.cube_bounds.lower) <= 1e-8 * np.abs(region.center)).any():
        return
    f = get_sampler("random_interior")
    m = 4000
    u = region.map_to_unit(f(trustregion=region, n_points=m, existing_xs=None, rng=np.random.default_rng(int(rng.integers(2**31)))))
    r = np.linalg.norm(u, axis=1) ** n if region.shape == "sphere" else np.abs(u).max(axis=1) ** n
    ks = np.max(np.abs(np.sort(r) - np.arange(1, m + 1) / m))
    mon.expect(ks < 0.06, "fills_region", lambda: f"radial distribution deviates by {ks} ({region.shape}, n={n})")
    share = (u > 0).mean(axis=0)
    mon.expect((np.abs(share - 0.5) < 0.06).all(), "symmetric", lambda: f"{share}")


def loop(idx, rng, mon):
    cfg = gen.make_config(rng)
    t = trace.run_traced(cfg, only=("sampler",))
    n = len(cfg["x0"])
    name = cfg["options"].get("sampler", "optimal_hull")
    for e in t.of_kind("sample"):
        d = lambda: gen.describe(cfg)
        xs, k = np.asarray(e["xs"]), int(e["n_points"])
        mon.count("run_samples")
        if k == 0:
            mon.expect(xs.size == 0, "zero_points", d)
            continue
        mon.expect(xs.shape == (k, n), "number_of_points", d)
        r = e["trustregion"]
        if r.shape == "cube" and ((r.cube_bounds.upper - r.cube_bounds.lower) <= 1e-8 * np.abs(r.center)).any():
            continue
        inside(xs.reshape(-1, n), r, n, mon, "hull" in name, d)
        mon.expect(np.array_equal(e["existing"], e["existing_after"]), "existing_modified", d)
    mon.sig("run", gen.signature(cfg))
