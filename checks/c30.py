import numpy as np

from checks.regions import box, make_region
from vk import gen, trace

ID = "C30"
RULE = ("(a) acceptance steps on random regions (spheres and cubes, scales 1e-12 to 1e4, centers near and far from the origin, bounds close to the candidate), "
        "candidates deep inside, near and on the border, batch sizes 1-24, samplers that record their input; (b) all acceptance steps of "
        "runs in batch mode; non-trivial: batch size above one; distinct by (shape, n, batch size, position of the candidate)")
REQUIRED = {"steps": 1500, "line_searches": 500, "line_points": 1000, "no_line_search": 200, "far_from_origin": 200, "sphere": 400, "cube": 400,
            "speculative": 500, "clipped_line_points": 50, "run_steps": 200, "single": 60}
ASSUMPTIONS = ["near the border means closer than a tenth of the radius (or half side length); candidates within 1e-3 of that limit are not judged",
               "regions smaller than 1e-8 of their center's coordinates are not generated"]
CASE_TIMEOUT = 60


def plan(tier, seed):
    k = 1 if tier == "quick" else 20
    return [("direct", i) for i in range(150 * k)] + [("run", i) for i in range(90 * k)]


def run_case(group, idx, rng, mon):
    return globals()[group](rng, mon)


def depth(region, x):
    """Distance to the border in units of the radius (cube: smallest over the sides, in units of the half side length)."""
    if region.shape == "sphere":
        return abs(1 - np.linalg.norm(x - np.asarray(region.center)) / region.radius)
    lo, up = box(region, len(x))
    half = 0.5 * (up - lo)
    return float(np.min(np.minimum(np.abs(x - lo), np.abs(up - x)) / half))


def rows(a, n):
    return np.asarray(a, float).reshape(-1, n)


def take(pool, x, tol):
    """Remove the row of pool that equals x; return whether there is one."""
    for i, p in enumerate(pool):
        if (np.abs(p - x) <= tol).all():
            del pool[i]
            return True
    return False


def judge(region, current, cand, bs, factor, samples, batches, known, mon, d, pre=""):
    """One acceptance step: `samples` sampler calls and `batches` evaluated points it made, `known` points before."""
    n = len(cand)
    tol = 1e-12 * (np.abs(cand).max() + np.abs(current).max() + region.radius) + 1e-9 * region.radius
    mon.count("steps")
    if not mon.expect(len(batches) == 1, pre + "one_batch", lambda: f"{len(batches)} batches; {d()}"):
        return
    pool = [np.asarray(p, float) for p in batches[0]]
    mon.expect(any(np.array_equal(p, cand) for p in pool), pre + "candidate_evaluated", d)
    take(pool, cand, 0.0)
    if bs == 1:
        mon.count("single")
        mon.expect(not pool and not samples, pre + "single_evaluation", lambda: f"{len(pool)} further points; {d()}")
        return
    # points of the line search
    b = region.bounds
    want = current + np.array([2.0 ** k for k in range(1, min(bs, 4))])[:, None] * (cand - current)
    if b is not None:
        lo, up = (np.full(n, v) if q is None else np.asarray(q, float) for q, v in ((b.lower, -np.inf), (b.upper, np.inf)))
        cut = np.clip(want, lo, up)
        mon.count("clipped_line_points", int((cut != want).any(axis=1).sum()))
        want = cut
    dep = depth(region, cand)
    rest = list(pool)
    found = sum(take(rest, w, tol) for w in want)
    n_spec = sum(len(rows(s["xs"], n)) for s in samples)
    line = len(pool) - n_spec
    if dep < 0.099:
        mon.count("line_searches")
        mon.count("line_points", len(want))
        mon.expect(found == len(want) and line == len(want), pre + "line_search",
                   lambda: f"depth {dep}: {found} of {want.tolist()} evaluated, {n_spec} sampled, {len(pool)} points; {d()}")
    elif dep > 0.101:
        mon.count("no_line_search")
        mon.expect(line == 0, pre + "line_search_inside", lambda: f"depth {dep}: {line} points that were not sampled; {d()}")
    # speculative points fill the batch
    mon.expect(len(pool) + 1 == bs, pre + "batch_filled", lambda: f"{len(pool) + 1} evaluations, batch size {bs}; {d()}")
    if line < bs - 1:
        mon.count("speculative")
        if not mon.expect(len(samples) == 1, pre + "one_sample", d):
            return
        s = samples[0]
        r = s["trustregion"]
        mon.expect(np.array_equal(np.asarray(r.center, float), cand) and trace.close(r.radius, factor * region.radius, rtol=1e-12), pre + "sampling_region",
                   lambda: f"center {r.center}, radius {r.radius}; {d()}")
        lo1, up1 = lims(r, n)
        lo2, up2 = lims(region, n)
        mon.expect(np.array_equal(lo1, lo2) and np.array_equal(up1, up2), pre + "sampling_bounds", d)
        mon.expect(s["n_points"] == bs - 1 - line, pre + "sample_size", d)
        # in view of the known points in that region, the candidate and the line search
        ex = [] if s["existing"] is None else list(rows(s["existing"], n))
        must = [p for p in known if np.linalg.norm(p - cand) <= factor * region.radius * (1 - 1e-9)] + [cand] + (list(want) if dep < 0.099 else [])
        may = [p for p in known if np.linalg.norm(p - cand) <= factor * region.radius * (1 + 1e-9)] + [cand] + list(want)
        left = list(ex)
        mon.expect(all(take(left, p, tol) for p in must), pre + "sampler_sees_known_points", lambda: f"existing {ex}, expected {must}; {d()}")
        mon.expect(all(any((np.abs(p - q) <= tol).all() for q in may) for p in left), pre + "sampler_sees_other_points", lambda: f"{left}; {d()}")
        rest = list(pool)
        mon.expect(all(take(rest, p, 0.0) for p in rows(s["xs"], n)), pre + "sampled_points_evaluated", d)


def lims(region, n):
    b = region.bounds
    if b is None:
        return np.full(n, -np.inf), np.full(n, np.inf)
    return tuple(np.full(n, v) if q is None else np.asarray(q, float) for q, v in ((b.lower, -np.inf), (b.upper, np.inf)))


def direct(rng, mon):
    from tranquilo.acceptance_decision import get_acceptance_decider
    from tranquilo.history import History
    from tranquilo.sample_points import get_sampler
    from tranquilo.solve_subproblem import SubproblemResult
    from tranquilo.tranquilo import State
    from tranquilo.wrap_criterion import get_wrapped_criterion

    for _ in range(12):
        n = int(rng.integers(1, 5))
        region, kind = make_region(rng, n=n, decades=gen.pick(rng, (-4, 4), (-12, 4)))
        ctr = np.array(region.center, float)
        half = float(np.min(np.asarray(region.effective_radius)))
        if half < 1e-3 * region.radius or region.radius < 1e-8 * np.abs(ctr).max():
            continue
        far = np.abs(ctr).max() > 20 * region.radius
        mon.count("far_from_origin", far)
        mon.count(region.shape)
        lo, up = box(region, n)
        where = gen.pick(rng, "inside", "border", "near", "near", "any")
        v = rng.normal(size=n)
        if region.shape == "sphere":
            v /= np.linalg.norm(v)
            cand = ctr + v * region.radius * dict(inside=rng.uniform(0.01, 0.85), border=1.0, near=1 - rng.uniform(0.001, 0.2), any=rng.random())[where]
        else:
            u = rng.uniform(-0.85, 0.85, n)
            j = int(rng.integers(n))
            if where != "inside":
                u[j] = dict(border=1.0, near=1 - rng.uniform(0.001, 0.2), any=rng.random())[where] * rng.choice([-1, 1])
            cand = np.clip(0.5 * (lo + up) + 0.5 * (up - lo) * u, lo, up)
        if abs(depth(region, cand) - 0.1) < 2e-3 or np.array_equal(cand, ctr):
            continue
        bs = int(gen.pick(rng, 1, 2, 3, 4, 5, 6, 8, 12, 24))
        ft = gen.pick(rng, "scalar", "least_squares")
        q = rng.normal(size=n)
        calls, samples = [], []

        def f(x):
            z = (x - ctr) / region.radius
            return float(q @ z + z @ z) if ft == "scalar" else np.append(z - q, z @ z)

        def ev(func, arguments, n_cores=1, error_handling="continue", **kw):
            calls.append([np.array(a) for a in arguments])
            return [func(a) for a in arguments]

        inner = get_sampler(gen.pick(rng, "optimal_hull", "random_hull", "random_interior"))

        def sampler(trustregion, n_points, existing_xs=None, rng=None):
            ex = None if existing_xs is None else np.array(existing_xs)
            xs = inner(trustregion=trustregion, n_points=n_points, existing_xs=existing_xs, rng=rng)
            samples.append(dict(trustregion=trustregion, n_points=n_points, existing=ex, xs=np.array(xs)))
            return xs

        h = History(functype=ft)
        h.add_xs(ctr)
        crit = get_wrapped_criterion(criterion=f, batch_evaluator=ev, n_cores=1, history=h)
        lo_, up_ = lims(region, n)
        old = np.clip(ctr + rng.normal(size=(int(rng.integers(1, 12)), n)) * region.radius * 0.7, lo_, up_)
        ids = h.add_xs(old)
        crit({0: 1, **{int(i): 1 for i in ids}})
        calls.clear()
        known = [ctr] + list(old)
        fac = float(gen.pick(rng, 0.75, 0.5, 1.0, 0.3))
        state = State(trustregion=region, model_indices=np.arange(len(known)), model=None, vector_model=None, candidate_index=0, candidate_x=ctr,
                      index=0, x=ctr, fval=float(np.mean(h.get_fvals(0))), rho=np.nan, accepted=True, new_indices=np.arange(len(known)),
                      old_indices_used=np.array([], int), old_indices_discarded=np.array([], int))
        sol = SubproblemResult(x=cand, expected_improvement=1.0, n_iterations=1, success=True, x_unit=np.zeros(n), shape=region.shape)
        res = get_acceptance_decider("classic_line_search", dict(speculative_sampling_radius_factor=fac))(
            subproblem_solution=sol, state=state, wrapped_criterion=crit, noise_variance=None, history=h, search_radius_factor=2.0,
            batch_size=bs, sample_points=sampler, rng=np.random.default_rng(int(rng.integers(2**31))))
        mon.count("evaluations")
        d = lambda: f"{region.shape}, center {ctr.tolist()}, radius {region.radius}, box {lo.tolist()} {up.tolist()}, candidate {cand.tolist()} ({where}), batch size {bs}"
        judge(region, ctr, cand, bs, fac, samples, calls, known, mon, d)
        # the accepted point is the best of the batch
        vals = [np.asarray(f(p)) for p in calls[0]] if calls else []
        vals = [float(np.sum(v**2)) if ft != "scalar" else float(v) for v in vals]
        if vals:
            best = min(vals + [state.fval])
            mon.expect(trace.close(res.fval, best, rtol=1e-12), "accepts_best", lambda: f"{res.fval} instead of {best}; {d()}")
        if bs > 1:
            mon.sig(kind, n, bs, where)
    mon.sample(shape=region.shape, center=ctr, candidate=cand, batch_size=bs, where=where, batch=calls[0] if calls else None)


def run(rng, mon):
    cfg = gen.make_config(rng, noisy=False, kind=gen.pick(rng, "q", "q", "nl", "rosen", "large"), acceptance_decider="classic_line_search",
                          batch_size=int(gen.pick(rng, 2, 3, 4, 5, 6, 8, 12)))
    t = trace.run_traced(cfg, only=("sampler", "acceptance_decider"))
    o = cfg["options"]
    n = len(cfg["x0"])
    fac = (o.get("acceptance_decider_options") or {}).get("speculative_sampling_radius_factor", 0.75)
    d = lambda: gen.describe(cfg)
    ev, samples, batches = None, [], []
    xs = np.asarray(t.history.get_xs(np.arange(t.history.get_n_xs())), float)

    def finish():
        if ev is None:
            return
        region = ev["state"].trustregion
        cand = np.asarray(ev["sol"].x, float)
        half = float(np.min(np.asarray(region.effective_radius)))
        if half < 1e-3 * region.radius or region.radius < 1e-8 * np.abs(cand).max() or abs(depth(region, cand) - 0.1) < 2e-3:
            return
        mon.count("run_steps")
        judge(region, np.asarray(ev["state"].x, float), cand, o["batch_size"], fac, samples, batches, list(xs[: ev["n_xs"]]), mon, d, pre="run_")

    seq = list(t.events)
    taken = 0
    for k, e in seq:
        if k == "accept":
            finish()
            ev, samples, batches = e, [], []
            taken = 0
        elif ev is not None and k == "sample":
            if not batches:
                samples.append(e)
        elif ev is not None and k == "batch":
            if not batches:
                batches.append(e["args"])
    finish()
    mon.sig("run", gen.signature(cfg), o["batch_size"])
    mon.sample(config=d(), points=len(xs))
