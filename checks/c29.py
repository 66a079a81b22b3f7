import copy
import warnings

import numpy as np

from vk import gen, trace

ID = "C29"
RULE = ("random problems are optimized (a) through estimagic.minimize with the algorithms tranquilo and tranquilo_ls and (b) by a "
        "direct call with the same options; evaluations, states and solution are compared; then the diagnostic figure is built for "
        "random iterations of one or several results and every trace is compared with values computed from the recorded states; "
        "non-trivial: at least three iterations; distinct by (configuration signature, way of selecting iterations)")
REQUIRED = {"runs": 60, "figures": 80, "columns": 120, "points_classified": 500, "discarded_points": 20, "one_parameter": 5,
            "two_parameters": 10, "heatmaps": 20, "untouched": 80}
ASSUMPTIONS = ["plots of noisy runs and runs with repeated evaluations are not covered (points and evaluations are numbered differently)",
               "no scaling or constraints in estimagic"]
CASE_TIMEOUT = 120
TIMEOUT_IS_VIOLATION = True


def plan(tier, seed):
    k = 1 if tier == "quick" else 20
    return [("interface", i) for i in range(32 * k)] + [("plot", i) for i in range(48 * k)]


def criterion_for(cfg):
    base = gen.Problem(cfg)
    seen = []

    def f(x):
        x = np.asarray(x, float)
        seen.append(x.copy())
        v = base(x)
        if cfg["functype"] == "scalar":
            return {"value": float(v)}
        v = np.asarray(v, float)
        return {"root_contributions": v, "value": float(v @ v)}

    return f, seen


def run_interface(cfg):
    from estimagic.optimization.optimize import minimize

    # estimagic itself cannot handle batch_size=None
    o = {k: v for k, v in cfg["options"].items() if k not in ("lower_bounds", "upper_bounds") and v is not None}
    f, seen = criterion_for(cfg)
    b = {k: cfg["options"][k] for k in ("lower_bounds", "upper_bounds") if k in cfg["options"]}
    res = minimize(criterion=f, params=np.array(cfg["x0"], float), algo_options=o,
                   algorithm="tranquilo" if cfg["functype"] == "scalar" else "tranquilo_ls", **b)
    return res, seen


def draw(rng, **kw):
    return gen.make_config(rng, functype=gen.pick(rng, "scalar", "least_squares"), noisy=False,
                           kind=gen.pick(rng, "q", "q", "nl", "rosen", "step"), maxiter=int(gen.pick(rng, 4, 8, 12)),
                           bounds=gen.pick(rng, "none", "none", "loose", "tight", "mixed", "edge"), n_evals_at_start=1,
                           n_cores=1, **kw)


def run_case(group, idx, rng, mon):
    warnings.simplefilter("ignore")
    if group == "interface":
        for _ in range(2):
            interface(rng, mon)
        return
    for _ in range(2):
        plots(rng, mon)


def interface(rng, mon):
    cfg = draw(rng)
    d = lambda: gen.describe(cfg)
    res, seen = run_interface(cfg)
    t = trace.run_plain(cfg)
    mon.count("runs")
    direct = [x for x, _v in t.evals]
    # the interface may probe the criterion at the start point before the optimization
    extra = len(seen) - len(direct)
    mon.expect(extra >= 0 and all(np.array_equal(a, cfg["x0"]) for a in seen[:max(extra, 0)])
               and all(np.array_equal(a, b) for a, b in zip(seen[max(extra, 0):], direct)),
               "same_evaluations", lambda: f"{len(seen)} evaluations through the interface, {len(direct)} directly; {d()}")
    mon.expect(np.array_equal(np.asarray(res.params, float), t.res["solution_x"]), "same_solution",
               lambda: f"{res.params} through the interface, {t.res['solution_x']} directly; {d()}")
    mon.expect(trace.close(res.criterion, t.res["solution_criterion"], rtol=1e-12), "same_value",
               lambda: f"{res.criterion} {t.res['solution_criterion']} {d()}")
    mon.expect(len(res.algorithm_output["states"]) == len(t.states), "same_iterations", d)
    msg = t.res["message"]
    mon.expect(res.message == msg, "same_message", lambda: f"{res.message!r} {msg!r} {d()}")
    if len(t.states) > 3:
        mon.sig("interface", gen.signature(cfg))
    mon.sample(config=d(), evaluations=len(direct))


def xy(tr):
    return np.asarray(tr.x if tr.x is not None else [], float), np.asarray(tr.y if tr.y is not None else [], float)


def same_set(xa, ya, xb, yb, tol=1e-9):
    a = sorted(zip(np.asarray(xa, float).tolist(), np.asarray(ya, float).tolist()))
    b = sorted(zip(np.asarray(xb, float).tolist(), np.asarray(yb, float).tolist()))
    return len(a) == len(b) and all(trace.close(p, q, rtol=tol, atol=1e-300) for p, q in zip(a, b))


def snapshot(res):
    return [copy.deepcopy(s._asdict()) for s in res.algorithm_output["states"]], copy.deepcopy(res.history)


def unchanged(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(unchanged(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(unchanged(p, q) for p, q in zip(a, b))
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if hasattr(a, "__dict__"):
        return unchanged(vars(a), vars(b))
    try:
        return bool(a == b)
    except Exception:
        return True


def plots(rng, mon):
    from tranquilo.visualize import visualize_tranquilo

    n = int(gen.pick(rng, 1, 2, 2, 3, 4))
    how = gen.pick(rng, "list", "int", "dict")
    cfgs = [draw(rng, n=n) for _ in range(1 if how == "list" else int(rng.integers(1, 4)))]
    results = [run_interface(c)[0] for c in cfgs]
    d = lambda: f"{how} {picks} {[gen.describe(c) for c in cfgs]}"
    lens = [len(r.algorithm_output["states"]) for r in results]
    if how == "list":
        k = int(rng.integers(1, 4))
        picks = [int(rng.integers(0, lens[0])) for _ in range(k)]
        picks = list(dict.fromkeys(picks))
        arg, its = results[0], picks if rng.random() < 0.5 else tuple(picks)
        cols = [(results[0], i) for i in picks]
    else:
        names = [f"r{i}" for i in range(len(results))]
        arg = dict(zip(names, results))
        if how == "int":
            picks = int(rng.integers(0, min(lens)))
            its = picks
            cols = [(r, picks) for r in results]
        else:
            picks = {nm: int(rng.integers(0, ln)) for nm, ln in zip(names, lens)}
            its = dict(picks)
            cols = [(r, picks[nm]) for nm, r in arg.items()]
    before = [snapshot(r) for r in results]
    fig = visualize_tranquilo(arg, its)
    after = [snapshot(r) for r in results]
    mon.count("figures")
    mon.count("untouched", int(mon.expect(unchanged(before, after), "results_modified", d)))
    by_axis = {}
    for tr in fig.data:
        by_axis.setdefault(tr.xaxis or "x", []).append(tr)
    nc = len(cols)
    for c, (res, it) in enumerate(cols):
        mon.count("columns")
        axis = lambda row: by_axis.get("x" if (row == 1 and c == 0) else f"x{(row - 1) * nc + c + 1}", [])
        span = lambda row: fig.get_subplot(row=row, col=c + 1).xaxis.range
        column(res, it, axis, span, n, mon, lambda: f"column {c}, iteration {it}: {d()}")
    if min(lens) > 3:
        mon.sig(how, nc, gen.signature(cfgs[0]))
    mon.sample(selection=how, iterations=str(picks), columns=nc, parameters=n, traces=len(fig.data))


def line(trs, y, it, mon, key, d):
    ln = [t for t in trs if t.mode == "lines"]
    pt = [t for t in trs if t.mode == "markers"]
    if not mon.expect(len(ln) == 1 and len(pt) == 1, key + "_traces", d):
        return
    x, got = xy(ln[0])
    mon.expect(np.array_equal(x, np.arange(len(y))) and trace.close(got, y, rtol=1e-8), key,
               lambda: f"{got.tolist()} instead of {list(y)}; {d()}")
    x, got = xy(pt[0])
    mon.expect(len(x) == 1 and x[0] == it and trace.close(got[0], y[it], rtol=1e-8), key + "_highlight", d)


def column(res, it, axis, xrange, n, mon, d):
    states = res.algorithm_output["states"]
    s = states[it]
    P = np.array(res.history["params"], float).reshape(-1, n)
    F = np.array(res.history["criterion"], float)
    idx = lambda a: np.asarray(a, int).reshape(-1)
    mi, new, used, disc = idx(s.model_indices), idx(s.new_indices), idx(s.old_indices_used), idx(s.old_indices_discarded)
    mon.count("points_classified", len(mi) + len(disc))
    mon.count("discarded_points", len(disc))
    # sample points
    trs = axis(1)
    if n <= 2:
        mon.count("one_parameter" if n == 1 else "two_parameters")
        for name, ids in (("new", new), ("existing", used), ("discarded", disc)):
            t = [q for q in trs if q.name == name]
            mon.expect(len(t) == (1 if len(ids) else 0), "sample_traces", d)
            if t and len(ids):
                x, y = xy(t[0])
                mon.expect(same_set(x, y, P[ids, 0], P[ids, 1] if n == 2 else np.zeros(len(ids))), "sample_points",
                           lambda: f"{name}: {x.tolist()} {y.tolist()} instead of {P[ids].tolist()}; {d()}")
    else:
        hm = [q for q in trs if q.type == "heatmap"]
        if mon.expect(len(hm) == 1, "heatmap_traces", d):
            z = np.array(hm[0].z, float)
            pts = P[np.concatenate([mi, disc])]
            with np.errstate(all="ignore"):
                want = np.abs(np.corrcoef(pts, rowvar=False)) if len(pts) > 1 else np.full((n, n), np.nan)
            low = np.tril_indices(n, -1)
            sd = pts.std(axis=0)
            ok = np.outer(sd, sd)[low] > 1e-10 * np.outer(np.abs(pts).max(axis=0), np.abs(pts).max(axis=0))[low]
            mon.count("heatmaps")
            mon.expect(trace.close(z[low][ok], want[low][ok], rtol=1e-6, atol=1e-8), "correlations", d)
    # distances
    c, r = np.asarray(s.trustregion.center, float), s.trustregion.radius
    for row, o in ((2, 2), (3, np.inf)):
        got = sorted(np.concatenate([xy(t)[0] for t in axis(row)]).tolist())
        want = sorted((np.linalg.norm(P[mi] - c, axis=1, ord=o) / r).tolist())
        mon.expect(trace.close(got, want, rtol=1e-8, atol=1e-12), "distances", lambda: f"{got} instead of {want}; {d()}")
        rg = xrange(row)
        mon.expect(rg is None or (rg[0] <= want[0] + 1e-9 and rg[1] >= want[-1] - 1e-9), "distances_visible", lambda: f"axis {rg}, distances {want}; {d()}")
    # criterion
    trs = {t.name: t for t in axis(4)}
    if mon.expect({"Criterion", "existing ", "new ", "discarded ", "current index"} <= set(trs), "criterion_traces", d):
        x, y = xy(trs["Criterion"])
        mon.expect(np.array_equal(x, np.arange(len(F))) and trace.close(y, F), "criterion_line", d)
        for name, ids in (("existing ", used), ("new ", new), ("discarded ", disc), ("current index", idx(s.index))):
            x, y = xy(trs[name])
            mon.expect(same_set(x, y, ids, F[ids]), "criterion_points", lambda: f"{name}: {x.tolist()} {y.tolist()}; {d()}")
    # series over iterations
    rho = np.array([np.nan if q.rho is None else q.rho for q in states], float)
    line(axis(5), np.clip(rho, -1, 3), it, mon, "rhos", d)
    line(axis(6), [q.trustregion.radius for q in states], it, mon, "radii", d)
    fek, ratios = [np.nan], {f: [np.nan] for f in (1, 2, 10)}
    for q in states[1:]:
        k = idx(q.model_indices)
        t = q.trustregion
        u = t.map_to_unit(P[k])
        sign, ld = np.linalg.slogdet(u.T @ u)
        sv = np.linalg.svd(u, compute_uv=False)
        fek.append(ld if sign > 0 and len(k) >= n and sv[-1] > 1e-5 * sv[0] else None)
        for f in ratios:
            rad = t.radius * (1 / (f * len(k))) ** (1 / n)
            ratios[f].append(bounds_of_clusters(P[k], rad))
    trs = axis(8)
    ln = [t for t in trs if t.mode == "lines"]
    if mon.expect(len(ln) == 1, "fekete_traces", d):
        y = xy(ln[0])[1]
        mon.expect(len(y) == len(states) and all(w is None or trace.close(g, w, rtol=1e-5, atol=1e-6) for g, w in zip(y, fek)), "fekete",
                   lambda: f"{y.tolist()} instead of {fek}; {d()}")
        pt = [t for t in trs if t.mode == "markers"]
        mon.expect(len(pt) == 1 and xy(pt[0])[0].tolist() == [it] and trace.close(xy(pt[0])[1][0], y[it]), "fekete_highlight", d)
    trs = axis(7)
    for f, want in ratios.items():
        ln = [t for t in trs if t.mode == "lines" and t.name == f"s={f}*n"]
        pt = [t for t in trs if t.mode == "markers" and t.name == f"s={f}*n"]
        if mon.expect(len(ln) == 1 and len(pt) == 1, "cluster_traces", d):
            y = xy(ln[0])[1]
            ok = len(y) == len(states) and np.isnan(y[0])
            for g, w in zip(y[1:], want[1:]):
                ok = ok and w[0] - 1e-12 <= g <= w[1] + 1e-12
            mon.expect(ok, "cluster_ratios", lambda: f"{y.tolist()} not within {want}; {d()}")
            mon.expect(xy(pt[0])[0].tolist() == [it] and trace.close(xy(pt[0])[1][0], y[it]), "cluster_highlight", d)


def bounds_of_clusters(xs, rad):
    """Bounds on the share of cluster centers: centers are apart and cover all points."""
    k = len(xs)
    dist = np.sqrt(((xs[:, None] - xs[None]) ** 2).sum(axis=2))
    near = dist <= rad * (1 + 1e-9)
    surely = dist <= rad * (1 - 1e-9)
    left, comp = set(range(k)), 0
    isolated = int((near.sum(axis=1) == 1).sum())
    # connected components of the proximity graph each have at least one center
    while left:
        comp += 1
        stack = [left.pop()]
        while stack:
            i = stack.pop()
            for j in [q for q in left if near[i, q]]:
                left.discard(j)
                stack.append(j)
    if surely.all():
        return (1 / k, 1 / k)
    return (max(comp, isolated) / k, 1.0 if not (surely.sum(axis=1) > 1).any() else (k - 1) / k)
