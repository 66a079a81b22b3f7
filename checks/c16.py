import types

import numpy as np

from checks.regions import make_region
from vk import gen, trace

ID = "C16"
RULE = ("(a) random and degenerate point sets (generic, grids with ties, duplicates, near-duplicates) x filters x target sizes x "
        "options around a random region, incl. regions cut by bounds; (b) every filter call in optimization runs; (c) direct "
        "clustering; non-trivial: at least one point dropped or merged; distinct by (filter, n, shape, points, dropped)")
REQUIRED = {"filter_calls": 2500, "drops_exact": 400, "dropped_points": 2000, "dropped_inside": 500, "center_survived": 500,
            "clusterings": 500, "clusters_nontrivial": 150, "clusters_exact": 200, "run_filter_calls": 200, "kept_under_limit": 200}
ASSUMPTIONS = ["the offered points contain the current point exactly once", "ties in distances: any of the tied points may be dropped",
               "the clustering filter need not keep the current point"]
CASE_TIMEOUT = 60
TIMEOUT_IS_VIOLATION = True


def plan(tier, seed):
    k = 1 if tier == "quick" else 40
    return ([("direct", i) for i in range(500 * k)] + [("cluster", i) for i in range(150 * k)] + [("drop", i) for i in range(200 * k)]
            + [("run", i) for i in range(96 * min(k, 20))])


def make_points(rng, region, n, k):
    c = np.asarray(region.center, float)
    kind = gen.pick(rng, "generic", "generic", "grid", "dup", "near", "far")
    if kind == "grid":
        xs = c + region.radius * rng.integers(-2, 3, size=(k, n)) / 2
    else:
        xs = c + region.radius * rng.normal(size=(k, n)) * gen.pick(rng, 0.3, 1.0, 2.0)
    if kind == "dup" and k > 2:
        xs[1] = xs[2]
    if kind == "near" and k > 2:
        xs[2:] = xs[1] + region.radius * 1e-3 * rng.normal(size=(k - 2, n)) * 10.0 ** rng.uniform(-6, 1, size=(k - 2, 1))
    if kind == "far":
        xs = c + region.radius * (2 + rng.random((k, 1))) * rng.normal(size=(k, n))
    return xs, kind


def ref_drop(xs, indices, x, index, radius, n_drop):
    """Indices kept by the documented rule, or None if a tie makes the result ambiguous."""
    keep = list(range(len(xs)))
    d = np.sqrt(((xs - x) ** 2).sum(axis=1))
    inside = 0
    for _ in range(n_drop):
        dk = d[keep]
        out = dk > radius
        if np.any(np.abs(dk - radius) <= 1e-12 * radius):
            return None, 0
        if out.any():
            o = np.sort(dk)
            if len(o) > 1 and o[-1] - o[-2] <= 1e-12 * o[-1]:
                return None, 0
            keep.pop(int(np.argmax(dk)))
            continue
        inside += 1
        pairs = sorted((float(np.sqrt(((xs[i] - xs[j]) ** 2).sum())), i, j) for a, i in enumerate(keep) for j in keep[a + 1:])
        if not pairs:
            return None, 0
        if len(pairs) > 1 and pairs[1][0] - pairs[0][0] <= 1e-9 * max(pairs[1][0], radius * 1e-3):
            return None, 0
        _, i, j = pairs[0]
        if indices[i] == index:
            drop = j
        elif indices[j] == index:
            drop = i
        else:
            if abs(d[i] - d[j]) <= 1e-12 * radius:
                return None, 0
            drop = i if d[i] < d[j] else j
        keep.remove(drop)
    return set(int(q) for q in indices[keep]), inside


def judge(name, opt, xs, indices, x, index, radius, target, out_xs, out_idx, mon, pre=""):
    n = xs.shape[1]
    d = lambda: f"{name} {opt}: offered {len(xs)} points, indices {indices.tolist()}, target {target}, radius {radius} -> {np.asarray(out_idx).tolist()}"
    mon.count("filter_calls")
    out_xs, out_idx = np.asarray(out_xs), np.asarray(out_idx)
    if not mon.expect(out_xs.ndim == 2 and out_xs.shape[1] == n and out_idx.shape == (len(out_xs),) and len(out_xs) >= 1, pre + "shapes", d):
        return
    pos = {int(i): k for k, i in enumerate(indices)}
    mon.expect(len(set(out_idx.tolist())) == len(out_idx), pre + "distinct", d)
    if not mon.expect(all(int(i) in pos for i in out_idx), pre + "subset", d):
        return
    mon.expect(all(np.array_equal(out_xs[k], xs[pos[int(i)]]) for k, i in enumerate(out_idx)), pre + "aligned", d)
    kept = set(int(i) for i in out_idx)
    if name == "discard_all":
        mon.expect(kept == {int(index)}, pre + "discard_all", d)
    elif name == "keep_all":
        mon.expect(out_idx.tolist() == list(indices) or kept == set(indices.tolist()), pre + "keep_all", d)
    elif name in ("drop_excess", "drop"):
        if name == "drop_excess":
            want = min(len(xs), int(np.floor(target * opt.get("n_max_factor", 3))))
        else:
            want = len(xs) - target
        n_drop = len(xs) - want
        mon.expect(len(kept) == want, pre + "number_dropped", d)
        mon.expect(int(index) in kept, pre + "center_survives", d)
        mon.count("center_survived")
        if n_drop == 0:
            mon.count("kept_under_limit")
        mon.count("dropped_points", n_drop)
        ref, inside = ref_drop(xs, indices, x, index, radius, n_drop)
        if ref is not None:
            if n_drop:
                mon.count("drops_exact")
                mon.count("dropped_inside", inside)
            mon.expect(kept == ref, pre + "which_dropped", lambda: d() + f" instead of {sorted(ref)}; points {xs.tolist()}, center {x.tolist()}")
        else:
            mon.count("drops_ambiguous")
    elif name == "clustering":
        eps = radius * (opt.get("strictness", 1e-10) / target) ** (1 / n)
        dist = np.sqrt(((xs[:, None, :] - out_xs[None, :, :]) ** 2).sum(axis=2))
        mon.expect((dist.min(axis=1) <= eps * (1 + 1e-9)).all(), pre + "covered", d)
        dd = np.sqrt(((out_xs[:, None, :] - out_xs[None, :, :]) ** 2).sum(axis=2))
        np.fill_diagonal(dd, np.inf)
        mon.expect((dd > eps * (1 - 1e-9)).all(), pre + "centers_apart", d)
        mon.count("clusters_nontrivial", len(out_xs) < len(xs))
    return len(xs) - len(kept)


def run_case(group, idx, rng, mon):
    if group == "run":
        return loop(rng, mon)
    if group == "cluster":
        return clustering(rng, mon)
    from tranquilo.filter_points import drop_worst_points, get_sample_filter

    for _ in range(16):
        n = int(rng.integers(1, 6))
        region, _k = make_region(rng, n=n)
        k = int(rng.integers(1, 16))
        xs, kind = make_points(rng, region, n, k)
        indices = rng.choice(60, size=k, replace=False)
        if rng.random() < 0.5:
            indices = np.sort(indices)
        p = int(rng.integers(k))
        x = np.asarray(region.center, float)
        xs[p] = x
        index = int(indices[p])
        state = types.SimpleNamespace(x=x.copy(), index=index, trustregion=region, fval=0.0)
        target = int(rng.integers(1, 8))
        a, b = xs.copy(), indices.copy()
        if group == "drop":
            name, opt = "drop", {}
            target = int(rng.integers(0, k))
            out = drop_worst_points(xs, indices=indices, state=state, n_to_drop=target)
        else:
            name = gen.pick(rng, "discard_all", "keep_all", "clustering", "clustering", "drop_excess", "drop_excess", "drop_excess")
            opt = {}
            if name == "drop_excess" and rng.random() < 0.7:
                opt["n_max_factor"] = gen.pick(rng, 1, 2, 4, 1.0, 1.5, 2.25)
            if name == "clustering" and rng.random() < 0.8:
                opt["strictness"] = float(10.0 ** rng.uniform(-10, 0.5))
            if opt and isinstance(opt.get("n_max_factor"), float):
                # option values are converted to the default's type
                from tranquilo.options import FilterOptions

                opt["n_max_factor"] = type(FilterOptions().n_max_factor)(opt["n_max_factor"])
            f = get_sample_filter(name, user_options=dict(opt) or None)
            out = f(xs=xs, indices=indices, state=state, target_size=target)
            if name == "drop_excess":
                from tranquilo.options import FilterOptions

                opt.setdefault("n_max_factor", FilterOptions().n_max_factor)
        mon.expect(np.array_equal(xs, a) and np.array_equal(indices, b) and np.array_equal(state.x, x) and state.index == index, "input_modified")
        dropped = judge(name, opt, a, b, x, index, region.radius, target, out[0], out[1], mon)
        if dropped:
            mon.sig(name, n, region.shape, kind, k, dropped)
    mon.sample(filter=name, points=xs, indices=indices, kept=out[1], target=target)


def clustering(rng, mon):
    from tranquilo.clustering import cluster

    for _ in range(12):
        n, k = int(rng.integers(1, 6)), int(rng.integers(2, 25))
        region, _k = make_region(rng, n=n)
        xs, kind = make_points(rng, region, n, k)
        eps = float(region.radius * 10.0 ** rng.uniform(-4, 0.7))
        exact = rng.random() < 0.4
        if exact:
            # all distances and the radius are exact, so that points lie exactly on the radius
            kind = "exact"
            h = 2.0 ** int(rng.integers(-12, 12))
            grid = rng.integers(-3, 4, size=(k, n))
            e = int(rng.integers(1, 4))
            xs, eps = grid * h, e * h
        b = xs.copy()
        labels, centers = cluster(x=xs, epsilon=eps)
        mon.count("clusterings")
        d = lambda: f"{k} points, epsilon {eps}: labels {labels.tolist()}, centers {centers.tolist()}; {b.tolist()}"
        mon.expect(np.array_equal(xs, b), "cluster_input_modified")
        nc = len(centers)
        if not mon.expect(len(labels) == k and ((labels >= 0) & (labels < nc)).all() and ((centers >= 0) & (centers < k)).all()
                          and len(set(centers.tolist())) == nc, "labels_valid", d):
            continue
        mon.expect((labels[centers] == np.arange(nc)).all(), "center_in_own_cluster", d)
        dist = np.sqrt(((b - b[centers[labels]]) ** 2).sum(axis=1))
        mon.expect((dist <= eps * (1 + 1e-9)).all(), "within_radius", d)
        dc = np.sqrt(((b[centers][:, None] - b[centers][None]) ** 2).sum(axis=2))
        np.fill_diagonal(dc, np.inf)
        mon.expect((dc > eps * (1 - 1e-9)).all(), "clusters_apart", d)
        if exact:
            d2 = ((grid[:, None] - grid[None]) ** 2).sum(axis=2)
            cc = d2[np.ix_(centers, centers)] + 10**6 * np.eye(nc, dtype=int)
            mon.expect((d2[np.arange(k), centers[labels]] <= e * e).all(), "within_radius_exact", d)
            mon.expect((cc > e * e).all(), "clusters_apart_exact", d)
            mon.count("clusters_exact", int((d2 == e * e).any()))
        mon.count("clusters_nontrivial", 1 < nc < k)
        mon.sig("cluster", n, kind, k, nc)


def loop(rng, mon):
    flt = gen.pick(rng, "drop_excess", "drop_excess", "clustering", "keep_all", "discard_all", None)
    cfg = gen.make_config(rng, sample_filter=flt)
    o = cfg["options"]
    if rng.random() < 0.6:
        o["sample_filter_options"] = dict(n_max_factor=int(gen.pick(rng, 1, 1, 2)), strictness=float(gen.pick(rng, 1e-6, 1e-2, 0.5)))
    o["search_radius_factor"] = float(gen.pick(rng, 2.0, 4.0, 8.0))
    from tranquilo.options import FilterOptions

    t = trace.run_traced(cfg, only=("sample_filter",))
    base = FilterOptions()
    for ev in t.of_kind("filter"):
        opt = dict(n_max_factor=base.n_max_factor, strictness=base.strictness)
        opt.update(o.get("sample_filter_options") or {})
        s = ev["state"]
        mon.count("run_filter_calls")
        mon.expect(int(s.index) in ev["indices"].tolist(), "run_center_offered", "current point not offered to the filter")
        judge(ev["name"], opt, ev["xs"], ev["indices"], np.asarray(s.x), s.index, s.trustregion.radius, ev["target_size"],
              ev["out_xs"], ev["out_indices"], mon, "run_")
