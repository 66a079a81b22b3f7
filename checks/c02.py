import numpy as np

from vk import gen, trace
from vk.trace import aggregate, close

ID = "C02"
RULE = ("(a) random operation sequences on History (add points, add evaluations, all query forms, growth beyond the "
        "internal capacity of 1000 and its doublings) against a dictionary-based reference; (b) optimization runs "
        "with shuffled batch execution whose recorded evaluations are reconciled with the history; non-trivial: "
        "sequence with repeated evaluations and several batches, or run with at least two iterations")
REQUIRED = {"ops": 2000, "queries": 1500, "grown_histories": 10, "ball_boundary_points": 30, "run_evaluations": 2000,
            "repeated_points": 100, "failed_evaluations": 50}
ASSUMPTIONS = ["every added point of a query has been added before (the public interface requires it)"]
CASE_TIMEOUT = 60
TIMEOUT_IS_VIOLATION = True


def plan(tier, seed):
    k = 1 if tier == "quick" else 12
    return ([("ops", i) for i in range(300 * k)] + [("grow", i) for i in range(40 * k)]
            + [("ball", i) for i in range(120 * k)] + [("run", i) for i in range(200 * k)])


class Ref:
    def __init__(self, ft):
        self.ft, self.xs, self.ev = ft, [], []

    def add_xs(self, xs):
        a = list(range(len(self.xs), len(self.xs) + len(xs)))
        self.xs += [np.array(x) for x in xs]
        self.ev += [[] for _ in xs]
        return a

    def add_evals(self, idx, vals):
        for i, v in zip(idx, vals):
            self.ev[i].append(np.array(v, float).reshape(-1))


def agg_ok(ft, fvecs, fvals):
    if len(fvecs) != len(fvals):
        return False
    return all(a == b or abs(a - b) <= 1e-12 * np.abs(np.asarray(v)).sum() ** (2 if ft == "least_squares" else 1)
               for v, b in zip(fvecs, fvals) for a in [aggregate(ft, v)])


def run_case(group, idx, rng, mon):
    if group in ("ops", "grow"):
        ops_case(group, idx, rng, mon)
    elif group == "ball":
        ball_case(rng, mon)
    else:
        loop_case(idx, rng, mon)


def compare(h, ref, m, rng, mon, full):
    ft = ref.ft
    nx = len(ref.xs)
    mon.expect(h.get_n_xs() == nx, "n_xs")
    mon.expect(h.get_n_fun() == sum(map(len, ref.ev)), "n_fun")
    if nx == 0:
        return
    if full or rng.random() < 0.3:
        got = h.get_xs()
        mon.expect(got.shape == (nx, len(ref.xs[0])) and (got == np.array(ref.xs)).all(), "xs_all",
                   "stored points differ from added points")
        mon.count("queries")
    if not any(ref.ev):
        return
    sel = rng.integers(0, nx, size=int(rng.integers(1, 6)))
    if full:
        sel = np.arange(nx)
    sel = np.unique(sel)
    form = int(rng.integers(4))
    q = sel if form == 0 else sel.tolist() if form == 1 else sel.astype(float) if form == 2 else slice(0, int(sel[-1]) + 1)
    want = list(range(nx))[q] if form == 3 else sel.tolist()
    xs = h.get_xs(q)
    mon.expect((xs == np.array([ref.xs[i] for i in want])).all(), "xs_query")
    fv, fs = h.get_fvecs(q), h.get_fvals(q)
    mon.count("queries", 3)
    if mon.expect(list(fv) == want and list(fs) == want, "query_keys", "returned keys differ from requested"):
        for i in want:
            w = np.array(ref.ev[i]).reshape(len(ref.ev[i]), m)
            mon.expect(np.asarray(fv[i]).shape == w.shape and np.array_equal(fv[i], w), "fvecs",
                       lambda: f"point {i}: {fv[i]} instead of {w}")
            mon.expect(agg_ok(ft, w, fs[i]), "fvals", lambda: f"point {i}: {fs[i]} not the aggregate of {w} ({ft})")
    # single
    i = int(sel[0])
    w = np.array(ref.ev[i]).reshape(len(ref.ev[i]), m)
    one = h.get_fvecs(i)
    mon.expect(isinstance(one, np.ndarray) and np.array_equal(one, w), "fvecs_single")
    mon.expect(agg_ok(ft, w, h.get_fvals(i)), "fvals_single")
    mon.expect(np.array_equal(h.get_xs(i), ref.xs[i]), "xs_single")
    if form != 3:
        ne = h.get_n_evals(q)
        mon.expect(ne == {j: len(ref.ev[j]) for j in want}, "n_evals")
    # model data
    ev = [j for j in want if ref.ev[j]]
    if ev:
        perm = [ev[j] for j in rng.permutation(len(ev))]
        xs, f = h.get_model_data(np.array(perm) if rng.random() < 0.5 else perm, average=True)
        mon.expect(np.array_equal(xs, np.array([ref.xs[j] for j in perm])), "model_xs")
        mon.expect(close(f, np.array([np.mean(ref.ev[j], axis=0) for j in perm]), rtol=1e-12, atol=1e-13),
                   "model_fvecs", "averaged values differ")
        xs, f = h.get_model_data(perm, average=False)
        mon.expect(np.array_equal(xs, np.array([ref.xs[j] for j in perm for _ in ref.ev[j]])), "model_xs_raw")
        mon.expect(np.array_equal(f, np.array([v for j in perm for v in ref.ev[j]])), "model_fvecs_raw")
        mon.count("queries", 2)


def ops_case(group, idx, rng, mon):
    from tranquilo.history import History

    ft = gen.FUNCTYPES[idx % 3]
    m = 1 if ft == "scalar" else int(rng.integers(1, 5))
    n = int(rng.integers(1, 5))
    h, ref = History(functype=ft), Ref(ft)
    n_ops = int(rng.integers(3, 25)) if group == "ops" else 12
    for k in range(n_ops):
        mon.count("ops")
        if k == 0 or rng.random() < 0.4:
            big = int(rng.integers(200, 1500) * (12 if idx % 10 == 0 else 1)) if group == "grow" else int(rng.integers(0, 8))
            cnt = gen.pick(rng, 1, big)
            xs = rng.normal(size=(cnt, n))
            if cnt == 1 and rng.random() < 0.5:
                r = h.add_xs(xs[0])
                want = ref.add_xs(xs)[0]
                mon.expect(np.ndim(r) == 0 and int(r) == want, "index_single", f"{r} instead of {want}")
            else:
                a = list(xs) if (rng.random() < 0.3 and cnt) else xs
                r = h.add_xs(a)
                want = ref.add_xs(xs)
                mon.expect(list(map(int, r)) == want, "indices", "wrong indices returned")
            xs[...] = np.nan  # the history must not alias the caller's array
        elif ref.xs:
            cnt = int(rng.integers(300, 1300)) if group == "grow" and rng.random() < 0.6 else int(rng.integers(1, 9))
            ids = rng.integers(0, len(ref.xs), size=cnt)
            vals = rng.normal(size=(cnt, m)) * 10.0 ** rng.integers(-3, 4)
            vals[rng.random(size=vals.shape) < 0.03] = np.inf
            ref.add_evals(ids, vals)
            if ft == "scalar":
                form = int(rng.integers(3))
                a = vals[:, 0].copy() if form == 0 else vals.copy() if form == 1 else vals[:, 0].tolist()
            else:
                a = vals.copy() if rng.random() < 0.5 else list(vals.copy())
            if cnt == 1 and rng.random() < 0.5:
                h.add_evals(int(ids[0]), a)
            else:
                h.add_evals(ids if rng.random() < 0.5 else ids.tolist(), a)
            if isinstance(a, np.ndarray):
                a[...] = np.nan
        if group == "ops" or rng.random() < 0.3:
            compare(h, ref, m, rng, mon, False)
    compare(h, ref, m, rng, mon, True)
    try:
        h.add_evals(len(ref.xs), [1.0] * 1 if ft == "scalar" else [[1.0] * m])
        mon.violate("unknown_index", "evaluation at an unknown point was stored")
    except ValueError:
        mon.count("oracle:unknown_index")
    nf, nx = sum(map(len, ref.ev)), len(ref.xs)
    mon.expect(h.get_n_fun() == nf and h.get_n_xs() == nx, "rejected_not_stored")
    if nx > 1000 or nf > 1000:
        mon.count("grown_histories")
    mon.count("repeated_points", sum(len(e) > 1 for e in ref.ev))
    if any(len(e) > 1 for e in ref.ev) and n_ops > 3:
        mon.sig("ops", ft, n, m, nx, nf)


def ball_case(rng, mon):
    from tranquilo.history import History
    from tranquilo.region import Region

    ft = gen.FUNCTYPES[int(rng.integers(3))]
    h = History(functype=ft)
    n = int(rng.integers(1, 5))
    scale = 2.0 ** rng.integers(-20, 20)
    # integer grid: distances are exact, points exactly on the boundary occur
    long = rng.random() < 0.08
    xs = rng.integers(-9, 10, size=(int(rng.integers(3000, 20000) if long else rng.integers(1, 200)), n)).astype(float)
    if n >= 2:
        k = min(len(xs), 12)
        xs[:k] = 0
        for j in range(k):
            a, b = rng.permutation(n)[:2]
            xs[j, a], xs[j, b] = gen.pick(rng, (3, 4), (-3, 4), (4, -3), (5, 0), (-4, -3), (0, 5))
    else:
        xs[: min(6, len(xs)), 0] = [5, -5, 5.0000001, -4.9999999, 0, 4][: min(6, len(xs))]
    c = rng.integers(-5, 6, size=n).astype(float)
    pts = (xs + c) * scale
    if long:
        mon.count("long_histories")
        for part in np.array_split(pts, int(rng.integers(1, 9))):
            h.add_xs(part)
    else:
        h.add_xs(pts)
    h.add_evals(np.arange(len(pts)), rng.normal(size=(len(pts), 1)))
    r = gen.pick(rng, 5.0, 5.0, 1.0, float(rng.integers(1, 12)), float(rng.uniform(0.1, 20)))
    lo = c * scale - rng.uniform(0, 1) * r * scale
    for bounds in (None, (lo, None)):
        if bounds is None:
            reg = Region(center=c * scale, radius=r * scale)
        else:
            from tranquilo.bounds import Bounds

            reg = Region(center=c * scale, radius=r * scale, bounds=Bounds(lo, np.full(n, np.inf)))
        got = h.get_x_indices_in_region(reg)
        d2 = (xs**2).sum(axis=1)
        want = np.flatnonzero(d2 <= r * r)
        amb = np.abs(np.sqrt(d2) - r) <= 1e-14 * r
        amb &= np.sqrt(d2) != r
        g = set(np.asarray(got, int).tolist())
        mon.expect(len(g) == len(got) and all((i in g) == (i in set(want.tolist())) or amb[i] for i in range(len(xs))),
                   "ball", lambda: f"radius {r}: {sorted(g)} instead of {want}")
        mon.count("queries")
        mon.count("ball_boundary_points", int((np.sqrt(d2) == r).sum()))
    mon.sig("ball", n, len(xs), r)
    walk(rng, mon)


def walk(rng, mon):
    """Queries on a growing history, with centers and radii that change by large and tiny amounts."""
    from tranquilo.history import History
    from tranquilo.region import Region

    n = int(rng.integers(1, 4))
    h = History(functype="scalar")
    base = rng.integers(-4, 5, size=n).astype(float)
    pts = np.empty((0, n))  # offsets from the base, exactly representable
    c = np.zeros(n)
    for step in range(14):
        eps = 2.0 ** -int(gen.pick(rng, 0, 10, 20, 30, 40))
        if step == 0 or rng.random() < 0.6:
            new = rng.integers(-6, 7, size=(int(rng.integers(1, 8)), n)) * eps + (c if rng.random() < 0.7 else 0)
            pts = np.vstack([pts, new])
            ind = h.add_xs(base + new)
            h.add_evals(ind, np.zeros(len(new)))
        if rng.random() < 0.7:
            c = c + rng.integers(-3, 4, size=n) * 2.0 ** -int(gen.pick(rng, 0, 10, 20, 30, 40))
        if rng.random() < 0.1:
            c = np.zeros(n)
        r = float(gen.pick(rng, 1, 2, 5, 7, 100)) * eps
        got = np.asarray(h.get_x_indices_in_region(Region(center=base + c, radius=r)), int).tolist()
        d = np.sqrt(((pts - c) ** 2).sum(axis=1))
        want = np.flatnonzero(d <= r).tolist()
        sure = np.abs(d - r) > 1e-13 * r
        mon.count("walk_queries")
        mon.expect(got == sorted(set(got)) and all((i in got) == (i in want) for i in np.flatnonzero(sure)), "ball_walk",
                   lambda: f"query {step}: center base + {c.tolist()}, radius {r}: {got} instead of {want}")


def loop_case(idx, rng, mon):
    fail = None
    if idx % 3 == 0:
        fail = (gen.pick(rng, "mix", "exc", "elnan", "inf", "ninf", "nan", "elboth"), float(gen.pick(rng, 0.05, 0.3)))
    cfg = gen.make_config(rng, fail=fail)
    if rng.random() < 0.2:
        cfg["problem"]["as_list"] = True
    order = ("forward", "reverse", "random")[idx % 3]
    t = trace.run_plain(cfg, order=order, order_rng=np.random.default_rng(idx))
    h = t.history
    ft = cfg["functype"]
    m = trace.n_resid(t)
    mon.expect(h.get_n_fun() == len(t.evals), "count", f"{h.get_n_fun()} recorded, {len(t.evals)} made")
    # expected content: per distinct point the sequence of values in batch order
    want = {}
    for b in t.batches:
        if not mon.expect(b["raw"] is not None, "batch_complete", "an evaluation of a batch was not made"):
            return
        for a, at, raw in zip(b["args"], b["at"], b["raw"]):
            want.setdefault(a.tobytes(), []).append(trace.recorded_value(raw, m))
            if raw is None:
                mon.count("failed_evaluations")
    nx = h.get_n_xs()
    xs = h.get_xs()
    mon.expect(len(xs) == nx, "n_xs_run")
    got = {}
    fv, fs = h.get_fvecs(np.arange(nx)), h.get_fvals(np.arange(nx))
    for i in range(nx):
        mon.expect(len(fv[i]) > 0, "unevaluated", f"point {i} in the history was never evaluated")
        got.setdefault(xs[i].tobytes(), []).extend(list(fv[i]))
        mon.expect(agg_ok(ft, fv[i], fs[i]), "fvals_run")
        if len(fv[i]) > 1:
            mon.count("repeated_points")
    mon.expect(set(got) == set(want), "points", "recorded points differ from the evaluated points")
    for k, w in want.items():
        g = got.get(k, [])
        ok = len(g) == len(w) and sorted(map(tuple, np.asarray(g).tolist())) == sorted(map(tuple, np.asarray(w).tolist()))
        mon.expect(ok, "values", lambda: f"at {np.frombuffer(k)}: recorded {g}, observed {w}; {gen.describe(cfg)}")
    mon.count("run_evaluations", len(t.evals))
    if len(t.states) > 2:
        mon.sig(gen.signature(cfg), order)
    mon.sample(config=gen.describe(cfg), order=order, n_evals=len(t.evals))
