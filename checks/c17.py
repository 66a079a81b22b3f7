import numpy as np

from vk import gen

ID = "C17"
RULE = ("random sample matrices x patterns of infinite/undefined entries (none, single, whole columns, whole rows, "
        "columns with one distinct finite value); non-trivial: at least one non-finite and one finite entry")
REQUIRED = {"matrices": 4000, "posinf": 5000, "neginf": 3000, "nan": 1000, "columns_without_finite": 300,
            "columns_with_equal_values": 300, "scaling_checked": 300, "huge_values": 300}
ASSUMPTIONS = ["finite entries of magnitude below 1e250"]
CASE_TIMEOUT = 60


def plan(tier, seed):
    k = 1 if tier == "quick" else 40
    return [("matrix", i) for i in range(200 * k)]


def one(clip, rng, mon):
    n, m = int(rng.integers(1, 12)), int(rng.integers(1, 6))
    y = rng.normal(size=(n, m)) * 10.0 ** rng.integers(-6, 7, size=m) + rng.normal(size=m) * 10.0 ** rng.integers(-6, 7, size=m)
    if rng.random() < 0.15:
        mon.count("huge_values")
        y *= 10.0 ** rng.integers(9, 241, size=m)
    for j in range(m):
        p = gen.pick(rng, "keep", "some", "some", "all", "equal", "one")
        if p == "equal":
            y[:, j] = y[0, j] if rng.random() < 0.7 else 0.0
        if p != "keep":
            k = n if p == "all" else n - 1 if p == "one" else int(rng.integers(0, n))
            rows = rng.permutation(n)[:k]
            y[rows, j] = rng.choice([np.inf, np.inf, -np.inf, np.nan], size=k)
    before = y.copy()
    out = clip(y)
    mon.count("matrices")
    d = lambda: f"{before.tolist()} -> {np.asarray(out).tolist()}"
    mon.expect(np.array_equal(y, before, equal_nan=True), "input_modified")
    if not mon.expect(np.shape(out) == before.shape and np.isfinite(out).all(), "finite", d):
        return
    fin = np.isfinite(before)
    mon.expect((out[fin] == before[fin]).all(), "finite_untouched", d)
    for j in range(m):
        f = before[fin[:, j], j]
        pos, neg, nan = (out[q[:, j], j] for q in (before == np.inf, before == -np.inf, np.isnan(before)))
        mon.count("posinf", len(pos))
        mon.count("neginf", len(neg))
        mon.count("nan", len(nan))
        if not len(f):
            mon.count("columns_without_finite")
            f = np.zeros(1)
        hi, lo = f.max(), f.min()
        rg = hi - lo
        if rg == 0 and len(pos) + len(neg):
            mon.count("columns_with_equal_values")
        mon.expect((pos > hi).all() and (nan > hi).all(), "posinf_worse", d)
        mon.expect((neg < lo).all(), "neginf_better", d)
        # by an amount that scales with the range
        mon.expect((pos - hi >= rg * (1 - 1e-9)).all() and (lo - neg >= rg * (1 - 1e-9)).all(), "penalty_scales", d)
        mon.expect(len(set(pos)) <= 1 and len(set(neg)) <= 1, "same_penalty", d)
        # columns are independent
        if rng.random() < 0.1:
            alone = clip(before[:, [j]])
            mon.expect(np.array_equal(alone[:, 0], out[:, j]), "column_independent", d)
    mon.expect(np.array_equal(clip(out), out), "idempotent")
    if rng.random() < 0.15:
        # penalty beyond the extremes grows proportionally with large ranges
        z = before * 1e8
        big = clip(z)
        for j in range(m):
            f = before[fin[:, j], j]
            if len(f) > 1 and f.max() - f.min() > 1e-2:
                mon.count("scaling_checked")
                sel = before[:, j] == np.inf
                a, b = (out[sel, j] - f.max()), (big[sel, j] - 1e8 * f.max())
                mon.expect((b >= a * 10).all(), "grows_with_range", d)
    if fin.any() and not fin.all():
        mon.sig(n, m, int((~fin).sum()))
    return before


def run_case(group, idx, rng, mon):
    from tranquilo.handle_infinity import get_infinity_handler

    clip = get_infinity_handler("relative")
    for _ in range(50):
        b = one(clip, rng, mon)
    mon.sample(matrix=b)
