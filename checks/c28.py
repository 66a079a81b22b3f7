import numpy as np

from vk import gen

ID = "C28"
RULE = ("random linear subproblems (1-12 parameters; dense, sparse, tied and zero gradients over 16 orders of magnitude; infinite, "
        "wide, tight, touching and equal-distance bounds; radii from 1e-6 to 1e3; centers away from zero for geometry steps) are "
        "solved by the real code and compared with the exact solution from a one-dimensional root search; non-trivial: at least "
        "one active bound; distinct by (function, n, number of active bounds, which constraint ends the step)")
REQUIRED = {"solved": 5000, "active_bounds": 3000, "several_active": 1500, "radius_ends": 1500, "bounds_end": 500,
            "touching": 600, "geometry": 2500, "geometry_nonzero_center": 1000, "rejected": 100}
ASSUMPTIONS = ["bounds contain the center; bounds within 1e-14 of it and gradient entries below 1e-14 count as zero, as documented"]
CASE_TIMEOUT = 60
TIMEOUT_IS_VIOLATION = True


def plan(tier, seed):
    k = 1 if tier == "quick" else 40
    return [("minimize", i) for i in range(160 * k)] + [("geometry", i) for i in range(100 * k)]


def problem(rng):
    n = int(gen.pick(rng, 1, 2, 2, 3, 3, 4, 5, 7, 12))
    r = float(10 ** rng.uniform(-6, 3)) if rng.random() < 0.5 else float(rng.uniform(0.5, 2))
    g = rng.normal(size=n) * 10 ** rng.uniform(-6, 6)
    k = gen.pick(rng, "dense", "dense", "sparse", "tied", "zero", "mixed")
    if k == "sparse":
        g[rng.random(n) < 0.5] = 0
    elif k == "tied":
        g = np.sign(g) * abs(g[0])
    elif k == "zero":
        g[:] = 0
    elif k == "mixed":
        g = rng.normal(size=n) * 10 ** rng.uniform(-4, 4, size=n)
    w = r * 10 ** rng.uniform(-1.5, 0.5, size=n)
    lo, up = -w, r * 10 ** rng.uniform(-1.5, 0.5, size=n)
    b = gen.pick(rng, "free", "box", "box", "box", "tight", "touch", "half", "equal")
    if b == "free":
        lo[:], up[:] = -np.inf, np.inf
    elif b == "tight":
        lo, up = lo * 1e-3, up * 1e-3
    elif b == "touch":
        lo[rng.random(n) < 0.5] = 0
        up[(rng.random(n) < 0.4)] = 0
    elif b == "half":
        lo[rng.random(n) < 0.5] = -np.inf
        up[rng.random(n) < 0.5] = np.inf
    elif b == "equal":
        lo[:], up[:] = -0.3 * r, 0.3 * r
    return n, g, lo, up, r, k, b


def exact(g, lo, up, r):
    """Minimizer of g @ x over the intersection of box and ball, both containing zero."""
    full = np.where(g > 0, lo, np.where(g < 0, up, 0.0))
    if np.linalg.norm(full) <= r:
        return full
    s = g / np.abs(g).max()
    f = lambda q: np.clip(-s * np.exp(q), lo, up)
    a, b = np.log(r) - 80, np.log(r) + 80
    for _ in range(200):
        m = (a + b) / 2
        if np.linalg.norm(f(m)) <= r:
            a = m
        else:
            b = m
    return f(a)


def feasible(x, lo, up, r, mon, d, scale=0.0):
    t = 1.01e-14 + 1e-12 * r + 4e-16 * scale
    if not mon.expect(np.shape(x) == np.shape(lo) and np.isfinite(x).all(), "finite", d):
        return False
    mon.expect((x >= lo - t).all() and (x <= up + t).all(), "bounds", d)
    mon.expect(np.linalg.norm(x) <= r * (1 + 1e-9) + t, "radius", d)
    return True


def run_case(group, idx, rng, mon):
    from tranquilo.subsolvers.linear_subsolvers import LinearModel, improve_geomtery_trsbox_linear, minimize_trsbox_linear

    for _ in range(50):
        n, g, lo, up, r, kind, bk = problem(rng)
        c = float(rng.normal() * np.abs(g).max() * r) if rng.random() < 0.7 else 0.0
        tiny = np.abs(g) < 1e-14
        gg = np.where(tiny, 0.0, g)
        slack = np.abs(g[tiny]).sum() * r + np.abs(g).sum() * 1e-14 * 2
        if group == "minimize":
            model = LinearModel(intercept=c, linear_terms=g.copy())
            a, b = lo.copy(), up.copy()
            d = lambda: f"gradient {g.tolist()} bounds {lo.tolist()} {up.tolist()} radius {r}: {x}"
            x = None
            try:
                x = minimize_trsbox_linear(model, a, b, r)
            except Exception as e:
                mon.expect(False, "crash", lambda: f"{e!r} {d()}")
                continue
            mon.expect(np.array_equal(model.linear_terms, g) and np.array_equal(a, lo) and np.array_equal(b, up), "inputs", d)
            mon.count("solved")
            if not feasible(x, lo, up, r, mon, d):
                continue
            ex = exact(gg, lo, up, r) if (gg != 0).any() else np.zeros(n)
            best = float(g @ ex)
            mon.expect(g @ x <= best + 1e-9 * abs(best) + slack, "optimal", lambda: f"value {g @ x} instead of {best}; {d()}")
            act = int(((np.abs(ex - lo) <= 1e-12 * r) | (np.abs(ex - up) <= 1e-12 * r))[gg != 0].sum())
            mon.count("active_bounds", int(act > 0))
            mon.count("several_active", int(act > 1))
            ends = np.linalg.norm(ex) >= r * (1 - 1e-6)
            mon.count("radius_ends" if ends else "bounds_end")
            mon.count("touching", int(bk == "touch"))
            mon.sig("minimize", n, act, bool(ends), kind)
        else:
            center = rng.normal(size=n) * 10 ** rng.uniform(-2, 2) if rng.random() < 0.7 else np.zeros(n)
            mon.count("geometry_nonzero_center", int(center.any()))
            if rng.random() < 0.1:
                # center outside of the bounds must be refused
                bad_lo, bad_up = center - 1.0, center + 1.0
                j = int(rng.integers(n))
                if rng.random() < 0.5:
                    bad_lo[j] = center[j] + 0.1
                else:
                    bad_up[j] = center[j] - 0.1
                try:
                    improve_geomtery_trsbox_linear(center, LinearModel(c, g.copy()), bad_lo, bad_up, r)
                    mon.expect(False, "not_refused", f"center {center} bounds {bad_lo} {bad_up}")
                except ValueError:
                    mon.count("rejected")
                continue
            l2, u2 = lo + center, up + center
            lo, up = l2 - center, u2 - center
            if (lo > 0).any() or (up < 0).any():
                continue
            model = LinearModel(intercept=c, linear_terms=g.copy())
            a, b, cc = l2.copy(), u2.copy(), center.copy()
            d = lambda: f"center {center.tolist()} intercept {c} gradient {g.tolist()} bounds {l2.tolist()} {u2.tolist()} radius {r}: {x}"
            x = None
            try:
                x = improve_geomtery_trsbox_linear(cc, model, a, b, r)
            except Exception as e:
                mon.expect(False, "geometry_crash", lambda: f"{e!r} {d()}")
                continue
            mon.expect(np.array_equal(model.linear_terms, g) and np.array_equal(a, l2) and np.array_equal(b, u2)
                       and np.array_equal(cc, center), "inputs", d)
            mon.count("geometry")
            sc = np.abs(center).max()
            if not feasible(x - center, lo, up, r, mon, d, sc):
                continue
            vals = [0.0, 0.0]
            if (gg != 0).any():
                vals = [float(g @ exact(gg, lo, up, r)), float(g @ exact(-gg, lo, up, r))]
            best = max(abs(c + v) for v in vals)
            got = abs(c + g @ (x - center))
            tol = 1e-9 * (abs(c) + max(map(abs, vals))) + slack + 1e-15 * sc * np.abs(g).sum()
            mon.expect(got >= best - tol, "largest_polynomial", lambda: f"{got} instead of {best}; {d()}")
            mon.sig("geometry", n, kind, bk, bool(center.any()))
    mon.sample(group=group, n=n, kind=kind, bounds=bk, radius=r)
