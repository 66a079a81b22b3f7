import numpy as np

from vk import trace

ID = "C21"
RULE = ("random well-conditioned problems (singular values within a factor 3; linear and mildly nonlinear residuals, convex "
        "quadratic scalar functions; no, loose and binding bounds; 1-8 parameters; scales 1e-2 to 1e2) solved with default options; "
        "the evaluations observed at the criterion and the result are compared with an independently computed constrained "
        "optimum; non-trivial: every run; distinct by (kind, bounds, dimension, start distance)")
REQUIRED = {"runs": 120, "binding": 30, "noisy_runs": 12, "scalar_runs": 20}
ASSUMPTIONS = ["accuracy is relative: (f_final - f*)/(f(x0) - f*)",
               "hard limits have a margin of at least 10 over the worst of several hundred observed runs; shares are over "
               "batches of problems of one case",
               "the accuracy of every single run is limited by the relative criterion tolerance, which a lucky small step meets early (worst "
               "observed of ~1000: 2e-3 for nonlinear residuals with binding bounds); batches have to be much better"]
CASE_TIMEOUT = 200
CHUNK = 1

#           final gap per run, gap that must be reached within evals*(n+2), gap that 2/3 of a batch must attain
HARD = {
    ("q", "none"): (1e-9, 1e-6, 6, 1e-12),
    ("q", "loose"): (1e-9, 1e-6, 6, 1e-12),
    ("q", "bind"): (1e-9, 1e-6, 6, 1e-12),
    ("nl", "none"): (1e-2, 1e-2, 10, 1e-6),
    ("nl", "loose"): (1e-2, 1e-2, 10, 1e-6),
    ("nl", "bind"): (5e-2, 5e-2, 10, 1e-6),
    ("sc", "none"): (1e-2, 1e-2, 15, 1e-6),
    ("sc", "loose"): (1e-2, 1e-2, 15, 1e-6),
    ("sc", "bind"): (1e-1, 1e-1, 15, 1e-2),
}
SIZE = {"q": 9, "nl": 9, "sc": 5, "noisy": 4}
BDS = ("none", "loose", "bind")


def plan(tier, seed):
    # slow groups first
    k = 1 if tier == "quick" else 8
    out = [(f"noisy_{b}", i) for b in ("none", "bind") for i in range(4 * k)]
    out += [(f"sc_{b}", i) for b in BDS for i in range(2 * k)]
    out += [(f"{kd}_{b}", i) for kd in ("q", "nl") for b in BDS for i in range(4 * k)]
    return out


def problem(rng, kind, bd, n_max):
    n = int(rng.integers(1, n_max + 1))
    m = n + int(rng.integers(0, 4))
    q1, _ = np.linalg.qr(rng.normal(size=(m, n)))
    q2, _ = np.linalg.qr(rng.normal(size=(n, n)))
    A = q1 @ np.diag(np.exp(rng.uniform(0, np.log(3), n))) @ q2.T
    x0 = rng.normal(size=n) * 10.0 ** rng.integers(-2, 3)
    w = np.abs(x0).max()
    dist = float(rng.choice([0.3, 1.0, 5.0]))
    t = x0 + w * rng.uniform(-1, 1, n) * dist
    c = rng.normal(size=m) * rng.choice([0, 0.3])
    B = rng.normal(size=(m, n))
    if kind == "nl":
        r = lambda x: A @ ((x - t) / w) + c + 0.1 * np.sin(B @ ((x - t) / w))
    else:
        r = lambda x: A @ ((x - t) / w) + c
    lo, up = np.full(n, -np.inf), np.full(n, np.inf)
    if bd == "loose":
        lo, up = np.minimum(x0, t) - 3 * w, np.maximum(x0, t) + 3 * w
    elif bd == "bind":
        for i in range(n):
            if rng.random() < 0.5:
                mid = x0[i] + (t[i] - x0[i]) * rng.uniform(0.2, 0.8)
                if t[i] > x0[i]:
                    up[i] = mid
                else:
                    lo[i] = mid
    # independent reference, in units of w
    from scipy.optimize import least_squares, lsq_linear

    lu = (lo / w, up / w)
    if kind == "nl":
        s = least_squares(lambda z: r(z * w), np.clip(t / w, *lu), bounds=lu, ftol=1e-15, xtol=1e-15, gtol=1e-15)
    else:
        s = lsq_linear(A, A @ (t / w) - c, bounds=lu, tol=1e-15, method="bvls" if bd != "none" else "trf")
    z = np.clip(s.x * w, lo, up)
    best = float(r(z) @ r(z))
    opts = {} if bd == "none" else dict(lower_bounds=lo, upper_bounds=up)
    return n, r, x0, best, opts, dist


def run_case(group, idx, rng, mon):
    kind, bd = group.split("_")
    if kind == "noisy":
        return noisy(bd, rng, mon)
    gaps = []
    limit, target, mult, share_gap = HARD[kind, bd]
    for j in range(SIZE[kind]):
        n, r, x0, best, opts, dist = problem(rng, kind, bd, 5 if kind == "sc" else 8)
        opts.update(seed=int(rng.integers(1000)), stopping_max_iterations=100)
        f = lambda x: float(r(x) @ r(x))
        gain = f(x0) - best
        if gain <= 1e-12 * abs(best):
            continue
        cfg = dict(functype="scalar" if kind == "sc" else "least_squares", x0=x0, options=opts)
        tr = trace.run_plain(cfg, fun=f if kind == "sc" else r, cap=8000)
        mon.count("runs")
        mon.count("evaluations", len(tr.evals))
        mon.count("scalar_runs", kind == "sc")
        mon.count("binding", bd == "bind")
        cur = np.minimum.accumulate([f(x) for x, _ in tr.evals])
        g = (cur - best) / gain
        final = (f(tr.res["solution_x"]) - best) / gain
        gaps.append(final)
        d = lambda: f"{group} problem {j}: n={n}, x0={x0.tolist()}, options {opts}, message {tr.res['message']!r}"
        mon.expect(final >= -1e-9, "below_optimum", lambda: f"gap {final}: {d()}")
        mon.expect(final <= limit, "not_solved:" + kind, lambda: f"relative gap {final:.2e} > {limit} after {len(cur)} evaluations; {d()}")
        need = int(np.argmax(g <= target)) + 1 if (g <= target).any() else None
        mon.expect(need is not None and need <= mult * (n + 2), "slow:" + kind,
                   lambda: f"gap {target} after {need} evaluations, limit {mult * (n + 2)}; {d()}")
        mon.sig(kind, bd, n, dist)
        if j == 0:
            mon.sample(kind=kind, bounds=bd, n=n, evaluations=len(cur), gap=final, evals_to_target=need)
    if len(gaps) >= 3:
        good = np.mean(np.array(gaps) <= share_gap)
        mon.expect(good >= (0.6 if kind != "sc" else 0.4), "share:" + kind,
                   lambda: f"{group}: only {good:.0%} of {len(gaps)} runs reach a gap of {share_gap}: {gaps}")


def noisy(bd, rng, mon):
    rel = []
    for j in range(SIZE["noisy"]):
        n, r, x0, best, opts, dist = problem(rng, "q", bd, 5)
        m = len(r(x0))
        f = lambda x: float(r(x) @ r(x))
        if f(x0) - best <= 0.1 * best:
            continue  # start within the noise
        sd = float(rng.choice([0.003, 0.03])) * np.linalg.norm(r(x0)) / np.sqrt(m)
        opts.update(noisy=True, seed=int(rng.integers(1000)), stopping_max_iterations=100)
        nr = np.random.default_rng(int(rng.integers(2**31)))
        cfg = dict(functype="least_squares", x0=x0, options=opts)
        tr = trace.run_plain(cfg, fun=lambda x: r(x) + sd * nr.normal(size=m), cap=20000)
        mon.count("noisy_runs")
        mon.count("evaluations", len(tr.evals))
        g = (f(tr.res["solution_x"]) - best) / (sd**2 * (n + 1))
        rel.append(g)
        mon.expect(g <= 60, "noisy_not_solved", lambda: f"gap is {g:.1f} times the noise variance (n={n}, sd={sd}, bounds {bd}), message {tr.res['message']!r}")
        mon.sig("noisy", bd, n, dist)
    if len(rel) >= 3:
        mon.expect(np.sort(rel)[len(rel) // 2 - 1 if len(rel) > 3 else 1] <= 5, "noisy_share", lambda: f"most runs end outside the noise: {rel}")
