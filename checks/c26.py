import math

import numpy as np

from vk import gen, trace

ID = "C26"
RULE = ("(a) random noise levels (9 decades, incl. zero), expected improvements (incl. zero, negative, infinite), existing "
        "evaluations, confidence and power levels, limits; each result is judged by an independent power calculation and by "
        "monotonicity along chains of one changing parameter; (b) every acceptance step in noisy runs; non-trivial: at least "
        "one sample size strictly between its limits; distinct by (which sizes are interior, limits, existing)")
REQUIRED = {"calls": 4000, "interior_both": 400, "interior_second_only": 200, "capped": 400, "chains": 800, "run_decisions": 150,
            "run_interior": 15}
ASSUMPTIONS = ["confidence and power of at least one half", "expected improvements below 1e-8 count as 1e-8, as in the code",
               "requirements are checked up to a relative tolerance of 1e-9"]
CASE_TIMEOUT = 60


def plan(tier, seed):
    k = 1 if tier == "quick" else 60
    return [("direct", i) for i in range(300 * k)] + [("run", i) for i in range(72 * min(k, 12))]


def z_of(conf, power):
    from statistics import NormalDist

    nd = NormalDist()
    return nd.inv_cdf(conf) + nd.inv_cdf(power)


def stat(sigma, n1, n2, effect):
    """Standardized effect of the two-sample test; power is sufficient iff it is >= z."""
    if sigma == 0:
        return math.inf
    return effect / (sigma * math.sqrt(1 / n1 + 1 / n2)) if n1 > 0 and n2 > 0 else 0.0


def judge(a, n1, n2, mon, pre=""):
    """a: the arguments; n1, n2: additional evaluations of current point, evaluations of candidate."""
    s, ex, nmin, nmax = a["sigma"], a["existing_n1"], a["n_min"], a["n_max"]
    d = lambda: f"{a} -> {n1, n2}"
    mon.count("calls")
    if not mon.expect(isinstance(n1, (int, np.integer)) and isinstance(n2, (int, np.integer)), pre + "integers", d):
        return
    mon.expect(nmin <= n2 <= nmax, pre + "candidate_limits", d)
    mon.expect(0 <= n1 <= max(0, nmax - ex), pre + "current_limits", d)
    e = max(a["expected_improvement"], 1e-8)
    z = z_of(a["confidence_level"], a["power_level"])
    tol = 1e-9
    enough = lambda p, q: stat(s, p, q, e) >= z * (1 - tol)
    short = lambda p, q: stat(s, p, q, e) <= z * (1 + tol)
    cap1 = ex + n1 >= nmax and n1 > 0
    at_cap = n2 >= nmax or ex + n1 >= nmax
    if not at_cap:
        mon.expect(enough(ex + n1, n2), pre + "power", lambda: d() + f": standardized effect {stat(s, ex + n1, n2, e)} below {z}")
    else:
        mon.count("capped")
    # smallest: no evaluation is superfluous
    if n1 > 0:
        # optimal allocation is equal for equal variances; current point gets no more than the candidate's need
        k = ex + n1 - 1
        mon.expect(short(k, k) if k > 0 else True, pre + "current_not_superfluous", d)
        if n2 > nmin and not at_cap:
            mon.count("interior_both")
            mon.expect(n2 == ex + n1, pre + "equal_allocation", d)
            mon.expect(short(n2 - 1, n2 - 1), pre + "smallest_both", d)
    else:
        # no further evaluations of the current point needed (or possible)
        if ex < nmax and z > 0 and s > 0:
            mon.expect(enough(ex, ex) if ex else False, pre + "current_skipped", d)
        if n2 > nmin and n2 < nmax and ex > 0:
            mon.count("interior_second_only")
            mon.expect(short(ex, n2 - 1), pre + "smallest_second", d)
    if n2 == nmax and n2 > nmin:
        # capping is only justified if the next smaller number is not enough
        mon.expect(short(n2 - 1, n2 - 1) if n1 > 0 else (ex == 0 or short(ex, n2 - 1)), pre + "cap_justified", d)
    return (n1 > 0 and not cap1, nmin < n2 < nmax)


def draw(rng):
    nmin = int(gen.pick(rng, 1, 1, 2, 4, 10))
    nmax = int(nmin + gen.pick(rng, 0, 1, 6, 40, 1000, 10**6))
    sigma = float(gen.pick(rng, 0.0, 1.0, 1.0, 1.0) * 10.0 ** rng.uniform(-4, 5))
    ratio = 10.0 ** rng.uniform(-1.2, 0.7)
    ei = max(sigma, 1e-6) * ratio
    ei = float(gen.pick(rng, ei, ei, ei, ei, ei, ei, 0.0, -ei, 1e-9, np.inf))
    return dict(sigma=sigma, existing_n1=int(gen.pick(rng, 1, 1, 2, 5, 5, 20, 100, 1000)), expected_improvement=ei,
                power_level=float(rng.uniform(0.5, 0.99)), confidence_level=float(rng.uniform(0.5, 0.99)), n_min=nmin, n_max=nmax)


def run_case(group, idx, rng, mon):
    if group == "run":
        return loop(rng, mon)
    from tranquilo.acceptance_sample_size import get_acceptance_sample_sizes as f

    for _ in range(40):
        a = draw(rng)
        n1, n2 = f(**a)
        inter = judge(a, n1, n2, mon)
        if inter and any(inter):
            mon.sig(inter, a["n_min"], a["n_max"], a["existing_n1"])
        # monotone in one parameter
        if rng.random() < 0.5:
            p = gen.pick(rng, "sigma", "power_level", "confidence_level", "expected_improvement")
            vals = dict(sigma=a["sigma"] * np.array([0.1, 0.5, 1, 2, 10]), power_level=np.array([0.5, 0.6, 0.8, 0.9, 0.99]),
                        confidence_level=np.array([0.5, 0.6, 0.8, 0.9, 0.99]),
                        expected_improvement=np.abs(a["expected_improvement"]) * np.array([10, 3, 1, 0.3, 0.1]))[p]
            res = [f(**{**a, p: float(v)}) for v in vals]
            mon.count("chains")
            mon.expect(all(x[0] <= y[0] for x, y in zip(res, res[1:])), "monotone_current", lambda: f"{a}, {p}={vals.tolist()}: {res}")
            mon.expect(all(x[1] <= y[1] for x, y in zip(res, res[1:])), "monotone_candidate", lambda: f"{a}, {p}={vals.tolist()}: {res}")
    mon.sample(arguments=a, result=[n1, n2])


def loop(rng, mon):
    from tranquilo.options import AcceptanceOptions

    cfg = gen.make_config(rng, noisy=True, acceptance_decider=gen.pick(rng, "noisy", None), kind=gen.pick(rng, "q", "nl", "rosen"),
                          noise=float(gen.pick(rng, 0.0, 0.001, 0.01, 0.05, 0.3)), bounds=gen.pick(rng, "none", "none", "tight", "mixed"))
    o = cfg["options"]
    lo = int(gen.pick(rng, 1, 2, 4))
    o["acceptance_decider_options"] = dict(n_min=lo, n_max=int(lo + gen.pick(rng, 0, 10, 100)),
                                           power_level=float(gen.pick(rng, 0.6, 0.8, 0.95)), confidence_level=float(gen.pick(rng, 0.6, 0.8, 0.9)))
    if rng.random() < 0.2:
        o["acceptance_decider_options"].pop("n_max")
    opt = AcceptanceOptions()._asdict()
    opt.update(o["acceptance_decider_options"])
    t = trace.run_traced(cfg, only=("acceptance_decider",))
    for ev in t.of_kind("accept"):
        if "result" not in ev:
            continue
        i = int(ev["state"].index)
        c0, c1 = ev["counts"], ev["counts_after"]
        if not mon.expect(len(c1) == len(c0) + 1, "run_one_candidate", "acceptance step adds exactly one point"):
            continue
        a = dict(sigma=float(np.sqrt(ev["noise_variance"])), existing_n1=int(c0[i]), expected_improvement=float(ev["sol"].expected_improvement),
                 power_level=opt["power_level"], confidence_level=opt["confidence_level"], n_min=opt["n_min"], n_max=opt["n_max"])
        mon.count("run_decisions")
        n1, n2 = int(c1[i] - c0[i]), int(c1[-1])
        mon.expect(np.array_equal(np.delete(c1[:-1], i), np.delete(c0, i)), "run_other_points", "acceptance step evaluated other points")
        inter = judge(a, n1, n2, mon, "run_")
        mon.count("run_interior", bool(inter and any(inter)))
