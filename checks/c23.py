import os
import pickle
import subprocess
import sys
import tempfile
from pathlib import Path

import numpy as np

from checks.c15 import sphere_opt, val
from vk import core, gen, trace

ID = "C23"
RULE = ("the same generated inputs (models: definite, singular, indefinite, badly scaled, sparse, single-parameter, tied; points on and off bounds; all conjugate gradient methods "
        "and tolerances) executed in three processes: compiled, compiled with array bounds checks, uncompiled; judged per input on feasibility, objective, unmodified inputs, "
        "and agreement between the modes and with the plain counterpart; distinct by (kernel, method, model kind, n)")
REQUIRED = {"executions": 20000, "bounds_checked_executions": 4000, "cube_models": 1200, "sphere_models": 1200, "mode_pairs": 6000, "plain_pairs": 3000, "cg_methods": 3600,
            "trsbox_kernel": 250, "cluster_calls": 250, "feature_calls": 250, "compiled_runs": 6}
ASSUMPTIONS = ["models with entries above 1e150 are excluded (compiled code divides by an overflowed zero)", "arrays are C-contiguous as in the optimizer",
               "the sphere solvers may exceed the radius by k_easy"]
CASE_TIMEOUT = 120
PARTS = ("cube", "sphere", "small")
MODES = ("compiled", "bounds", "plain")
_RES = {}


def sizes(tier):
    return (12, 150) if tier == "quick" else (96, 500)


def plan(tier, seed):
    return [(p, i) for p in PARTS for i in range(sizes(tier)[0])] + [("share", 0)]


def prepare(tier, seed):
    """Execute all inputs in all modes."""
    n, size = sizes(tier)
    here = Path(__file__).resolve().parent
    tmp = tempfile.mkdtemp(prefix="c23_")
    procs = []
    try:
        for mode in MODES:
            for part in PARTS:
                out = os.path.join(tmp, f"{mode}_{part}.pkl")
                env = {k: v for k, v in os.environ.items() if not k.startswith("NUMBA_")}
                env["PYTHONDONTWRITEBYTECODE"] = "1"
                procs.append((mode, part, out, subprocess.Popen([sys.executable, str(here / "c23_worker.py"), mode, part, str(seed), str(n), str(size), out],
                                                                stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)))
        for mode, part, out, p in procs:
            so, se = p.communicate(timeout=800)
            if p.returncode == 0 and os.path.exists(out):
                with open(out, "rb") as f:
                    _RES[mode, part] = pickle.load(f)
            else:
                _RES[mode, part] = (p.returncode, se.decode()[-1500:])
    finally:
        for *_, p in procs:
            if p.poll() is None:
                p.kill()
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)


# ------------------------------------------------------------------------------ inputs
CG = ("cg", "steihaug_toint", "trsbox")


def draw_model(rng, n):
    kind = gen.pick(rng, "pd", "pd", "psd", "zero", "indef", "nd", "ill", "diag", "sparse", "tied", "bigslope", "smallslope", "int")
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    ev = rng.uniform(0.3, 3, n)
    if kind == "psd":
        ev[: max(1, n // 2)] = 0.0
    elif kind == "zero":
        ev[:] = 0.0
    elif kind in ("indef", "sparse"):
        ev = rng.normal(size=n)
    elif kind == "nd":
        ev = -ev
    elif kind == "ill":
        ev = 10.0 ** rng.uniform(-6, 2, n)
    elif kind == "tied":
        ev[:] = gen.pick(rng, 1.0, -1.0)
    if kind in ("diag", "sparse"):
        Q = np.eye(n)
    H = Q @ np.diag(ev) @ Q.T
    H = 0.5 * (H + H.T)
    g = rng.normal(size=n)
    if kind == "bigslope":
        g *= 1e3
    elif kind == "smallslope":
        g *= 1e-4
    elif kind == "sparse":
        g[rng.random(n) < 0.6] = 0.0
    elif kind == "int":
        H = np.round(2 * H)
        g = np.round(3 * g)
    if rng.random() < 0.05:
        g[:] = 0.0
    mag = 10.0 ** int(rng.integers(-3, 4) if rng.random() < 0.9 else gen.pick(rng, -10, 8, 12))
    return kind, np.ascontiguousarray(g * mag), np.ascontiguousarray(H * mag)


def draw_point(rng, n):
    where = gen.pick(rng, "zero", "inside", "face", "corner")
    x = np.zeros(n) if where == "zero" else rng.uniform(-1, 1, n)
    if where == "corner":
        x = np.sign(x)
    if where == "face":
        m = rng.random(n) < 0.5
        x[m] = np.sign(x[m])
    return where, x


def cases(part, seed, shard, size):
    """The inputs of a shard; the same in every mode."""
    for i in range(size):
        rng = core.case_rng(seed, f"c23{part}", shard * 100000 + i)
        n = int(gen.pick(rng, 1, 1, 2, 2, 3, 4, 5, 6, 8, 12))
        if part == "cube":
            kind, g, H = draw_model(rng, n)
            where, x = draw_point(rng, n)
            opt = dict(conjugate_gradient_method=CG[(i + shard) % 3], maxiter=int(gen.pick(rng, 20, 20, 3, 60)), maxiter_gradient_descent=int(gen.pick(rng, 5, 5, 1, 0)),
                       gtol_abs=float(gen.pick(rng, 1e-8, 1e-8, 1e-5)), gtol_rel=float(gen.pick(rng, 1e-8, 1e-8, 1e-5)), gtol_scaled=float(gen.pick(rng, 0.0, 0.0, 1e-5)),
                       gtol_abs_conjugate_gradient=float(gen.pick(rng, 1e-8, 1e-6)), gtol_rel_conjugate_gradient=float(gen.pick(rng, 1e-6, 1e-8)))
            if rng.random() < 0.7:  # documented unit cube; others are cubes cut by hand
                lo, up = -np.ones(n), np.ones(n)
            else:
                lo, up = np.minimum(x, -rng.uniform(0.1, 1, n)), np.maximum(x, rng.uniform(0.1, 1, n))
            default = opt["conjugate_gradient_method"] == "cg" and opt["maxiter"] >= 20 and opt["maxiter_gradient_descent"] == 5
            yield dict(f="bntr", kind=kind, n=n, g=g, H=H, x=x, lo=lo, up=up, opt=opt, default=default)
        elif part == "sphere":
            kind, g, H = draw_model(rng, n)
            opt = gen.pick(rng, dict(k_easy=0.1, k_hard=0.2, maxiter=20), dict(k_easy=0.1, k_hard=0.2, maxiter=200), dict(k_easy=1e-3, k_hard=1e-3, maxiter=100), dict(k_easy=0.1, k_hard=0.2, maxiter=3))
            if kind == "indef" and rng.random() < 0.4:  # hard case
                w, V = np.linalg.eigh(H)
                g = g - V[:, 0] * (V[:, 0] @ g)
            yield dict(f="gqtpar", kind=kind, n=n, g=g, H=H, x=np.zeros(n), opt=opt)
        else:
            w = (i + shard) % 5
            if w < 3:
                kind, g, H = draw_model(rng, n)
                if not g.any():
                    g[0] = 1.0
                r = float(gen.pick(rng, 1.0, 0.3, 2.0, 1e-2, 50.0))
                d = dict(f=("cg", "stcg", "trsbox")[w], kind=kind, n=n, g=g, H=H, r=r)
                if w == 2:
                    d.update(lo=-rng.uniform(0, 1, n), up=rng.uniform(0, 1, n))
                    if rng.random() < 0.4:
                        d["lo"][rng.random(n) < 0.3] = 0.0
                yield d
            elif w == 3:
                x = rng.normal(size=(int(rng.integers(1, 25)), n))
                if rng.random() < 0.5:
                    x = np.round(x)  # coinciding points
                yield dict(f="cluster", kind="points", n=n, X=x, eps=float(10.0 ** rng.uniform(-3, 0.7)))
            else:
                yield dict(f="features", kind="points", n=n, X=np.ascontiguousarray(rng.normal(size=(int(rng.integers(1, 12)), n))))


# ------------------------------------------------------------------------------ execution (in the worker processes)
def execute(part, seed, shard, size):
    out = []
    todo = list(cases(part, seed, shard, size if size > 1 else 15))
    if part == "small" and size > 1 and shard < 4:
        todo += [dict(f="run", kind="run", n=2 + shard % 3, seed=seed * 100 + shard)]
    for c in todo:
        before = {k: v.copy() for k, v in c.items() if isinstance(v, np.ndarray)}
        r = {}
        for name, call in calls(c):
            try:
                r[name] = call()
            except Exception as e:
                r[name] = repr(e)[:300]
        r["modified"] = [k for k, v in before.items() if not np.array_equal(v, c[k])]
        out.append(r)
    return out


def calls(c):
    from tranquilo import clustering, fit_models, models
    from tranquilo.subsolvers import _conjugate_gradient, _conjugate_gradient_fast, _steihaug_toint, _steihaug_toint_fast, _trsbox, _trsbox_fast
    from tranquilo.subsolvers import bntr, bntr_fast, gqtpar, gqtpar_fast

    f = c["f"]
    if f in ("bntr", "gqtpar"):
        model = models.ScalarModel(intercept=0.0, linear_terms=c["g"], square_terms=c["H"], shift=np.zeros(c["n"]), scale=1.0)

        def pick(r):
            return dict(x=np.array(r["x"], float), success=bool(r["success"]), criterion=float(r["criterion"]))

        if f == "bntr":
            kw = dict(model=model, lower_bounds=c["lo"], upper_bounds=c["up"], x_candidate=c["x"], **c["opt"])
            return [("fast", lambda: pick(bntr_fast.bntr_fast(**kw))), ("plain", lambda: pick(bntr.bntr(**kw)))]
        kw = dict(model=model, x_candidate=c["x"], **c["opt"])
        return [("fast", lambda: pick(gqtpar_fast.gqtpar_fast(**kw))), ("plain", lambda: pick(gqtpar.gqtpar(**kw)))]
    arr = lambda x: dict(x=np.array(x, float))
    if f == "cg":
        return [("fast", lambda: arr(_conjugate_gradient_fast.minimize_trust_cg_fast(c["g"], c["H"], c["r"], 1e-8, 1e-6))),
                ("plain", lambda: arr(_conjugate_gradient.minimize_trust_cg(c["g"], c["H"], c["r"], gtol_abs=1e-8, gtol_rel=1e-6)))]
    if f == "stcg":
        return [("fast", lambda: arr(_steihaug_toint_fast.minimize_trust_stcg_fast(c["g"], c["H"], c["r"]))),
                ("plain", lambda: arr(_steihaug_toint.minimize_trust_stcg(c["g"], c["H"], c["r"])))]
    if f == "trsbox":
        return [("fast", lambda: arr(_trsbox_fast.minimize_trust_trsbox_fast(c["g"], c["H"], c["r"], c["lo"], c["up"]))),
                ("plain", lambda: arr(_trsbox.minimize_trust_trsbox(c["g"], c["H"], c["r"], lower_bounds=c["lo"], upper_bounds=c["up"])))]
    if f == "cluster":
        return [("fast", lambda: tuple(np.array(q) for q in clustering.cluster(c["X"], c["eps"])))]
    if f == "features":
        return [("fast", lambda: (np.array(fit_models._quadratic_features(c["X"])), *[int(getattr(models, q)(c["n"])) if hasattr(models, q) else k
                                                                                        for q, k in (("n_second_order_terms", c["n"] * (c["n"] + 1) // 2), ("n_interactions", c["n"] * (c["n"] - 1) // 2))]))]
    if f == "run":
        return [("fast", lambda: run(c))]
    raise AssertionError(f)


def run_config(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    cfg = gen.make_config(rng, functype="least_squares", n=n, kind="q", defaults=True, noisy=False, maxiter=60, maxfun=300, bounds=gen.pick(rng, "none", "tight", "edge"))
    return cfg


def run(c):
    cfg = run_config(c)
    t = trace.run_plain(cfg)
    return dict(x=np.array(t.res["solution_x"]), f=float(t.res["solution_criterion"]), n=len(t.evals), f0=float(trace.aggregate("least_squares", t.evals[0][1])),
                xs=np.array([x for x, _ in t.evals]))


# ------------------------------------------------------------------------------ judging
def run_case(group, idx, rng, mon):
    if group == "share":
        return shares(mon)
    for mode in MODES:
        if not isinstance(_RES.get((mode, group)), list):
            raise RuntimeError(f"no results of mode {mode}, {group}: {_RES.get((mode, group))}")
    res = {mode: _RES[mode, group][idx] for mode in MODES}
    size = len(res["plain"])
    judge_shard(group, idx, res, mon)


def inputs(group, idx):
    n, size = _SIZE
    todo = list(cases(group, core._SEED, idx, size))
    if group == "small" and idx < 4:
        todo += [dict(f="run", kind="run", n=2 + idx % 3, seed=core._SEED * 100 + idx)]
    return todo


_SIZE = (12, 150)


def judge_shard(group, idx, res, mon, ratios=None):
    global _SIZE
    n_cases = len(res["plain"]) - (1 if group == "small" and idx < 4 else 0)
    _SIZE = (None, n_cases)
    todo = inputs(group, idx)
    for i, c in enumerate(todo):
        d = lambda: f"{group} shard {idx} input {i}: " + str({k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in c.items()})
        rs = {}
        for mode in MODES:
            r = res[mode][i]
            mon.expect(r["modified"] == [], "inputs_modified", lambda: f"{mode}: {r['modified']}; {d()}")
            for which in ("fast", "plain"):
                if which not in r:
                    continue
                mon.count("executions")
                mon.count("bounds_checked_executions", mode == "bounds" and which == "fast")
                if isinstance(r[which], str):
                    mon.violate("exception_" + mode, f"{which} solver: {r[which]}; {d()}")
                else:
                    rs[mode, which] = r[which]
        if len(rs) < 3:
            continue
        mon.sig(c["f"], c.get("opt", {}).get("conjugate_gradient_method"), c["kind"], c["n"])
        globals()["judge_" + c["f"]](c, rs, mon, d)
    mon.sample(input=d()[:600], results={str(k): str(v)[:200] for k, v in rs.items()})


def decrease(c, x, x0):
    return val(c["g"], c["H"], x0) - val(c["g"], c["H"], x)


def size_of(c, r=1.0):
    return (np.abs(c["g"]).sum() * r + 0.5 * np.abs(c["H"]).sum() * r * r) + 1e-300


def compare(c, rs, mon, d, x0, scale, tol):
    """Objective per mode; the fast solver in the three modes, and against the plain counterpart."""
    dec = {k: decrease(c, r["x"], x0) for k, r in rs.items()}
    best = max(dec.values())
    base = dec["plain", "fast"]
    for mode in ("compiled", "bounds"):
        mon.count("mode_pairs")
        gap = abs(dec[mode, "fast"] - base)
        mon.count("modes_equal", np.array_equal(rs[mode, "fast"]["x"], rs["plain", "fast"]["x"]))
        mon.count("modes_close", gap <= 1e-9 * scale)
        mon.count(f"modes_{c['f']}_n")
        mon.count(f"modes_{c['f']}_close", gap <= 1e-9 * scale)
        if tol is None:
            mon.count("rough_pairs")
            mon.count("rough_far", gap > 0.1 * max(best, 0) + 1e-7 * scale)
        elif rs[(mode, "fast") if dec[mode, "fast"] < base else ("plain", "fast")].get("success") is False:
            # the worse of the two says that it ran out of iterations: judged by the share of such inputs
            mon.count("unfinished_pairs")
            mon.count("unfinished_far", gap > tol * max(best, 0) + 1e-7 * scale)
        elif c.get("default", True):
            mon.expect(gap <= tol * max(best, 0) + 1e-7 * scale, "mode_objective", lambda: f"{mode}: decrease {dec[mode, 'fast']}, uncompiled {base}; {d()}")
    mon.count("plain_pairs")
    gap = dec["plain", "plain"] - dec["compiled", "fast"]
    mon.count("plain_close", abs(gap) <= 1e-7 * scale)
    mon.count(f"plain_{c['f']}_n")
    mon.count(f"plain_{c['f']}_close", abs(gap) <= 1e-7 * scale)
    if tol is None:
        mon.count("rough_plain_far", abs(gap) > 0.1 * max(best, 0) + 1e-7 * scale)
    elif rs[("compiled", "fast") if gap > 0 else ("plain", "plain")].get("success") is False:
        mon.count("unfinished_plain_far", abs(gap) > tol * max(best, 0) + 1e-7 * scale)
    elif c.get("default", True):
        mon.expect(abs(gap) <= tol * max(best, 0) + 1e-7 * scale, "plain_objective", lambda: f"compiled {dec['compiled', 'fast']}, plain solver {dec['plain', 'plain']}; {d()}")
    return dec


def judge_bntr(c, rs, mon, d):
    mon.count("cube_models")
    mon.count("cg_methods", 3)
    scale = size_of(c)
    for k, r in rs.items():
        x = r["x"]
        mon.expect(x.shape == c["x"].shape and np.isfinite(x).all(), "finite", lambda: f"{k} {x}; {d()}")
        mon.expect((x >= c["lo"]).all() and (x <= c["up"]).all(), "within_bounds", lambda: f"{k} {x}; {d()}")
        mon.expect(decrease(c, x, c["x"]) >= -1e-9 * scale, "no_increase", lambda: f"{k} {x}, {decrease(c, x, c['x'])}; {d()}")
        mon.expect(abs(r["criterion"] - val(c["g"], c["H"], x)) <= 1e-9 * scale, "criterion", lambda: f"{k} {r}; {d()}")
    # on nonconvex models rounding may lead to another local solution: judged by the share of such inputs
    ev = np.linalg.eigvalsh(c["H"])
    convex = ev[0] >= -1e-12 * np.abs(ev).max()
    mon.count("cube_convex", convex)
    compare(c, rs, mon, d, c["x"], scale, 0.1 if convex else None)


def judge_gqtpar(c, rs, mon, d):
    mon.count("sphere_models")
    scale = size_of(c)
    for k, r in rs.items():
        x = r["x"]
        mon.expect(x.shape == c["x"].shape and np.isfinite(x).all(), "finite", lambda: f"{k} {x}; {d()}")
        mon.expect(np.linalg.norm(x) <= 1 + c["opt"]["k_easy"] + 1e-8, "within_sphere", lambda: f"{k} {np.linalg.norm(x)}; {d()}")
        if c["g"].any():
            o, _ = sphere_opt(c["g"], c["H"])
            if c["opt"]["maxiter"] >= 20:
                mon.expect(-val(c["g"], c["H"], x) >= 0.8 * -o - 1e-9 * scale, "sphere_quality", lambda: f"{k}: {val(c['g'], c['H'], x)} optimum {o}; {d()}")
    compare(dict(c, default=bool(c["g"].any())), rs, mon, d, np.zeros(c["n"]), scale, 0.2)


def judge_cg(c, rs, mon, d):
    scale = size_of(c, c["r"])
    dec = {}
    for k, r in rs.items():
        x = r["x"]
        mon.expect(np.isfinite(x).all() and np.linalg.norm(x) <= c["r"] * (1 + 1e-7), "within_radius", lambda: f"{k} {x}; {d()}")
        if "lo" in c:
            mon.expect((x >= c["lo"]).all() and (x <= c["up"]).all(), "trsbox_bounds", lambda: f"{k} {x}; {d()}")
        mon.expect(-val(c["g"], c["H"], x) >= -1e-9 * scale, "kernel_no_increase", lambda: f"{k} {x}; {d()}")
    compare(dict(c, default=c["kind"] not in ("ill",)), rs, mon, d, np.zeros(c["n"]), scale, 0.1)


judge_stcg = judge_cg


def judge_trsbox(c, rs, mon, d):
    mon.count("trsbox_kernel")
    judge_cg(c, rs, mon, d)


def judge_cluster(c, rs, mon, d):
    mon.count("cluster_calls")
    a = rs["plain", "fast"]
    for k, r in rs.items():
        mon.expect(all(np.array_equal(p, q) for p, q in zip(a, r)), "clusters_agree", lambda: f"{k}: {r} {a}; {d()}")
        labels, centers = r
        X = c["X"]
        ok = len(labels) == len(X) and (labels >= 0).all() and set(labels) == set(range(len(centers))) and len(set(centers)) == len(centers)
        ok = ok and all(labels[q] == i for i, q in enumerate(centers)) and all(np.linalg.norm(X[i] - X[centers[labels[i]]]) <= c["eps"] * (1 + 1e-9) for i in range(len(X)))
        mon.expect(ok, "clusters_valid", lambda: f"{k}: {r}; {d()}")


def judge_features(c, rs, mon, d):
    mon.count("feature_calls")
    n = c["n"]
    X = c["X"]
    want = np.column_stack([X] + [X[:, i] * X[:, j] for i in range(n) for j in range(i, n)])
    for k, r in rs.items():
        mon.expect(np.array_equal(r[0], want), "features", lambda: f"{k}: {r}; {d()}")
        mon.expect(r[1] == n * (n + 1) // 2 and r[2] == n * (n - 1) // 2, "term_counts", lambda: f"{k}: {r}; {d()}")


def judge_run(c, rs, mon, d):
    cfg = run_config(c)
    lo, up = (np.asarray(cfg["options"].get(q, s)) for q, s in (("lower_bounds", -np.inf), ("upper_bounds", np.inf)))
    for k, r in rs.items():
        mon.count("compiled_runs", k[0] != "plain")
        mon.expect((r["xs"] >= lo).all() and (r["xs"] <= up).all(), "run_bounds", lambda: f"{k}; {d()}")
        gap = abs(r["f"] - rs["plain", "fast"]["f"])
        mon.expect(gap <= 1e-5 * r["f0"] + 1e-12, "run_agrees", lambda: f"{k}: {r['f']} uncompiled {rs['plain', 'fast']['f']} from {r['f0']}; {d()}")


def shares(mon):
    """Bitwise or nearly equal objectives are the rule, not the exception."""
    m = core.Monitor()
    for group in PARTS:
        for i in range(len(_RES["plain", group])):
            judge_shard(group, i, {mode: _RES[mode, group][i] for mode in MODES}, m)
    a, b = m.counts["modes_close"] / max(1, m.counts["mode_pairs"]), m.counts["plain_close"] / max(1, m.counts["plain_pairs"])
    mon.sample(share_of_modes_close=a, share_of_plain_close=b, equal=m.counts["modes_equal"] / max(1, m.counts["mode_pairs"]))
    far, plain_far = m.counts["rough_far"] / max(1, m.counts["rough_pairs"]), 2 * m.counts["rough_plain_far"] / max(1, m.counts["rough_pairs"])
    mon.sample(rough_pairs=m.counts["rough_pairs"], rough_far=m.counts["rough_far"], rough_plain_far=m.counts["rough_plain_far"])
    mon.expect(far <= 0.01 or m.counts["rough_far"] <= 3, "nonconvex_usually_equal", f"{m.counts['rough_far']} of {m.counts['rough_pairs']}")
    mon.expect(plain_far <= 0.02 or m.counts["rough_plain_far"] <= 3, "nonconvex_plain_usually_equal", f"{m.counts['rough_plain_far']} of {m.counts['rough_pairs'] // 2}")
    n_pairs = m.counts["mode_pairs"]
    mon.sample(mode_pairs=n_pairs, unfinished=m.counts["unfinished_pairs"], unfinished_far=m.counts["unfinished_far"], unfinished_plain_far=m.counts["unfinished_plain_far"])
    mon.expect(m.counts["unfinished_far"] <= max(3, 0.01 * n_pairs), "unfinished_usually_equal", f"{m.counts['unfinished_far']} of {n_pairs}")
    mon.expect(m.counts["unfinished_plain_far"] <= max(3, 0.01 * n_pairs), "unfinished_plain_usually_equal", f"{m.counts['unfinished_plain_far']} of {n_pairs}")
    mon.expect(a >= 0.97, "modes_usually_close", f"share {a}")
    mon.expect(b >= 0.9, "plain_usually_close", f"share {b}")
