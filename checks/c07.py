import copy
import json
import os
import random
import subprocess
import sys

import numpy as np

from vk import core, gen, trace

ID = "C07"
RULE = ("pairs of runs with equal inputs, separated by other runs, reseeded or consumed global random state, different "
        "core counts, different import-time hash seeds (fresh processes) or a criterion that overwrites its argument; "
        "non-trivial: the run made at least two iterations; distinct by configuration signature and perturbation")
REQUIRED = {"pairs": 150, "compared_points": 5000, "fresh_process_pairs": 6, "inputs_checked": 150, "seed_matters": 40,
            "global_rng_checked": 300}
ASSUMPTIONS = ["the criterion itself is deterministic given the sequence of calls"]
CASE_TIMEOUT = 90
TIMEOUT_IS_VIOLATION = True
PERT = ("nothing", "other_run", "global_rng", "mutating_criterion", "cores", "container", "same_objects")


def plan(tier, seed):
    k = 1 if tier == "quick" else 12
    return [("pair", i) for i in range(280 * k)] + [("solver", i) for i in range(60 * k)] + [("fresh", i) for i in range(10 * k)]


def digest(t):
    r = t.res
    st = r["states"]
    return dict(xs=[x for x, _ in t.evals], sx=r["solution_x"], sc=r["solution_criterion"], msg=r["message"],
                idx=[(int(s.index), int(s.candidate_index), bool(s.accepted)) for s in st],
                num=[(s.fval, s.rho, s.trustregion.radius) for s in st],
                ind=[(list(map(int, s.model_indices)), list(map(int, s.new_indices)),
                      list(map(int, s.old_indices_used)), list(map(int, s.old_indices_discarded))) for s in st],
                batches=[b["n"] for b in t.batches])


def differs(a, b):
    for k in a:
        x, y = a[k], b[k]
        if k == "xs":
            if len(x) != len(y):
                return f"number of evaluations {len(x)} vs {len(y)}"
            for i, (p, q) in enumerate(zip(x, y)):
                if p.tobytes() != q.tobytes():
                    return f"evaluation {i} of {len(x)} at {p} vs {q}"
        elif not _eq(x, y):
            return f"{k}: {str(x)[:150]} vs {str(y)[:150]}"
    return None


def _eq(x, y):
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(_eq(p, q) for p, q in zip(x, y))
    if isinstance(x, np.ndarray) or isinstance(x, (float, np.floating)):
        return np.array_equal(np.asarray(x, float), np.asarray(y, float), equal_nan=True)
    return x == y


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate())


def make(group, idx, rng):
    kw = {}
    if group == "solver":
        kw = dict(n_max=3, maxiter=6, noisy=False)
        if idx % 2:
            kw.update(bounds=gen.pick(rng, "tight", "edge", "corner"), cube_subsolver=("bntr", "fallback_cube", "fallback_multistart")[idx % 3])
        else:
            kw.update(sphere_subsolver=("gqtpar", "fallback_reparametrized", "fallback_norm_constraint")[idx % 3])
    if idx % 4 == 0 and group != "solver":
        kw["fail"] = (gen.pick(rng, "exc_x", "elinf_x", "nan_x"), 0.2)
    cfg = gen.make_config(rng, **kw)
    if rng.random() < 0.3:
        cfg["options"]["sampler_options"] = dict(cfg["options"].get("sampler_options") or {},
                                                 algo_options={"maxiter": int(rng.integers(2, 9))}
                                                 if rng.random() < 0.5 else {"ftol": 1e-6})
    return cfg


def run_case(group, idx, rng, mon):
    if group == "fresh":
        return fresh(idx, rng, mon)
    cfg = make(group, idx, rng)
    pert = PERT[idx % len(PERT)]
    if pert == "cores":
        cfg["options"]["batch_size"] = int(rng.integers(2, 7))
    frozen = copy.deepcopy(cfg)
    s0 = rng_state()
    t1 = trace.run_plain(cfg)
    mon.expect(rng_state() == s0, "global_rng", lambda: f"the run changed the global random state: {gen.describe(cfg)}")
    mon.count("global_rng_checked")
    d = lambda: gen.describe(cfg)

    def same_inputs():
        mon.count("inputs_checked")
        mon.expect(np.array_equal(cfg["x0"], frozen["x0"]), "x_changed", "the start vector was modified")
        for k, v in frozen["options"].items():
            w = cfg["options"][k]
            ok = np.array_equal(v, w) if isinstance(v, np.ndarray) else v == w
            mon.expect(ok, "input_changed", lambda: f"option {k}: {v} became {w}; {d()}")

    same_inputs()
    cfg2 = frozen if pert not in ("same_objects",) else cfg
    cfg2 = copy.deepcopy(cfg2) if pert != "same_objects" else cfg2
    extra = None
    if pert == "other_run":
        trace.run_plain(gen.make_config(np.random.default_rng(int(rng.integers(2**31))), maxfun=40, maxiter=4))
    elif pert == "global_rng":
        np.random.seed(int(rng.integers(2**31)))
        np.random.normal(size=int(rng.integers(1, 700)))
        random.seed(5)
    elif pert == "mutating_criterion":
        cfg2["problem"]["mutate"] = True
    elif pert == "cores":
        extra = dict(n_cores=int(rng.integers(2, cfg["options"]["batch_size"] + 1)))
    elif pert == "container":
        cfg2["x0"] = np.asarray(cfg2["x0"]).tolist() if rng.random() < 0.5 else tuple(np.asarray(cfg2["x0"]))
    s0 = rng_state()
    t2 = trace.run_plain(cfg2, extra=extra)
    mon.expect(rng_state() == s0, "global_rng", lambda: f"the run changed the global random state: {d()}")
    mon.count("global_rng_checked")
    if pert == "same_objects":
        same_inputs()
    df = differs(digest(t1), digest(t2))
    mon.expect(df is None, "different:" + pert, lambda: f"{df}; {d()}")
    mon.count("pairs")
    mon.count("compared_points", len(t1.evals))
    # the seed is actually used
    if idx % 3 == 0 and len(t1.states) > 2 and cfg["options"].get("sampler") != "nothing":
        cfg3 = copy.deepcopy(frozen)
        cfg3["options"]["seed"] += 1
        t3 = trace.run_plain(cfg3)
        if differs(digest(t1), digest(t3)):
            mon.count("seed_matters")
    if len(t1.states) > 2:
        mon.sig(gen.signature(cfg), pert)
    mon.sample(config=gen.describe(cfg), perturbation=pert, n_evals=len(t1.evals))


def fresh(idx, rng, mon):
    cfg = make("pair", idx, rng)
    t1 = trace.run_plain(copy.deepcopy(cfg))
    a = json.dumps(core.jsonable(digest(t1)))
    code = ("import sys,json,pickle;sys.path.insert(0,%r);from vk import core;core.setup_env();"
            "from vk import trace;from checks.c07 import digest;cfg=pickle.load(sys.stdin.buffer);"
            "print(json.dumps(core.jsonable(digest(trace.run_plain(cfg)))))" % str(core.VERIF))
    import pickle

    env = dict(os.environ, PYTHONHASHSEED=str(1 + idx))
    p = subprocess.run([sys.executable, "-c", code], input=pickle.dumps(cfg), capture_output=True, env=env, timeout=300)
    if p.returncode:
        raise RuntimeError(p.stderr.decode()[-800:])
    b = p.stdout.decode().strip().splitlines()[-1]
    mon.expect(a == b, "different:fresh_process", lambda: f"run differs in a fresh process: {gen.describe(cfg)}")
    mon.count("fresh_process_pairs")
    mon.count("compared_points", len(t1.evals))
    mon.sig(gen.signature(cfg), "fresh")
