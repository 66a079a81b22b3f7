import numpy as np

from vk import gen, trace

ID = "C09"
RULE = ("random noisy (and deterministic) runs x evaluation count options; evaluation counts of every point are "
        "snapshotted at the start of the iteration, before and after acceptance, and reconciled with the roles of the "
        "points; non-trivial: run with additional evaluations of existing points")
REQUIRED = {"iterations": 800, "additional_evaluations": 200, "current_point_evaluations": 50, "candidates": 500,
            "n_per_point_above_one": 200, "start_evaluated_repeatedly": 50, "deterministic_points": 1000,
            "averaged_models": 200, "accepted_averages": 100, "n_per_point_changes": 20}
ASSUMPTIONS = ["start evaluations are rounded up to a multiple of the batch size (documented in C18)"]
CASE_TIMEOUT = 60
TIMEOUT_IS_VIOLATION = True


def plan(tier, seed):
    k = 1 if tier == "quick" else 12
    return [("noisy", i) for i in range(240 * k)] + [("det", i) for i in range(100 * k)] + [("faults", i) for i in range(30 * k)]


def run_case(group, idx, rng, mon):
    kw = {}
    noisy = group != "det"
    if noisy:
        mn = int(gen.pick(rng, 1, 1, 2, 3))
        kw = dict(noisy=True, kind=gen.pick(rng, "q", "nl", "const", "rosen"), noise=float(gen.pick(rng, 0.01, 0.3, 2.0)),
                  noise_adaptation_options=dict(rho_noise_n_draws=4, min_n_evals=mn, max_n_evals=mn + int(gen.pick(rng, 0, 2, 6)),
                                                low_rho=float(gen.pick(rng, 0.1, 0.5))))
        if group == "faults":
            kw["fail"] = ("mix", 0.2)
        if idx % 2:
            lo = int(rng.integers(1, 6))
            kw["acceptance_decider_options"] = dict(n_min=lo, n_max=lo + int(rng.integers(0, 12)),
                                                    power_level=float(gen.pick(rng, 0.5, 0.8, 0.95)))
    cfg = gen.make_config(rng, maxiter=12, **{**kw, "noisy": noisy})
    if not noisy:
        cfg["options"].pop("n_evals_at_start", None) if idx % 2 else None
    t = trace.run_traced(cfg)
    o = cfg["options"]
    d = lambda: gen.describe(cfg)
    its, st, h = t.iterations(), t.states, t.history
    bs = o.get("batch_size") or 1
    nas = o.get("n_evals_at_start") or (5 if noisy else 1)
    want = int(-(-nas // bs) * bs) if nas > 1 else 1
    mon.expect(t.batches[0]["n"] == want and all(np.array_equal(a, cfg["x0"]) for a in t.batches[0]["args"]),
               "start_count", lambda: f"{t.batches[0]['n']} evaluations of the start point instead of {want}; {d()}")
    if want > 1:
        mon.count("start_evaluated_repeatedly")
    acc_o = dict(n_min=4, n_max=50)
    acc_o.update({k: v for k, v in (o.get("acceptance_decider_options") or {}).items() if k in acc_o})
    # reported values are averages over all evaluations of the point
    f0 = np.asarray(h.get_fvals(0), float)[:want]
    mon.expect(trace.close(st[0].fval, f0.mean(), rtol=1e-11), "start_average",
               lambda: f"start value {st[0].fval} is not the average {f0.mean()} of {want} evaluations; {d()}")
    extra_total = 0
    prev_counts = np.array([want])
    prev_npp = None
    for k, it in enumerate(its):
        f = it[0][1]
        acc = [e for q, e in it if q == "accept"]
        if not mon.expect(len(acc) == 1, "one_acceptance"):
            return
        acc = acc[0]
        mon.count("iterations")
        s = st[k + 1]
        npp = int(s.n_evals_per_point)
        mon.expect(npp == int(f["n_evals_per_point"]), "npp_recorded")
        if prev_npp is not None and prev_npp != npp:
            mon.count("n_per_point_changes")
        prev_npp = npp
        if npp > 1:
            mon.count("n_per_point_above_one")
        old, pre, post = f["counts"], acc["counts"], acc["counts_after"]
        mon.expect(np.array_equal(old, prev_counts), "unexplained_between_iterations",
                   lambda: f"evaluations made outside of iterations; {d()}")
        prev_counts = post
        n_old = len(old)
        used = set(int(i) for i in f["out_indices"])
        delta = pre[:n_old] - old
        for i in range(n_old):
            w = max(0, npp - int(old[i])) if i in used else 0
            extra_total += int(w)
            mon.expect(delta[i] == w, "existing_point_count",
                       lambda: f"iteration {k}: point {i} had {old[i]} evaluations, got {delta[i]} more, needed {w} (n_evals_per_point {npp}); {d()}")
        for i in range(n_old, len(pre)):
            mon.expect(pre[i] == npp, "new_point_count", lambda: f"iteration {k}: new point {i} evaluated {pre[i]} times instead of {npp}; {d()}")
        mi = np.asarray(s.model_indices, int)
        mon.expect((pre[mi] >= npp).all(), "model_point_count",
                   lambda: f"iteration {k}: model points with fewer than {npp} evaluations: {pre[mi]}; {d()}")
        # acceptance
        cur = int(acc["state"].index)
        n_pre = len(pre)
        new = post[n_pre:]
        dcur = np.zeros(n_pre, int)
        dcur[:] = post[:n_pre] - pre
        others = np.delete(dcur, cur)
        mon.expect((others == 0).all(), "acceptance_evaluates_others",
                   lambda: f"iteration {k}: acceptance re-evaluated points other than the current one; {d()}")
        name = acc["name"]
        mon.count("candidates")
        if s.accepted:
            i = int(s.index)
            fi = np.asarray(h.get_fvals(i), float)[: int(post[i])]
            mon.count("accepted_averages", int(len(fi) > 1))
            mon.expect(trace.close(s.fval, fi.mean(), rtol=1e-9, atol=1e-12 * np.abs(fi).max()), "accepted_average",
                       lambda: f"iteration {k}: accepted value {s.fval} is not the average of {fi[:8]}; {d()}")
        if name == "noisy":
            mon.expect(len(new) == 1 and acc_o["n_min"] <= new[0] <= acc_o["n_max"], "candidate_count",
                       lambda: f"iteration {k}: candidate evaluated {new} times, limits {acc_o}; {d()}")
            mon.expect(0 <= dcur[cur] <= max(0, acc_o["n_max"] - pre[cur]), "current_count",
                       lambda: f"iteration {k}: current point had {pre[cur]}, got {dcur[cur]} more, limits {acc_o}; {d()}")
            mon.count("current_point_evaluations", int(dcur[cur] > 0))
            mon.expect(int(s.n_evals_acceptance) == int(new[0]), "n_evals_acceptance")
        else:
            mon.expect(dcur[cur] == 0, "current_not_needed")
            w = 10 if name == "naive_noisy" else 1
            mon.expect((new == w).all() and (len(new) == 1 or name == "classic_line_search"), "candidate_count_fixed",
                       lambda: f"iteration {k}: {name} evaluated {new}; {d()}")
    final = np.array([len(v) for v in h.get_fvals(np.arange(h.get_n_xs())).values()])
    mon.expect(np.array_equal(final, prev_counts) and final.sum() == len(t.evals), "final_counts")
    if not noisy and nas == 1:
        mon.count("deterministic_points", len(final))
        mon.expect((final == 1).all(), "deterministic_once", lambda: f"a point was evaluated repeatedly; {d()}")
    if not noisy and nas == 1:
        return
    mon.count("additional_evaluations", extra_total)
    # averages: what was fitted is the mean over all evaluations of each point, clipped
    if noisy and not o.get("residualize"):
        for k, it in enumerate(its):
            clips = [e for q, e in it if q == "clip"]
            acc = [e for q, e in it if q == "accept"][0]
            fits = [e for e in clips]
            before = [i for i, (q, e) in enumerate(it) if q == "accept"][0]
            pre_clips = [e for q, e in it[:before] if q == "clip"]
            if not pre_clips:
                continue
            y = pre_clips[-1]["before"]
            mi = np.asarray(st[k + 1].model_indices, int)
            pre = acc["counts"]
            mean = np.array([np.asarray(h.get_fvecs(int(i)))[: pre[i]].mean(axis=0) for i in mi])
            mon.expect(trace.close(y, mean, rtol=1e-9, atol=1e-12 * max(1.0, np.abs(mean[np.isfinite(mean)]).max(initial=0))),
                       "averaged", lambda: f"iteration {k}: fitted values are not averages over all evaluations; {d()}")
            mon.count("averaged_models")
    if extra_total:
        mon.sig(gen.signature(cfg), bs, nas)
    mon.sample(config=d(), n_evals_per_point=[int(s.n_evals_per_point) for s in st[1:]], final_counts=final.tolist()[:60])
