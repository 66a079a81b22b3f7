import numpy as np

from checks.c19 import explicit_defaults
from vk import gen, trace

ID = "C22"
RULE = ("iterations of runs with random options (all samplers, filters, fitters, batch sizes, stagnation options, noise, failures, bounds): recorded indices against the "
        "points, evaluations and regions seen at the component boundary, and the recorded model against a new fit of the raw criterion values of its points; "
        "non-trivial: at least three iterations with reused old points; distinct by configuration and the pattern of used, discarded and new points")
REQUIRED = {"iterations": 1500, "refits": 1200, "old_used": 1200, "old_discarded": 300, "new_points": 1000, "stagnation_iterations": 150, "dropped_sampled_points": 20,
            "noisy_iterations": 300, "reevaluated_points": 30, "residualized_refits": 80, "infinite_refits": 40, "cube_iterations": 300, "outside_search_region": 100,
            "plain_iterations": 400, "sampler_existing": 600}
ASSUMPTIONS = ["the fitters and aggregators as functions of the data are decided by C12 and C13", "sample filters supplied by the user are not covered"]
CASE_TIMEOUT = 90
CHUNK = 4


def plan(tier, seed):
    k = 1 if tier == "quick" else 14
    return [("traced", i) for i in range(200 * k)] + [("plain", i) for i in range(90 * k)] + [("finding", 0)]


def config(rng, idx):
    kw = {}
    if idx % 5 == 0:
        kw.update(noisy=True, kind=gen.pick(rng, "q", "nl", "rosen"), maxiter=12)
    if idx % 5 == 1:
        kw.update(fail=gen.pick(rng, ("inf_x", 0.15), ("nan_x", 0.15), ("exc_x", 0.15), ("elinf_x", 0.15), ("inf", 0.1)), noisy=False)
    if idx % 5 == 2:
        kw.update(functype="scalar", model_fitter="tranquilo", residualize=True)
    cfg = gen.make_config(rng, n_max=5, **kw)
    if idx % 3 == 0:
        o = cfg["options"]
        o["stagnation_options"] = dict(min_relative_step=float(gen.pick(rng, 0.3, 0.9, 2.0)), min_relative_step_keep=float(gen.pick(rng, 0.0, 0.6, 2.0)),
                                       sample_increment=int(gen.pick(rng, 1, 2, 3)), max_trials=int(gen.pick(rng, 1, 2, 4)), drop=bool(rng.random() < 0.7))
    if rng.random() < 0.3:
        cfg["options"]["search_radius_factor"] = float(gen.pick(rng, 1.0, 1.3))
    return cfg


def run_case(group, idx, rng, mon):
    if group == "finding":
        return finding(mon)
    cfg = config(rng, idx)
    if group == "plain":
        cfg["options"]["noisy"] = False
        cfg["options"].pop("noise_adaptation_options", None)
        if cfg["options"].get("acceptance_decider") in ("noisy", "naive_noisy"):
            cfg["options"]["acceptance_decider"] = None
        cfg["problem"]["noise"] = 0.0
        t = trace.run_plain(cfg)
    else:
        t = trace.run_traced(cfg, only=("sampler", "sample_filter", "acceptance_decider"))
    check_run(group, t, cfg, mon)


def evaluations(t, n_before=None):
    """Raw values per point (as bytes), in order, of the first evaluations only if requested."""
    m = trace.n_resid(t)
    out = {}
    seen = 0
    for b in t.batches:
        if b["raw"] is None:
            break
        for a, r in zip(b["args"], b["raw"]):
            if n_before is not None and seen >= n_before:
                return out
            seen += 1
            out.setdefault(a.tobytes(), []).append(trace.recorded_value(r, m))
    return out


def check_run(group, t, cfg, mon):
    from tranquilo.aggregate_models import get_aggregator
    from tranquilo.fit_models import get_fitter
    from tranquilo.options import get_default_aggregator

    o = cfg["options"]
    d = lambda: gen.describe(cfg)
    D = explicit_defaults(cfg)
    opt = lambda k: D[k] if o.get(k) is None else o[k]
    factor = opt("search_radius_factor")
    target = opt("sample_size")
    ft = cfg["functype"]
    mt = "quadratic" if ft == "scalar" else "linear"
    fitter = get_fitter(fitter=opt("model_fitter"), fitter_options=o.get("model_fitter_options"), model_type=mt, infinity_handling="relative", residualize=opt("residualize"))
    aggregator = get_aggregator(get_default_aggregator(functype=ft, model_type=mt))
    states = t.states
    h = t.history
    n_xs = h.get_n_xs()
    X = np.array(h.get_xs(np.arange(n_xs)), copy=True)
    its = t.iterations() if group == "traced" else None
    if its is not None:
        mon.expect(len(its) == len(states) - 1, "one_state_per_iteration", lambda: f"{len(its)} iterations, {len(states)} states; {d()}")
    all_evals = evaluations(t)
    s0 = states[0]
    mon.expect(list(map(int, np.atleast_1d(s0.model_indices))) == [0] and len(s0.old_indices_used) == 0 and len(s0.old_indices_discarded) == 0, "initial_state", d)
    # several points may be equal: evaluations of a point can then not be attributed
    keys = [X[i].tobytes() for i in range(n_xs)]
    dup = {k for k in set(keys) if keys.count(k) > 1} if len(set(keys)) < n_xs else set()
    pattern = []
    known = 1
    for k in range(1, len(states)):
        s, p = states[k], states[k - 1]
        mon.count("iterations")
        mon.count(group + "_iterations")
        ev_f = ev_a = samples = None
        if its is not None and k - 1 < len(its):
            it = its[k - 1]
            ev_f = it[0][1]
            ia = next((j for j, (q, _) in enumerate(it) if q == "accept"), None)
            if ia is None:
                mon.violate("no_acceptance_decision", d)
                continue
            ev_a = it[ia][1]
            samples = [e for q, e in it[:ia] if q == "sample"]
        where = lambda: f"iteration {k}; {d()}"
        model = np.asarray(s.model_indices).astype(int).reshape(-1)
        new = np.asarray(s.new_indices).astype(int).reshape(-1)
        used = np.asarray(s.old_indices_used).astype(int).reshape(-1)
        disc = np.asarray(s.old_indices_discarded).astype(int).reshape(-1)
        pattern.append((min(len(new), 3), min(len(used), 5), min(len(disc), 3)))
        mon.count("new_points", len(new))
        mon.count("old_used", len(used))
        mon.count("old_discarded", len(disc))
        # -- valid and distinct
        for name, a in (("model", model), ("new", new), ("used", used), ("discarded", disc)):
            mon.expect(len(set(a)) == len(a) and (len(a) == 0 or (a.min() >= 0 and a.max() < n_xs)), "valid_" + name, lambda: f"{a}; {where()}")
        # -- partition
        S = lambda a: set(a.tolist())
        mon.expect(not S(new) & S(used), "new_and_used", lambda: f"{S(new) & S(used)}; {where()}")
        mon.expect(S(model) == S(new) | S(used), "model_points", lambda: f"model {sorted(S(model))}, new {sorted(S(new))}, used {sorted(S(used))}; {where()}")
        mon.expect(not S(used) & S(disc), "used_and_discarded", lambda: f"{S(used) & S(disc)}; {where()}")
        mon.expect(not S(new) & S(disc), "new_and_discarded", lambda: f"{S(new) & S(disc)}; {where()}")
        # -- search region
        tr = s.trustregion
        mon.count("cube_iterations", tr.shape == "cube")
        r = factor * tr.radius
        dist = np.linalg.norm(X - np.asarray(tr.center), axis=1)
        # without events: only a lower bound of the number of points before the iteration
        known = max(known, int(p.candidate_index) + 1, int(p.index) + 1, *(np.asarray(p.new_indices).astype(int).reshape(-1) + 1))
        n_before = ev_f["n_xs"] if ev_f is not None else known
        surely_in = dist < r * (1 - 1e-9)
        surely_out = dist > r * (1 + 1e-9)
        old = S(used) | S(disc)
        mon.expect(not any(surely_out[i] for i in old), "old_outside_search_region", lambda: f"{[i for i in old if surely_out[i]]}; {where()}")
        missing = {i for i in range(n_before) if surely_in[i]} - old
        mon.expect(not missing, "old_in_region_unaccounted", lambda: f"{missing}; {where()}")
        mon.expect(all(i >= n_before for i in new), "new_existed_before", lambda: f"{new} with {n_before} points; {where()}")
        mon.expect(not old or not len(new) or max(old) < min(new), "old_before_new", where)
        mon.count("outside_search_region", int(surely_out[:n_before].any()))
        if ev_f is not None:
            mon.expect(all(i < n_before for i in old), "old_existed_before", lambda: f"{sorted(old)} with {n_before} points; {where()}")
        # -- size
        mon.expect(len(model) >= target, "target_sample_size", lambda: f"{len(model)} points, target {target}; {where()}")
        # -- center and candidate
        mon.expect(np.array_equal(X[int(s.candidate_index)], s.candidate_x), "candidate_index", where)
        mon.expect(np.array_equal(X[int(s.index)], s.x), "accepted_index", where)
        mon.expect(np.array_equal(tr.center, p.x), "center_is_previous_x", where)
        if ev_f is not None:
            mon.count("noisy_iterations", bool(o.get("noisy")))
            mon.expect(S(np.asarray(ev_f["indices"]).astype(int)) == old, "old_as_filtered", lambda: f"{sorted(old)}; {where()}")
            mon.expect(np.array_equal(X[np.asarray(ev_f["indices"]).astype(int)], ev_f["xs"]), "filter_points_match_indices", where)
            mon.expect((ev_f["counts"][sorted(old)] > 0).all(), "old_evaluated", where)
            mon.expect(S(used) <= S(np.asarray(ev_f["out_indices"]).astype(int)), "used_not_filtered_out", where)
            mon.expect((ev_a["counts"][model] > 0).all(), "model_points_evaluated", lambda: f"{ev_a['counts'][model]}; {where()}")
            per = ev_f["n_evals_per_point"]
            mon.expect((ev_a["counts"][model] >= per).all(), "evaluations_per_point", lambda: f"{ev_a['counts'][model]}, requested {per}; {where()}")
            mon.count("reevaluated_points", int((ev_a["counts"][sorted(old)] > ev_f["counts"][sorted(old)]).sum()))
            # -- newly sampled points
            got = [x for e in samples for x in e["xs"]]
            span = np.arange(n_before, n_before + len(got))
            ok = len(got) == 0 or (span[-1] < n_xs and np.array_equal(X[span], np.array(got)))
            mon.expect(ok, "sampled_points_recorded", lambda: f"{len(got)} sampled; {where()}")
            mon.expect(S(new) <= S(span), "new_were_sampled", lambda: f"{new} but sampled {span}; {where()}")
            # -- the sampler sees the points that the model reuses
            rows = lambda a: sorted(map(tuple, np.asarray(a, float).reshape(-1, X.shape[1]).tolist()))
            pos = n_before
            for j, e in enumerate(samples):
                ids = np.arange(pos, pos + len(e["xs"]))
                pos += len(e["xs"])
                if not len(ids) or e["existing"] is None:
                    mon.expect(not len(ids), "sampler_without_existing", where)
                    continue
                mon.count("sampler_existing")
                if j == 0:
                    mon.expect(rows(e["existing"]) == rows(ev_f["out_xs"]), "sampler_sees_reused", lambda: f"{rows(e['existing'])} instead of {rows(ev_f['out_xs'])}; {where()}")
                if j == len(samples) - 1 and j > 0:
                    rest = sorted(S(model) - S(ids))
                    mon.expect(rows(e["existing"]) == rows(X[rest]), "sampler_sees_model_points", lambda: f"{rows(e['existing'])} instead of {rows(X[rest])}; {where()}")
            mon.count("stagnation_iterations", len(samples) > 1)
            mon.count("dropped_sampled_points", len(S(span) - S(new)))
            if len(samples) == 1 and len(ev_f["out_indices"]) + len(got) == len(model):
                mon.count("nothing_dropped")
                mon.expect(S(model) == S(span) | S(np.asarray(ev_f["out_indices"]).astype(int)), "model_points_complete", where)
            mon.expect(ev_f["target_size"] == target, "filter_target", where)
        # -- the model
        if any(keys[i] in dup and any(not np.array_equal(all_evals[keys[i]][0], q) for q in all_evals[keys[i]]) for i in model):
            mon.count("skipped_duplicate_points")
            continue
        ev = all_evals if ev_a is None else evaluations(t, ev_a["n_fun"])
        try:
            raw = [ev[keys[i]] for i in model]
        except KeyError:
            mon.violate("model_point_never_evaluated", where)
            continue
        if ev_a is None and any(len(v) > 1 and not np.array_equal(v[0], q) for v in raw for q in v):
            mon.count("skipped_order")
            continue
        Y = np.array([np.mean(v, axis=0) for v in raw])
        mon.count("infinite_refits", not np.isfinite(Y).all())
        vm = fitter(X[model], Y, region=tr, old_model=p.vector_model, weights=None)
        sm = aggregator(vector_model=vm)
        mon.count("refits")
        mon.count("residualized_refits", bool(opt("residualize")))
        # rounding of averages is amplified by (nearly) coinciding points
        cond = design_condition((X[model] - np.asarray(tr.center)) / tr.radius, mt == "quadratic")
        mon.count("ill_conditioned_refits", cond > 1e7)
        mon.expect(same_model(sm, s.model, 1e-6 + 1e-13 * cond), "recorded_model", lambda: f"recorded {s.model}, from the points {sm}; {where()}")
    if len(states) > 3 and any(q[1] > 1 for q in pattern):
        mon.sig(gen.signature(cfg), tuple(sorted(set(pattern))))
    mon.sample(config=gen.describe(cfg), pattern=pattern[:15])


def design_condition(U, quad):
    n = U.shape[1]
    cols = [np.ones(len(U))] + [U[:, i] for i in range(n)]
    if quad:
        cols += [U[:, i] * U[:, j] for i in range(n) for j in range(i, n)]
    s = np.linalg.svd(np.column_stack(cols), compute_uv=False)
    return s[0] / max(s[-1], s[0] * 1e-18)


def same_model(a, b, tol):
    """Fits in a different order of the points differ by rounding only."""
    ga, gb = np.asarray(a.linear_terms, float), np.asarray(b.linear_terms, float)
    ok = np.allclose(np.asarray(a.shift, float), np.asarray(b.shift, float), rtol=1e-12, atol=0) and np.allclose(np.asarray(a.scale, float), np.asarray(b.scale, float), rtol=1e-12, atol=0)
    parts = [np.atleast_1d(float(a.intercept)), ga.ravel()]
    parts_b = [np.atleast_1d(float(b.intercept)), gb.ravel()]
    if (a.square_terms is None) != (b.square_terms is None):
        return False
    if a.square_terms is not None:
        parts.append(np.asarray(a.square_terms, float).ravel())
        parts_b.append(np.asarray(b.square_terms, float).ravel())
    va, vb = np.concatenate(parts), np.concatenate(parts_b)
    if va.shape != vb.shape:
        return False
    scale = max(np.nanmax(np.abs(va), initial=0.0), 1e-300)
    return bool(ok and np.all((np.abs(va - vb) <= tol * scale) | (va == vb) | (np.isnan(va) & np.isnan(vb))))


def finding(mon):
    """Recorded vector models are those of the start, not of the iteration."""
    cfg = dict(functype="least_squares", x0=np.array([1.0, 2.0]), bounds="none",
               problem=dict(seed=1, n=2, m=3, kind="q", dist=0.5, resid=0.5, offset=0.0, noise=0.0),
               options=dict(seed=1, stopping_max_iterations=4, disable_convergence=True))
    t = trace.run_plain(cfg)
    stale = [k for k in range(1, len(t.states)) if not np.any(t.states[k].vector_model.linear_terms) and np.any(t.states[k].model.linear_terms)]
    mon.expect(not stale, "stale_vector_model", lambda: f"vector_model of states {stale} is the initial model, not the one fitted in the iteration")
