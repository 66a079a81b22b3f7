import numpy as np

from checks import models
from checks.regions import make_region
from vk import gen, trace

ID = "C13"
RULE = ("(a) random vector models (linear and quadratic, zero/large/small terms, 1-8 residuals, 1-6 parameters) aggregated by "
        "all four rules and compared pointwise with the aggregated predictions of the vector model; (b) aggregation inside of "
        "real runs, observed through recorded states; distinct by (rule, n, residuals, order)")
REQUIRED = {"identity": 500, "sum": 500, "least_squares": 500, "information": 500, "points": 8000}
ASSUMPTIONS = ["the Hessian for information equality is minus one half of the outer product of the scores, as documented in tests",
               "tolerance 1e-11 of the summed magnitudes"]
CASE_TIMEOUT = 60


def plan(tier, seed):
    k = 1 if tier == "quick" else 60
    return [("direct", i) for i in range(200 * k)] + [("run", i) for i in range(24 * min(k, 20))]


def check(rule, vm, sm, rng, mon, pre=""):
    from tranquilo.models import ScalarModel

    a, g, h = models.parts(vm)
    m, n = g.shape
    mon.expect(isinstance(sm, ScalarModel), pre + "type")
    mon.expect(np.ndim(sm.intercept) == 0 and np.shape(sm.linear_terms) == (n,) and np.shape(sm.square_terms) == (n, n), pre + "shapes",
               lambda: f"{np.shape(sm.intercept)} {np.shape(sm.linear_terms)} {np.shape(sm.square_terms)}")
    u = rng.uniform(-2, 2, size=(5, n))
    if n > 1 and not pre and rng.random() < 0.5:
        # parameters of very different importance: far away in the unimportant ones
        u = u / np.maximum(np.abs(g).max(axis=0), 1e-300) if (np.abs(g).max(axis=0) > 0).all() else u
    val, mag = models.evaluate(vm, u)
    got, _ = models.evaluate(sm, u)
    got = got[:, 0]
    mon.count("points", 5)
    d = lambda: f"rule {rule}, n {n}, residuals {m}: {got} from predictions {val}"
    if rule == "identity":
        mon.expect((np.abs(got - val[:, 0]) <= 1e-11 * mag[:, 0]).all(), pre + "identity", d)
    elif rule == "sum":
        mon.expect((np.abs(got - val.sum(axis=1)) <= 1e-11 * mag.sum(axis=1)).all(), pre + "sum", d)
    elif rule == "least_squares":
        mon.expect((np.abs(got - (val**2).sum(axis=1)) <= 1e-11 * (mag**2).sum(axis=1)).all(), pre + "least_squares", d)
    else:
        mon.expect(abs(sm.intercept - a.sum()) <= 1e-11 * np.abs(a).sum(), pre + "info_value", d)
        mon.expect((np.abs(sm.linear_terms - g.sum(axis=0)) <= 1e-11 * np.abs(g).sum(axis=0)).all(), pre + "info_gradient", d)
        want = np.zeros((n, n))
        for r in range(m):
            want -= np.outer(g[r], g[r]) / 2
        mon.expect((np.abs(sm.square_terms - want) <= 1e-11 * sum(np.outer(np.abs(q), np.abs(q)) for q in g)).all(), pre + "info_hessian", d)
    for f in ("shift", "scale"):
        x, y = getattr(vm, f), getattr(sm, f)
        mon.expect((x is None and y is None) or np.array_equal(np.asarray(x), np.asarray(y)), pre + "region_info", lambda: f"{f}: {y} instead of {x}")


def run_case(group, idx, rng, mon):
    if group == "run":
        return loop(rng, mon)
    from tranquilo.aggregate_models import get_aggregator

    names = dict(identity="identity", sum="sum", least_squares="least_squares_linear", information="information_equality_linear")
    for _ in range(20):
        rule = gen.pick(rng, *names)
        n = int(rng.integers(1, 7))
        m = 1 if rule == "identity" else int(rng.integers(1, 9))
        quad = rule == "sum" or (rule == "identity" and rng.random() < 0.6)
        region, _k = make_region(rng, n=n)
        vm = models.vector_model(rng, n, m, quad, region.effective_radius, region.effective_center)
        if rng.random() < 0.3:
            mon.count("graded")
            vm = vm._replace(linear_terms=vm.linear_terms * 10.0 ** rng.uniform(-7, 0, size=n))
        before = models.copy_of(vm)
        sm = get_aggregator(names[rule])(vm)
        mon.count(rule)
        mon.expect(models.same(vm, before), "input_modified")
        check(rule, vm, sm, rng, mon)
        mon.sig(rule, n, m, quad)
    mon.sample(rule=rule, n=n, residuals=m)


def loop(rng, mon):
    """The scalar model of every recorded iteration against refits of its sample."""
    ft = gen.pick(rng, "scalar", "least_squares", "likelihood")
    cfg = gen.make_config(rng, functype=ft, noisy=False, kind=gen.pick(rng, "q", "nl", "rosen"))
    # without residualization a fit only depends on the sample
    cfg["options"]["residualize"] = False
    from tranquilo.aggregate_models import get_aggregator  # noqa: F401

    seen = []
    from tranquilo import process_arguments as pa

    orig = getattr(pa, "get_aggregator", None)
    if orig is None:
        mon.count("runs_unobservable")
        return

    def spy(aggregator):
        inner = orig(aggregator)

        def f(vector_model):
            before = models.copy_of(vector_model)
            out = inner(vector_model)
            seen.append((aggregator, before, vector_model, out))
            return out

        return f

    pa.get_aggregator = spy
    try:
        t = trace.run_plain(cfg)
    finally:
        pa.get_aggregator = orig
    rules = {"identity": "identity", "sum": "sum", "least_squares_linear": "least_squares", "information_equality_linear": "information"}
    for agg, before, vm, sm in seen:
        rule = rules[agg]
        want = {"scalar": ("identity",), "least_squares": ("least_squares",), "likelihood": ("sum", "information")}[ft]
        mon.expect(rule in want, "rule_of_functype", lambda: f"{agg} for {ft}")
        a, g, h = models.parts(vm)
        mon.count("run_models")
        mon.expect(models.same(before, vm), "run_input_modified")
        if np.isfinite(a).all() and np.isfinite(g).all() and np.isfinite(h).all() and max(np.abs(a).max(), np.abs(g).max()) < 1e100:
            check(rule, vm, sm, rng, mon, "run_")
    for s in t.states:
        if s.model is not None:
            mon.expect(any(models.same(s.model, o) for _, _, _, o in seen), "model_of_state", "the model of a state does not come from the aggregator")
