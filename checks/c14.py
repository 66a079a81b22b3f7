import numpy as np

from checks import models
from checks.regions import make_region
from vk import gen

ID = "C14"
RULE = ("random scalar and vector models (linear, quadratic, zero terms, magnitudes over 9 decades) on random regions "
        "(spheres, cut cubes with different side lengths); moves, moves back, sums, single and stacked predictions; "
        "non-trivial: every model; distinct by (model type, order, n, residuals, shapes of both regions)")
REQUIRED = {"models": 3000, "moved": 3000, "moved_quad_cube": 300, "moved_linear_scalar": 300, "added": 1500, "added_after_move": 1500, "points": 20000}
ASSUMPTIONS = ["moves between regions whose centers are at most 10 radii apart and whose side lengths differ by at most 1e3; "
               "tolerance 1e-9 of the summed magnitudes"]
CASE_TIMEOUT = 60


def plan(tier, seed):
    k = 1 if tier == "quick" else 60
    return [("direct", i) for i in range(250 * k)] + [("run", i) for i in range(16 * min(k, 20))]


def target(rng, region, n):
    """A region near the given one."""
    from tranquilo.bounds import Bounds
    from tranquilo.region import Region

    s = np.broadcast_to(np.asarray(region.effective_radius, float), (n,))
    c = np.asarray(region.effective_center) + s * rng.uniform(-1, 1, n) * gen.pick(rng, 0.0, 1.0, 5.0)
    if rng.random() < 0.3 and (np.abs(region.effective_center) <= 10 * s).all():
        # some coordinates become much smaller than before
        c = np.where(rng.random(n) < 0.5, s * gen.pick(rng, 0.0, 1e-9, -1e-13), c)
    radius = float(s.max() * 10.0 ** rng.uniform(-1.5, 1.5))
    special = rng.random()
    if special < 0.1 and region.shape == "sphere":
        radius = float(region.radius)  # shifted only
    elif special < 0.2:
        return region  # not moved at all
    elif special < 0.3:
        return region._replace(radius=float(region.radius) * 0.5) if hasattr(region, "_replace") else region
    kind = gen.pick(rng, "none", "cut", "cut", "far")
    if kind == "none":
        return Region(center=c, radius=radius)
    f = (0.02, 1.0) if kind == "cut" else (3, 30)
    return Region(center=c, radius=radius, bounds=Bounds(c - radius * rng.uniform(*f, n), c + radius * rng.uniform(*f, n)))


def run_case(group, idx, rng, mon):
    if group == "run":
        return loop(idx, rng, mon)
    from tranquilo.models import add_models, move_model

    for _ in range(20):
        n = int(rng.integers(1, 7))
        m = int(gen.pick(rng, 1, 1, 2, 3, 6))
        region, _k = make_region(rng, n=n, **(dict(decades=(8, 16)) if rng.random() < 0.15 else {}))
        s = np.asarray(region.effective_radius, float)
        if (s <= 1e-7 * np.abs(region.center).max()).any() or s.min() < 1e-3 * s.max():
            continue
        quad = bool(rng.random() < 0.6)
        vec = bool(rng.random() < 0.6)
        make = (lambda q=quad: models.vector_model(rng, n, m, q, region.effective_radius, region.effective_center)) if vec else (
            lambda q=quad: models.scalar_model(rng, n, q, region.effective_radius, region.effective_center))
        a = make()
        mm = m if vec else 1
        mon.count("models")
        # predictions
        u = rng.uniform(-1.5, 1.5, size=(int(rng.integers(1, 6)), n))
        uc, ac = u.copy(), models.copy_of(a)
        val, mag = models.evaluate(a, u)
        y = a.predict(u)
        mon.count("points", len(u))
        mon.expect(np.shape(y) == ((len(u), m) if vec else (len(u),)), "shape_stacked", lambda: f"{np.shape(y)} for {np.shape(u)}, m={m}")
        mon.expect((np.abs(np.reshape(y, (len(u), mm)) - val) <= 1e-11 * mag).all(), "predict", lambda: f"{y} instead of {val}")
        for i in range(len(u)):
            y1 = a.predict(u[i])
            mon.expect(np.shape(y1) == ((m,) if vec else ()), "shape_single", lambda: f"{np.shape(y1)}")
            mon.expect((np.abs(np.ravel(y1) - val[i]) <= 1e-11 * mag[i]).all(), "single_vs_stacked")
        mon.expect(np.array_equal(u, uc) and models.same(a, ac), "predict_modifies_input")
        # adding
        same_order = rng.random() < 0.6
        b = make() if same_order else make(not quad)
        bc = models.copy_of(b)
        c = add_models(a, b)
        mon.count("added")
        vb, mb = models.evaluate(b, u)
        vc, _ = models.evaluate(c, u)
        mon.expect((np.abs(vc - val - vb) <= 1e-11 * (mag + mb)).all(), "add", lambda: f"sum of models predicts {vc} instead of {val + vb}")
        mon.expect(np.array_equal(c.shift, a.shift) and np.array_equal(c.scale, a.scale), "add_region")
        mon.expect(models.same(a, ac) and models.same(b, bc), "add_modifies_input")
        # moving
        new = target(rng, region, n)
        new_c, new_s = np.asarray(new.effective_center), np.asarray(new.effective_radius, float)
        if (new_s < 1e-7 * np.abs(new_c).max()).any():
            continue
        p = move_model(a, new)
        mon.count("moved")
        mon.count("moved_quad_cube", bool(quad and new.shape == "cube" and n > 1))
        mon.count("moved_linear_scalar", not quad and not vec)
        mon.expect(models.same(a, ac), "move_modifies_input")
        mon.expect(type(p) is type(a) and np.shape(p.linear_terms) == np.shape(a.linear_terms)
                   and (p.square_terms is None) == (a.square_terms is None), "move_type")
        # rounding of the coordinates limits how well shift and scale are represented
        acc = 1e-9
        mon.expect(np.allclose(p.shift, new_c, rtol=1e-11, atol=1e-11 * float(np.max(s) + np.max(new_s) + np.abs(region.center).max())), "move_shift")
        mon.expect(np.allclose(np.broadcast_to(p.scale, (n,)), np.broadcast_to(new_s, (n,)), rtol=1e-11, atol=0), "move_scale",
                   lambda: f"scale {p.scale} instead of {new_s}")
        v = rng.uniform(-1.5, 1.5, size=(4, n))
        x = new_c + v * new_s
        want, wmag = models.evaluate_x(a, x)
        _, cmag = models.evaluate_x(a, new_c)
        got, gmag = models.evaluate(p, v)
        mon.count("points", 4)
        # coordinates are rounded, too: slope at the points times the rounding error in units of the region
        _, lin, sq = models.parts(a)
        ux = np.abs((x - np.asarray(a.shift)) / s)
        du = 1e-15 * (np.abs(x) + np.abs(new_c) + np.abs(np.asarray(a.shift))) / s
        slope = np.einsum("ri,ki->kr", np.abs(lin), du) + np.einsum("rij,kj,ki->kr", np.abs(sq), ux + du, du)
        tol = acc * (wmag + gmag + cmag) + 4 * slope
        mon.expect((np.abs(got - want) <= tol).all(), "move",
                   lambda: f"moved model predicts {got} instead of {want} ({type(a).__name__}, quadratic {quad}, {region.shape}->{new.shape})")
        # a moved model can be added to one that belongs to the new region
        fresh = (models.vector_model(rng, n, m, quad, new.effective_radius, new.effective_center) if vec
                 else models.scalar_model(rng, n, quad, new.effective_radius, new.effective_center))
        both, _ = models.evaluate(add_models(p, fresh), v)
        own, omag = models.evaluate(fresh, v)
        mon.count("added_after_move")
        mon.expect((np.abs(both - got - own) <= 1e-11 * (gmag + omag)).all(), "add_after_move", lambda: f"{both} instead of {got + own}")
        q = move_model(p, region)
        back, bmag = models.evaluate(q, u)
        _, c2 = models.evaluate_x(p, region.effective_center)
        mon.expect((np.abs(back - val) <= acc * 10 * (mag + bmag + gmag.max(axis=0) + wmag.max(axis=0) + c2) + 40 * slope.max(axis=0)).all(), "move_back",
                   lambda: f"{back} instead of {val}")
        mon.sig(vec, quad, n, m, region.shape, new.shape)
    mon.sample(n=n, residuals=m, quadratic=quad, vector=vec, center=region.center, radius=region.radius, new_center=new.center, new_radius=new.radius)


def loop(idx, rng, mon):
    """Moves inside of real runs (residualized fits), observed through the model function."""
    from tranquilo import fit_models
    from vk import trace

    calls = []
    orig = getattr(fit_models, "move_model", None)
    if orig is None:
        mon.count("run_moves_unobservable")
        return

    def spy(model, new_region):
        before = models.copy_of(model)
        out = orig(model, new_region)
        calls.append((before, model, new_region, out))
        return out

    cfg = gen.make_config(rng, noisy=False, kind=gen.pick(rng, "q", "nl", "rosen"), residualize=True,
                          functype=gen.pick(rng, "scalar", "least_squares", "likelihood"), bounds=gen.pick(rng, "none", "tight", "mixed", "corner"))
    fit_models.move_model = spy
    try:
        trace.run_plain(cfg)
    finally:
        fit_models.move_model = orig
    for before, model, region, out in calls:
        mon.count("run_moves")
        mon.expect(models.same(before, model), "run_move_modifies_input")
        n = np.shape(before.linear_terms)[-1]
        v = rng.uniform(-1, 1, size=(3, n))
        x = np.asarray(region.effective_center) + v * np.asarray(region.effective_radius)
        want, wmag = models.evaluate_x(before, x)
        got, gmag = models.evaluate(out, v)
        _, cmag = models.evaluate_x(before, region.effective_center)
        mon.expect((np.abs(got - want) <= 1e-7 * (wmag + gmag + cmag)).all(), "run_move",
                   lambda: f"moved model predicts {got} instead of {want}")
