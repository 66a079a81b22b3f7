import numpy as np

from checks.regions import binding, box, limits, make_region
from vk import gen
from vk.trace import close

ID = "C20"
RULE = ("random regions (centers, radii over many magnitudes, dimensions 1-8, bound patterns incl. bounds exactly at the "
        "radius) and random points mapped in both directions, against an independent reference; non-trivial: every "
        "region; distinct by (dimension, bound pattern, shape, replaced attribute)")
REQUIRED = {"regions": 4000, "cubes": 1500, "spheres": 500, "mapped_points": 20000, "at_radius": 100, "replaced": 3000}
ASSUMPTIONS = ["lower < upper, center within bounds", "relative tolerance 1e-9 plus rounding of the center's magnitude"]
CASE_TIMEOUT = 60


def plan(tier, seed):
    k = 1 if tier == "quick" else 40
    return [("region", i) for i in range(1000 * k)] + [("at_radius", i) for i in range(200 * k)]


def check_region(r, n, rng, mon, kind):
    from tranquilo.region import Region

    mon.count("regions")
    is_cube = binding(r, n)
    d = lambda: f"center {r.center.tolist()}, radius {r.radius}, bounds {r.bounds}"
    if not mon.expect((r.shape == "cube") == is_cube and r.shape in ("cube", "sphere"), "shape", lambda: f"{r.shape}: {d()}"):
        return
    c = np.asarray(r.center, float)
    lo_u, up_u = limits(r, n)
    eps = 2e-14 * (np.abs(c) + r.radius)
    if is_cube:
        mon.count("cubes")
        lo, up = box(r, n)
        if (up - lo <= 1e-9 * (np.abs(lo) + np.abs(up))).any():
            return  # side lengths below the resolution of the coordinates
        mon.expect(close(r.cube_bounds.lower, lo, rtol=1e-12, atol=eps.max()) and close(r.cube_bounds.upper, up, rtol=1e-12, atol=eps.max()),
                   "cube_bounds", lambda: f"{r.cube_bounds} instead of {lo}, {up}; {d()}")
        mon.expect(close(r.cube_center, (lo + up) / 2, rtol=1e-12, atol=eps.max()+2e-14*(np.abs(lo)+np.abs(up)).max()), "cube_center")
        center, scale = (lo + up) / 2, (up - lo) / 2
        # coordinates far from zero may cancel in the center
        eps = eps + 2e-14 * (np.abs(lo) + np.abs(up))
    else:
        mon.count("spheres")
        center, scale = c, np.full(n, float(r.radius))
        for a in ("cube_bounds", "cube_center"):
            try:
                getattr(r, a)
                mon.violate("sphere_has_" + a, f"a sphere has {a}")
            except AttributeError:
                mon.count("oracle:no_" + a)
    mon.expect(close(r.effective_center, center, rtol=1e-12, atol=eps.max()), "effective_center", lambda: f"{r.effective_center} {center} {d()}")
    mon.expect(close(np.broadcast_to(r.effective_radius, (n,)), scale, rtol=1e-9, atol=eps.max()), "effective_radius",
               lambda: f"{r.effective_radius} instead of {scale}; {d()}")
    # points of the unit sphere / cube, incl. boundary, single and stacked
    m = int(rng.integers(1, 8))
    if is_cube:
        u = rng.uniform(-1, 1, size=(m, n))
        u[rng.random(size=u.shape) < 0.3] = gen.pick(rng, -1.0, 1.0)
    else:
        u = rng.normal(size=(m, n))
        u /= np.linalg.norm(u, axis=1, keepdims=True)
        u *= rng.uniform(0, 1, size=(m, 1)) ** gen.pick(rng, 0, 1)
    uc = u.copy()
    x = r.map_from_unit(u)
    mon.expect(np.array_equal(u, uc), "input_modified")
    mon.count("mapped_points", m)
    want = center + u * scale
    tol = 1e-12 * (np.abs(center) + scale) + 4 * eps
    mon.expect((np.abs(x - want) <= tol).all(), "map_from_unit", lambda: f"{x} instead of {want}; {d()}")
    if is_cube:
        mon.expect(((x >= lo_u) & (x <= up_u)).all(), "leaves_bounds", lambda: f"mapped point leaves the bounds; {d()}")
        mon.expect(((x >= lo - tol) & (x <= up + tol)).all(), "leaves_cube")
    else:
        mon.expect((np.linalg.norm(x - c, axis=1) <= r.radius * (1 + 1e-12) + np.sqrt(n) * tol.max()).all(), "leaves_sphere")
    u2 = r.map_to_unit(x)
    acc = 1e-10 + 8 * (8e-16 * np.abs(center) + eps) / scale
    mon.expect((np.abs(u2 - u) <= acc).all(), "inverse", lambda: f"{u2} instead of {u}; {d()}")
    mon.expect(np.array_equal(r.map_from_unit(u[0]), x[0]) and np.array_equal(r.map_to_unit(x[0]), u2[0]), "single_vs_stacked")
    # arbitrary points outside the region, too
    y = center + scale * rng.uniform(-3, 3, size=(m, n))
    v = r.map_to_unit(y)
    mon.expect((np.abs(v - (y - center) / scale) <= acc * 4).all(), "map_to_unit", lambda: f"{v}; {d()}")
    # replacing
    attr = gen.pick(rng, "radius", "center", "bounds", "both")
    new = {}
    r2, _ = make_region(rng, n=n)
    if attr in ("radius", "both"):
        new["radius"] = r.radius * float(gen.pick(rng, 0.01, 0.5, 2.0, 100.0))
    if attr in ("center", "both"):
        new["center"] = np.clip(c + r.radius * rng.uniform(-1, 1, n), lo_u, up_u)
    if attr == "bounds":
        new["bounds"] = None
    before = (r.center.copy(), r.radius, r.shape)
    a = r._replace(**new)
    b = Region(center=new.get("center", r.center), radius=new.get("radius", r.radius), bounds=new.get("bounds", r.bounds) if "bounds" in new else r.bounds)
    mon.count("replaced")
    mon.expect(a.shape == b.shape and np.array_equal(a.effective_center, b.effective_center)
               and np.array_equal(a.effective_radius, b.effective_radius) and a.radius == b.radius
               and np.array_equal(a.center, b.center) and a.bounds is b.bounds, "replace", lambda: f"replacing {attr}; {d()}")
    z = rng.uniform(-1, 1, size=(2, n))
    mon.expect(np.array_equal(a.map_from_unit(z), b.map_from_unit(z)), "replace_map")
    mon.expect(np.array_equal(r.center, before[0]) and r.radius == before[1] and r.shape == before[2], "replace_pure")
    mon.expect((a.shape == "cube") == binding(a, n), "replace_shape")
    mon.sig(n, kind, r.shape, attr)


def run_case(group, idx, rng, mon):
    from tranquilo.bounds import Bounds
    from tranquilo.region import Region

    for _ in range(30):
        n = int(rng.integers(1, 9))
        if group == "region":
            r, kind = make_region(rng, n=n, decades=(-8, 8) if rng.random() < 0.3 else (-3, 3))
        else:
            # bound exactly at the radius (exact arithmetic): counts as binding
            radius = float(2.0 ** rng.integers(-8, 8))
            c = rng.integers(-8, 9, size=n) * radius
            lo, up = np.full(n, -np.inf), np.full(n, np.inf)
            side = rng.random() < 0.5
            j = int(rng.integers(n))
            f = gen.pick(rng, 1.0, 1.0, 1.0 + 2.0**-40, 1.0 - 2.0**-40)
            if side:
                lo[j] = c[j] - radius * f
            else:
                up[j] = c[j] + radius * f
            other = gen.pick(rng, "inf", "none", "far")
            if other == "none":
                lo, up = (lo, None) if side else (None, up)
            elif other == "far":
                lo = np.where(np.isinf(lo), c - 64 * radius, lo)
                up = np.where(np.isinf(up), c + 64 * radius, up)
            r, kind = Region(center=c, radius=radius, bounds=Bounds(lo, up)), "at_radius"
            mon.count("at_radius")
        check_region(r, n, rng, mon, kind)
    mon.sample(center=r.center, radius=r.radius, shape=r.shape, kind=kind)
