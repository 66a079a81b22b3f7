"""Random trust regions of all shapes, shared by several checks."""
import numpy as np

from vk import gen


def make_region(rng, n=None, shape=None, decades=(-3, 3), n_max=6):
    """A region around a center, with bounds that bind, almost bind or do not bind."""
    from tranquilo.bounds import Bounds
    from tranquilo.region import Region

    n = n or int(rng.integers(1, n_max + 1))
    radius = float(10.0 ** rng.uniform(*decades))
    center = rng.normal(size=n) * 10.0 ** rng.integers(-1, 3) * gen.pick(rng, 1.0, radius, 0.0)
    if rng.random() < 0.15:
        # special values: unit regions around the origin or around integers
        radius = float(gen.pick(rng, 1.0, 1.0, 0.5, 2.0))
        center = gen.pick(rng, np.zeros(n), np.ones(n), np.round(rng.normal(size=n)))
    kind = gen.pick(rng, "none", "far", "cut", "cut", "corner", "onesl", "onesu", "partial", "just_in", "just_out", "tiny")
    if shape == "sphere":
        kind = gen.pick(rng, "none", "far", "just_out")
    if shape == "cube":
        kind = gen.pick(rng, "cut", "cut", "corner", "onesl", "onesu", "partial", "just_in", "tiny")
    inf = np.full(n, np.inf)
    lo, up = -inf, inf.copy()
    if kind == "none":
        return Region(center=center, radius=radius), kind
    if kind == "far":
        lo, up = center - radius * rng.uniform(2, 100, n), center + radius * rng.uniform(2, 100, n)
    if kind == "cut":
        lo, up = center - radius * rng.uniform(0, 1, n), center + radius * rng.uniform(0, 1, n)
        free = rng.random(n) < 0.4
        lo = np.where(free, center - 5 * radius, lo)
        lo[0] = center[0] - radius * rng.uniform(0, 0.99)
    if kind == "corner":
        s = rng.random(n) < 0.5
        lo = np.where(s, center, center - radius * rng.uniform(0.1, 3, n))
        up = np.where(s, center + radius * rng.uniform(0.1, 3, n), center)
    if kind == "onesl":
        lo, up = center - radius * rng.uniform(0, 1, n), None
    if kind == "onesu":
        lo, up = None, center + radius * rng.uniform(0, 1, n)
    if kind == "partial":
        j = int(rng.integers(n))
        lo = -inf
        lo[j] = center[j] - radius * rng.uniform(0, 1)
    if kind == "just_in":
        lo = center - radius * rng.uniform(0.999, 1.0, n)
    if kind == "just_out":
        lo = center - radius * rng.uniform(1.0001, 1.1, n)
        up = center + radius * rng.uniform(1.0001, 1.1, n)
    if kind == "tiny":
        lo, up = center - radius * 10.0 ** rng.uniform(-6, 0, n), center + radius * 10.0 ** rng.uniform(-6, 0, n)
    r = Region(center=center, radius=radius, bounds=Bounds(lo, up))
    return r, kind


def limits(region, n):
    b = region.bounds
    lo = np.full(n, -np.inf) if b is None or b.lower is None else np.asarray(b.lower, float)
    up = np.full(n, np.inf) if b is None or b.upper is None else np.asarray(b.upper, float)
    return lo, up


def binding(region, n):
    lo, up = limits(region, n)
    c, r = np.asarray(region.center, float), float(region.radius)
    return bool((c - lo <= r).any() or (up - c <= r).any())


def cube_halfwidth(radius, n):
    from math import exp, lgamma, log, pi

    return exp(0.5 * log(pi) + log(radius) - log(2) - lgamma(n / 2 + 1) / n)


def box(region, n):
    """Independent reference for the box of a cube-shaped region."""
    lo, up = limits(region, n)
    h = cube_halfwidth(float(region.radius), n)
    c = np.asarray(region.center, float)
    return np.maximum(c - h, lo), np.minimum(c + h, up)
