"""Random models and an independent evaluation of them, shared by several checks."""
import numpy as np

from vk import gen


def vector_model(rng, n, m, quad, scale=None, shift=None, mag=None):
    from tranquilo.models import VectorModel

    mag = mag or 10.0 ** rng.integers(-4, 5)
    a = rng.normal(size=m) * mag * gen.pick(rng, 0.0, 1.0, 1.0, 100.0)
    g = rng.normal(size=(m, n)) * mag * gen.pick(rng, 0.0, 1.0, 1.0, 10.0)
    h = None
    if quad:
        h = rng.normal(size=(m, n, n)) * mag * gen.pick(rng, 0.0, 1.0, 1.0)
        h = h + h.transpose(0, 2, 1)
    return VectorModel(intercepts=a, linear_terms=g, square_terms=h, scale=scale, shift=shift)


def scalar_model(rng, n, quad, scale=None, shift=None):
    from tranquilo.models import ScalarModel

    v = vector_model(rng, n, 1, quad)
    return ScalarModel(intercept=float(v.intercepts[0]), linear_terms=v.linear_terms[0],
                       square_terms=None if v.square_terms is None else v.square_terms[0], scale=scale, shift=shift)


def parts(model):
    """Coefficients as (m,), (m, n), (m, n, n)."""
    g = np.asarray(model.linear_terms, float)
    a = np.asarray(model.intercepts if hasattr(model, "intercepts") else [model.intercept], float).reshape(-1)
    g = g.reshape(len(a), -1)
    n = g.shape[1]
    h = np.zeros((len(a), n, n)) if model.square_terms is None else np.asarray(model.square_terms, float).reshape(len(a), n, n)
    return a, g, h


def evaluate(model, u):
    """Values at unit space points u (k, n) and the magnitude of the summed terms."""
    a, g, h = parts(model)
    u = np.atleast_2d(u)
    val = np.empty((len(u), len(a)))
    mag = np.empty_like(val)
    for k, x in enumerate(u):
        for r in range(len(a)):
            t = [a[r]] + [g[r, i] * x[i] for i in range(len(x))]
            t += [0.5 * h[r, i, j] * x[i] * x[j] for i in range(len(x)) for j in range(len(x))]
            val[k, r] = float(np.sum(t))
            mag[k, r] = float(np.sum(np.abs(t)))
    return val, mag


def evaluate_x(model, x):
    """Values at points in the original coordinates."""
    u = (np.atleast_2d(x) - np.asarray(model.shift)) / np.asarray(model.scale)
    return evaluate(model, u)


def copy_of(model):
    import copy

    return copy.deepcopy(model)


def same(a, b):
    """Bitwise equality of two models."""
    if type(a) is not type(b):
        return False
    for f in a.__dataclass_fields__:
        x, y = getattr(a, f), getattr(b, f)
        if (x is None) != (y is None):
            return False
        if x is not None and not np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True):
            return False
    return True
