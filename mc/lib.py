"""Deterministic data and helpers shared by the checks."""

import itertools

import numpy as np
import pandas as pd


def lcg(seed):
    """Deterministic stream of numbers in [0, 1), independent of any library."""
    x = (seed * 2654435761 + 12345) % 2**32
    while True:
        for _ in range(2):
            x = (1664525 * x + 1013904223) % 2**32
        yield x / 2**32


def returns(seed, n, k, scale=0.02, drift=0.0005):
    """n x k matrix of distinct pseudo-returns with some cross-correlation."""
    g = lcg(seed)
    base = np.array([[next(g) + next(g) + next(g) - 1.5 for _ in range(k)] for _ in range(n)])
    common = np.array([next(g) + next(g) - 1.0 for _ in range(n)])
    load = np.array([0.3 + 0.9 * next(g) for _ in range(k)])
    vol = np.array([0.6 + 0.8 * next(g) for _ in range(k)])
    mean = np.array([drift * (1 + 3 * next(g)) for _ in range(k)])
    return scale * vol * (base + np.outer(common, load)) + mean


def names(k):
    return [f"A{i}" for i in range(k)]


def dates(n, start="2021-01-04"):
    return pd.date_range(start, periods=n, freq="B")


def frame(a, cols=None, start="2021-01-04"):
    a = np.asarray(a, dtype=float)
    return pd.DataFrame(a, index=dates(len(a), start), columns=cols or names(a.shape[1]))


def simplex_grid(k, m):
    """All weight vectors of length k with entries i/m summing to one."""
    for c in itertools.combinations_with_replacement(range(k), m):
        w = [0] * k
        for i in c:
            w[i] += 1
        yield [x / m for x in w]


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def same_value(a, b, rtol=1e-9, atol=1e-12):
    """Equality of two observed values of any of the kinds the API returns."""
    if isinstance(a, pd.DataFrame):
        return (
            isinstance(b, pd.DataFrame)
            and list(a.index) == list(b.index)
            and list(a.columns) == list(b.columns)
            and all(
                same_value(x, y, rtol, atol)
                for x, y in zip(a.to_numpy().ravel(), b.to_numpy().ravel(), strict=True)
            )
        )
    if isinstance(a, pd.Series):
        return (
            isinstance(b, pd.Series)
            and list(a.index) == list(b.index)
            and all(
                same_value(x, y, rtol, atol)
                for x, y in zip(a.to_numpy(), b.to_numpy(), strict=True)
            )
        )
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            return np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if a.dtype.kind == "O":
            return all(
                same_value(x, y, rtol, atol) for x, y in zip(a.ravel(), b.ravel(), strict=True)
            )
        return bool(np.array_equal(a, b))
    if isinstance(a, (float, np.floating)) and isinstance(b, (int, float, np.floating, np.integer)):
        if np.isnan(a) or np.isnan(b):
            return bool(np.isnan(a) and np.isnan(b))
        if np.isinf(a) or np.isinf(b):
            return a == b
        return bool(abs(a - b) <= atol + rtol * abs(b))
    if isinstance(a, (list, tuple)):
        return (
            isinstance(b, (list, tuple))
            and len(a) == len(b)
            and all(same_value(x, y, rtol, atol) for x, y in zip(a, b, strict=True))
        )
    if isinstance(a, dict):
        return (
            isinstance(b, dict)
            and list(a) == list(b)
            and all(same_value(a[k], b[k], rtol, atol) for k in a)
        )
    try:
        return bool(a == b)
    except Exception:
        return a is b
