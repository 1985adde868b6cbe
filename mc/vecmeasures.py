"""Risk measures of many return series at once, from their definitions (one column each)."""

import numpy as np


def evar(r, beta):
    """Infimum over theta of the entropic bound, by golden section on log theta."""
    n = len(r)
    loss = -r
    top = loss.max(axis=0)
    spread = np.maximum(top - loss.min(axis=0), 1e-300)

    def f(t):
        th = np.exp(t)
        return top + th * (np.log(np.exp((loss - top) / th).mean(axis=0)) - np.log(1 - beta))

    lo, hi = np.log(spread * 1e-5), np.log(spread * 1e6)
    g = (np.sqrt(5) - 1) / 2
    a, b = hi - g * (hi - lo), lo + g * (hi - lo)
    fa, fb = f(a), f(b)
    for _ in range(70):
        left = fa <= fb
        hi, lo = np.where(left, b, hi), np.where(left, lo, a)
        a, b = hi - g * (hi - lo), lo + g * (hi - lo)
        fa, fb = f(a), f(b)
    flat = (loss >= top - 1e-12 * np.maximum(1, np.abs(top))).sum(axis=0) / n >= 1 - beta - 1e-12
    return np.where(flat, top, np.minimum(top, np.minimum(fa, fb)))


def cvar(r, beta):
    n = len(r)
    loss = -np.sort(r, axis=0)
    mass = np.clip((1 - beta) * n - np.arange(n), 0, 1)
    return mass @ loss / ((1 - beta) * n)


def drawdowns(r):
    c = np.cumsum(r, axis=0)
    return c - np.maximum.accumulate(c, axis=0)


def measure(name, r, beta=0.95, mar=None):
    """r: (n_observations, n_series) returns net of costs."""
    n = len(r)
    t = r.mean(axis=0) if mar is None else mar
    below = np.maximum(t - r, 0)
    match name:
        case "mean":
            return r.mean(axis=0)
        case "mean_absolute_deviation":
            return np.abs(r - t).mean(axis=0)
        case "first_lower_partial_moment":
            return below.mean(axis=0)
        case "variance":
            return r.var(axis=0, ddof=1)
        case "standard_deviation":
            return r.std(axis=0, ddof=1)
        case "semi_variance":
            return (below**2).sum(axis=0) / (n - 1)
        case "semi_deviation":
            return np.sqrt((below**2).sum(axis=0) / (n - 1))
        case "worst_realization":
            return -r.min(axis=0)
        case "cvar":
            return cvar(r, beta)
        case "evar":
            return evar(r, beta)
        case "gini_mean_difference":
            i = np.arange(n)
            return 2 * ((2 * i - n + 1) @ np.sort(r, axis=0)) / (n * (n - 1))
    d = drawdowns(r)
    match name:
        case "max_drawdown":
            return -d.min(axis=0)
        case "average_drawdown":
            return -d.mean(axis=0)
        case "cdar":
            return cvar(d, beta)
        case "edar":
            return evar(d, beta)
        case "ulcer_index":
            return np.sqrt((d**2).mean(axis=0))
    raise KeyError(name)


RISKS = [
    "mean_absolute_deviation", "first_lower_partial_moment", "variance", "standard_deviation", "semi_variance",
    "semi_deviation", "worst_realization", "cvar", "evar", "max_drawdown", "average_drawdown", "cdar", "edar",
    "ulcer_index", "gini_mean_difference",
]  # fmt: skip
BETA = {"cvar": "cvar_beta", "evar": "evar_beta", "cdar": "cdar_beta", "edar": "edar_beta"}
