"""Measures written from their definitions, one observation at a time."""

import math

NAN = float("nan")


def mean(r):
    return math.fsum(r) / len(r)


def mar(r, m):
    return mean(r) if m is None else m


def mad(r, m=None):
    t = mar(r, m)
    return mean([abs(x - t) for x in r])


def flpm(r, m=None):
    t = mar(r, m)
    return mean([max(t - x, 0.0) for x in r])


def variance(r):
    t = mean(r)
    return math.fsum((x - t) ** 2 for x in r) / (len(r) - 1)


def semi_variance(r, m=None):
    t = mar(r, m)
    return math.fsum(max(t - x, 0.0) ** 2 for x in r) / (len(r) - 1)


def central(r, k):
    t = mean(r)
    return mean([(x - t) ** k for x in r])


def flpm4(r, m=None):
    t = mar(r, m)
    return mean([max(t - x, 0.0) ** 4 for x in r])


def worst(r):
    return max(-x for x in r)


def var_interval(r, beta):
    """All the values that are (1 - beta)-quantiles of the loss."""
    losses = sorted((-x for x in r), reverse=True)
    n = len(r)
    k = (1 - beta) * n
    if abs(k - round(k)) < 1e-9:
        j = round(k)
        if j == 0:
            return losses[0], losses[0]
        if j >= n:
            return losses[-1], losses[-1]
        return losses[j], losses[j - 1]
    j = math.ceil(k) - 1
    return losses[j], losses[j]


def cvar(r, beta):
    """Average loss over the (1 - beta) worst probability mass, splitting the last atom."""
    losses = sorted((-x for x in r), reverse=True)
    n = len(r)
    mass, total, left = 1 / n, 0.0, 1 - beta
    for x in losses:
        q = min(mass, left)
        total += q * x
        left -= q
        if left <= 1e-15:
            break
    return total / (1 - beta)


def entropic(r, theta, beta):
    top = max(-x / theta for x in r)
    return theta * (top + math.log(mean([math.exp(-x / theta - top) for x in r])) - math.log(1 - beta))


def evar(r, beta):
    """Infimum over theta > 0 of the (convex) entropic risk measure."""
    w = worst(r)
    if beta == 0:
        return -mean(r)
    spread = w - min(-x for x in r)
    if spread <= 1e-15:
        return w
    n_worst = sum(1 for x in r if -x >= w - 1e-12 * max(1, abs(w)))
    if n_worst / len(r) >= 1 - beta - 1e-12:
        return w
    lo, hi = math.log(spread * 1e-5), math.log(spread * 1e6)
    g = (math.sqrt(5) - 1) / 2
    a, b = hi - g * (hi - lo), lo + g * (hi - lo)
    fa, fb = entropic(r, math.exp(a), beta), entropic(r, math.exp(b), beta)
    for _ in range(75):
        if fa <= fb:
            hi, b, fb = b, a, fa
            a = hi - g * (hi - lo)
            fa = entropic(r, math.exp(a), beta)
        else:
            lo, a, fa = a, b, fb
            b = lo + g * (hi - lo)
            fb = entropic(r, math.exp(b), beta)
    return min(w, fa, fb)


def drawdowns(r, compounded):
    """Distance (or relative distance) of the cumulative return to its running maximum."""
    out, level, top = [], 1.0 if compounded else 0.0, -math.inf
    for x in r:
        level = level * (1 + x) if compounded else level + x
        top = max(top, level)
        out.append(level / top - 1 if compounded else level - top)
    return out


def ulcer(d):
    return math.sqrt(mean([x * x for x in d]))


def gini(r):
    n = len(r)
    return math.fsum(abs(a - b) for a in r for b in r) / (n * (n - 1))


def all_measures(r, s):
    """{measure name: value or (low, high)} for settings s."""
    m, f = s["min_acceptable_return"], s["annualized_factor"]
    d = drawdowns(r, s["compounded"])
    sd, sv = math.sqrt(variance(r)), semi_variance(r, m)
    out = dict(
        mean=mean(r),
        annualized_mean=mean(r) * f,
        mean_absolute_deviation=mad(r, m),
        first_lower_partial_moment=flpm(r, m),
        variance=variance(r),
        annualized_variance=variance(r) * f,
        standard_deviation=sd,
        annualized_standard_deviation=sd * math.sqrt(f),
        semi_variance=sv,
        annualized_semi_variance=sv * f,
        semi_deviation=math.sqrt(sv),
        annualized_semi_deviation=math.sqrt(sv) * math.sqrt(f),
        fourth_central_moment=central(r, 4),
        fourth_lower_partial_moment=flpm4(r, m),
        worst_realization=worst(r),
        value_at_risk=var_interval(r, s["value_at_risk_beta"]),
        cvar=cvar(r, s["cvar_beta"]),
        entropic_risk_measure=entropic(r, s["entropic_risk_measure_theta"], s["entropic_risk_measure_beta"]),
        evar=evar(r, s["evar_beta"]),
        drawdown_at_risk=var_interval(d, s["drawdown_at_risk_beta"]),
        cdar=cvar(d, s["cdar_beta"]),
        edar=evar(d, s["edar_beta"]),
        max_drawdown=max(-x for x in d),
        average_drawdown=-mean(d),
        ulcer_index=ulcer(d),
        gini_mean_difference=gini(r),
    )
    if sd > 1e-12:
        out["skew"] = central(r, 3) / sd**3
        out["kurtosis"] = central(r, 4) / sd**4
    return out


RATIOS = dict(
    sharpe_ratio="standard_deviation", sortino_ratio="semi_deviation",
    mean_absolute_deviation_ratio="mean_absolute_deviation",
    first_lower_partial_moment_ratio="first_lower_partial_moment", value_at_risk_ratio="value_at_risk",
    cvar_ratio="cvar", entropic_risk_measure_ratio="entropic_risk_measure", evar_ratio="evar",
    worst_realization_ratio="worst_realization", drawdown_at_risk_ratio="drawdown_at_risk",
    cdar_ratio="cdar", calmar_ratio="max_drawdown", average_drawdown_ratio="average_drawdown",
    edar_ratio="edar", ulcer_index_ratio="ulcer_index", gini_mean_difference_ratio="gini_mean_difference",
)  # fmt: skip
