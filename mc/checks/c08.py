"""C08: every measure equals its definition on every short return series."""

import inspect
import itertools
import math

import numpy as np
import pandas as pd
from skfolio import measures as mt
from skfolio.measures import ExtraRiskMeasure, PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.portfolio import MultiPeriodPortfolio, Portfolio

from mc import refmeasures as ref
from mc.lib import dates

PROPERTY = "C08"
BOUNDS = {
    "quick": "all return series of length 2..5 over 5 levels and length 6 over 3 levels; 3 "
    "settings of the portfolio; every measure and ratio; functions on a grid of 6 confidence "
    "levels and 3 acceptable returns; rolling windows 2, 3 and 4 on length-5 series; defaults on 6 series of 19..60",
    "thorough": "as quick with length 6 over 5 levels and length 8 over 3 levels",
}
LEVELS = [-0.1, -0.02, 0.0, 0.01, 0.05]
FEW = [-0.1, 0.01, 0.05]
SETTINGS = [
    dict(
        risk_free_rate=0.0, annualized_factor=252.0, compounded=False, min_acceptable_return=None,
        value_at_risk_beta=0.95, entropic_risk_measure_theta=1.0, entropic_risk_measure_beta=0.95,
        cvar_beta=0.95, evar_beta=0.95, drawdown_at_risk_beta=0.95, cdar_beta=0.95, edar_beta=0.95,
    ),
    dict(
        risk_free_rate=0.003, annualized_factor=12.0, compounded=True, min_acceptable_return=0.01,
        value_at_risk_beta=0.7, entropic_risk_measure_theta=0.3, entropic_risk_measure_beta=0.55,
        cvar_beta=0.65, evar_beta=0.5, drawdown_at_risk_beta=0.45, cdar_beta=0.3, edar_beta=0.6,
    ),
    dict(
        risk_free_rate=-0.001, annualized_factor=1.0, compounded=False, min_acceptable_return=0.0,
        value_at_risk_beta=0.4, entropic_risk_measure_theta=0.05, entropic_risk_measure_beta=0.8,
        cvar_beta=0.5, evar_beta=0.2, drawdown_at_risk_beta=0.75, cdar_beta=0.8, edar_beta=0.35,
    ),
]  # fmt: skip
BETAS = [0.0, 0.25, 0.5, 0.6, 0.85, 0.99]
MARS = [None, 0.0, -0.02]
ALL = [m for e in (PerfMeasure, RiskMeasure, ExtraRiskMeasure, RatioMeasure) for m in e]


def cases(tier):
    for n in (2, 3, 4, 5) + ((6,) if tier == "thorough" else ()):
        for head in itertools.product(LEVELS, repeat=n - 2):
            yield ["series", n, list(head), "levels"]
    n = 6 if tier == "quick" else 8
    for head in itertools.product(FEW, repeat=n - 2):
        yield ["series", n, list(head), "few"]
    for n in (19, 20, 21, 40, 47, 60):
        yield ["defaults", n]
    yield ["names"]
    yield ["degenerate"]


TOL = dict(evar=(1e-5, 1e-7), edar=(1e-5, 1e-7))


def near(name, got, want):
    rtol, atol = TOL.get(name, (1e-7, 1e-9))
    if name in ("skew", "kurtosis"):
        atol = 1e-6
    lo, hi = want if isinstance(want, tuple) else (want, want)
    if math.isnan(got):
        return False
    t = atol + rtol * max(abs(lo), abs(hi))
    # a quantile is one of the two neighbouring observations
    return abs(got - lo) <= t or abs(got - hi) <= t


def call(f, r, d, **kw):
    names = inspect.signature(f).parameters
    return float(f(np.array(d if "drawdowns" in names else r), **kw))


def functions(r, ctx):
    a = np.array(r)
    d = ref.drawdowns(r, False)
    for comp in (False, True):
        got = mt.get_drawdowns(a, compounded=comp)
        ctx.expect(np.allclose(got, ref.drawdowns(r, comp), atol=1e-12), "drawdowns", lambda: (r, comp, got))
        c = mt.get_cumulative_returns(a, compounded=comp)
        level = np.cumprod(1 + a) * 1000 if comp else np.cumsum(a)
        ctx.expect(np.allclose(c, level), "cumulative", lambda: (r, comp, c))
    for m in MARS:
        for n, f in (("mean_absolute_deviation", ref.mad), ("first_lower_partial_moment", ref.flpm),
                     ("semi_variance", ref.semi_variance), ("fourth_lower_partial_moment", ref.flpm4)):  # fmt: skip
            got = getattr(mt, n)(a, min_acceptable_return=m)
            ctx.expect(near(n, got, f(r, m)), f"function-{n}", lambda: (r, m, got, f(r, m)))
        got = mt.semi_deviation(a, min_acceptable_return=m)
        ctx.expect(near("x", got, math.sqrt(ref.semi_variance(r, m))), "function-semi_deviation", (r, m))
    for b in BETAS:
        for n, f, s in (("value_at_risk", ref.var_interval, r), ("cvar", ref.cvar, r), ("evar", ref.evar, r),
                        ("drawdown_at_risk", ref.var_interval, d), ("cdar", ref.cvar, d), ("edar", ref.evar, d)):  # fmt: skip
            if n == "edar" and b not in (0.5, 0.99):
                continue
            got = float(getattr(mt, n)(np.array(s), beta=b))
            want = f(s, b)
            ctx.expect(near(n, got, want), f"function-{n}", lambda: (r, b, got, want))
        got = float(mt.entropic_risk_measure(a, theta=0.4, beta=b))
        ctx.expect(near("x", got, ref.entropic(r, 0.4, b)), "function-entropic", lambda: (r, b, got))
    ctx.expect(near("x", mt.value_at_risk(a, beta=1), ref.worst(r)), "value-at-risk-1", r)
    ctx.expect(near("x", mt.third_central_moment(a), ref.central(r, 3)), "third-central-moment", r)
    ctx.expect(np.array_equal(a, np.array(r)), "input-changed", r)
    ctx.step(len(BETAS) * 7 + len(MARS) * 5 + 6)


def portfolios(r, ctx):
    X = pd.DataFrame({"A": r}, index=dates(len(r)))
    for i, s in enumerate(SETTINGS):
        p = Portfolio(X=X, weights=[1.0], **s)
        want = ref.all_measures(r, s)
        for name, w in want.items():
            got = float(getattr(p, name))
            ctx.step()
            ctx.expect(near(name, got, w), f"measure-{name}", lambda: (r, i, got, w))
        excess = ref.mean(r) - s["risk_free_rate"]
        for name, risk in ref.RATIOS.items():
            got, base = float(getattr(p, name)), float(getattr(p, risk))
            ctx.step()
            if abs(base) > 1e-12:
                ctx.expect(near("x", got, excess / base), f"ratio-{name}", lambda: (r, i, got, excess, base))
            else:
                ctx.expect(not abs(got) < 1e6 or abs(excess) < 1e-12, f"ratio-zero-{name}", lambda: (r, i, got))
        for name in ("sharpe_ratio", "sortino_ratio"):
            got = float(getattr(p, f"annualized_{name}"))
            base = float(getattr(p, name)) * math.sqrt(s["annualized_factor"])
            ctx.expect(
                not abs(base) < 1e9 or near("x", got, base), f"annualized-{name}", lambda: (r, i, got, base)
            )
        ctx.expect(np.allclose(p.drawdowns, ref.drawdowns(r, s["compounded"]), atol=1e-12), "drawdowns-p", r)
        ctx.state(len(r), sorted(r), i)


def rolling(r, ctx):
    X = pd.DataFrame({"A": r}, index=dates(len(r)))
    for i, s in enumerate(SETTINGS[1:]):
        p = Portfolio(X=X, weights=[1.0], **s)
        for w in (2, 3, 4):
            wants = [ref.all_measures(r[t - w + 1 : t + 1], s) for t in range(w - 1, len(r))]
            for m in ALL:
                series = p.rolling_measure(measure=m, window=w)
                ctx.step()
                ctx.expect(
                    list(series.index) == list(X.index) and series.iloc[: w - 1].isna().all(), "rolling-index", (r, m)
                )
                for t, want in enumerate(wants):
                    got = float(series.iloc[t + w - 1])
                    name = m.value
                    if name in want:
                        ok = near(name, got, want[name])
                    elif m.is_ratio:
                        base_name = name.replace("annualized_", "")
                        risk = want[ref.RATIOS[base_name]]
                        factor = math.sqrt(s["annualized_factor"]) if m.is_annualized else 1.0
                        excess = (want["mean"] - s["risk_free_rate"]) * factor
                        risks = risk if isinstance(risk, tuple) else (risk,)
                        ok = any(abs(x) < 1e-9 or abs(got - excess / x) <= 1e-6 + 1e-4 * abs(excess / x) for x in risks)
                    else:
                        ok = True  # moments of a constant window
                    ctx.expect(ok, f"rolling-{name}", lambda: (r, i, w, t, got, want))
        ctx.state("rolling", r, i)


def defaults_case(n, ctx):
    """Settings left out have their documented values."""
    r = [((i * 37 + 11) % 61 - 29) / 1000 for i in range(n)]
    d = ref.drawdowns(r, False)
    a = np.array(r)
    for name, f, s in (("value_at_risk", ref.var_interval, r), ("cvar", ref.cvar, r), ("evar", ref.evar, r),
                       ("drawdown_at_risk", ref.var_interval, d), ("cdar", ref.cvar, d), ("edar", ref.evar, d)):  # fmt: skip
        got = float(getattr(mt, name)(np.array(s)))
        ctx.expect(near(name, got, f(s, 0.95)), f"default-{name}", lambda: (n, got, f(s, 0.95)))
    got = float(mt.entropic_risk_measure(a))
    ctx.expect(near("x", got, ref.entropic(r, 1.0, 0.95)), "default-entropic", lambda: (n, got))
    for name, f in (("mean_absolute_deviation", ref.mad), ("first_lower_partial_moment", ref.flpm),
                    ("semi_variance", ref.semi_variance), ("fourth_lower_partial_moment", ref.flpm4)):  # fmt: skip
        got = float(getattr(mt, name)(a))
        ctx.expect(near(name, got, f(r, None)), f"default-{name}", lambda: (n, got))
    ctx.expect(near("x", float(mt.semi_deviation(a)), math.sqrt(ref.semi_variance(r, None))), "default-semi_deviation", n)
    ctx.expect(np.allclose(mt.get_drawdowns(a), d, atol=1e-12), "default-drawdowns", n)
    ctx.expect(np.allclose(mt.get_cumulative_returns(a), np.cumsum(a)), "default-cumulative", n)
    X = pd.DataFrame({"A": r}, index=dates(n))
    p = Portfolio(X=X, weights=[1.0])
    mpp = MultiPeriodPortfolio(portfolios=[Portfolio(X=X.iloc[: n // 2], weights=[1.0]), Portfolio(X=X.iloc[n // 2 :], weights=[1.0])])
    for who, q in (("portfolio", p), ("periods", mpp)):
        for name, want in ref.all_measures(r, SETTINGS[0]).items():
            got = float(getattr(q, name))
            ctx.step()
            ctx.expect(near(name, got, want), f"default-{who}-{name}", lambda: (n, got, want))
    ctx.state("defaults", n)
    ctx.trace()


def names_case(ctx):
    """The enumerations link each measure to its counterparts."""
    for m in ALL:
        ctx.step()
        flags = (isinstance(m, PerfMeasure), isinstance(m, RiskMeasure | ExtraRiskMeasure), isinstance(m, RatioMeasure))
        ctx.expect((m.is_perf, m.is_risk, m.is_ratio) == flags, "flags", m)
        ctx.expect(m.is_annualized == m.value.startswith("annualized_"), "is-annualized", m)
        if m.is_annualized:
            ctx.expect(m.non_annualized_measure.value == m.value[len("annualized_"):], "non-annualized", m)
            ctx.expect(m.non_annualized_measure.annualized_measure == m, "annualized", m)
        if m.is_ratio:
            base = ref.RATIOS[m.value.replace("annualized_", "")]
            want = ("annualized_" if m.is_annualized else "") + base
            ctx.expect(m.linked_risk_measure.value == want, "linked", (m, m.linked_risk_measure))
        ctx.state("name", m.value)
    ctx.trace()


def degenerate_case(ctx):
    """Series without losses or without moves: exact values, no arbitrary numbers."""
    for n, x in itertools.product(range(2, 8), (-0.03, 0.0, 0.02)):
        for s in SETTINGS:
            r = [x] * n
            p = Portfolio(X=pd.DataFrame({"A": r}, index=dates(n)), weights=[1.0], **s)
            for name, want in ref.all_measures(r, s).items():
                ctx.step()
                got = float(getattr(p, name))
                ctx.expect(near(name, got, want), f"constant-{name}", lambda: (r, got, want))
            ctx.state("constant", n, x)
    ctx.trace()


def run_case(case, ctx):
    if case[0] == "defaults":
        return defaults_case(case[1], ctx)
    if case[0] == "names":
        return names_case(ctx)
    if case[0] == "degenerate":
        return degenerate_case(ctx)
    _, n, head, which = case
    for tail in itertools.product(LEVELS if which == "levels" else FEW, repeat=2):
        r = [*head, *tail]
        functions(r, ctx)
        portfolios(r, ctx)
        if which == "levels" and n == 5 and (r[0] != r[1] and r[3] != r[2]) and r[2] in (-0.1, 0.0, 0.05):
            if sum(map(LEVELS.index, r)) % 4 == 0:
                rolling(r, ctx)
        ctx.trace()
    ctx.outcome(f"length-{n}")
