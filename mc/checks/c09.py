"""C09: orderings, scaling and invariances of the risk measures."""

import itertools

import numpy as np
from skfolio import measures as mt
from skfolio.portfolio import Portfolio

PROPERTY = "C09"
BOUNDS = {
    "quick": "all return series of length 2..5 over 5 levels and length 6 over 3 levels; all pairs "
    "of 7 confidence levels; 3 scalings, 3 shifts; functions and portfolios",
    "thorough": "as quick with length 6 over 5 levels and length 9 over 3 levels",
}
LEVELS = [-0.1, -0.02, 0.0, 0.01, 0.05]
FEW = [-0.1, 0.01, 0.05]
BETAS = [0.0, 0.2, 0.5, 0.7, 0.8, 0.95, 0.99]
EPS = 2e-7

DEVIATION = ["mean_absolute_deviation", "first_lower_partial_moment", "standard_deviation",
             "semi_deviation", "gini_mean_difference", "variance", "semi_variance",
             "fourth_central_moment", "fourth_lower_partial_moment"]  # fmt: skip
DEGREE = dict(variance=2, semi_variance=2, fourth_central_moment=4, fourth_lower_partial_moment=4)
TAIL = ["value_at_risk", "cvar", "evar"]
DRAWDOWN_TAIL = ["drawdown_at_risk", "cdar", "edar"]
DRAWDOWN = ["max_drawdown", "average_drawdown", "ulcer_index"]


def cases(tier):
    for n in (2, 3, 4, 5) + ((6,) if tier == "thorough" else ()):
        for head in itertools.product(LEVELS, repeat=n - 2):
            yield [n, list(head), "levels"]
    n = 6 if tier == "quick" else 9
    for head in itertools.product(FEW, repeat=n - 2):
        yield [n, list(head), "few"]


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def f(name, a, **kw):
    return float(getattr(mt, name)(a, **kw))


def check(r, ctx):
    a = np.array(r)
    s = np.sort(a)
    dd = {c: mt.get_drawdowns(a, compounded=c) for c in (False, True)}
    # ordering and growth with the confidence level
    tails = {n: [f(n, a, beta=b) for b in BETAS] for n in TAIL}
    worst = f("worst_realization", a)
    for i, b in enumerate(BETAS):
        chain = [tails[n][i] for n in TAIL] + [worst]
        ctx.step()
        ctx.expect(all(x <= y + EPS for x, y in itertools.pairwise(chain)), "tail-order", lambda: (r, b, chain))
        ctx.expect(tails["cvar"][i] >= -a.mean() - EPS, "cvar-mean", lambda: (r, b))
    for n in TAIL:
        ctx.expect(all(x <= y + EPS for x, y in itertools.pairwise(tails[n])), "tail-growth", lambda: (r, n, tails[n]))
    for c, d in dd.items():
        top = f("max_drawdown", d)
        vals = {n: [f(n, d, beta=b) for b in BETAS] for n in DRAWDOWN_TAIL}
        for i, b in enumerate(BETAS):
            chain = [vals[n][i] for n in DRAWDOWN_TAIL] + [top]
            ctx.step()
            ctx.expect(all(x <= y + EPS for x, y in itertools.pairwise(chain)), "drawdown-order", lambda: (r, c, b, chain))
        for n in DRAWDOWN_TAIL:
            ctx.expect(all(x <= y + EPS for x, y in itertools.pairwise(vals[n])), "drawdown-growth", lambda: (r, c, n, vals[n]))
        avg, ulcer = f("average_drawdown", d), f("ulcer_index", d)
        ctx.expect(-1e-12 <= avg <= ulcer + EPS <= top + 2 * EPS, "drawdown-averages", lambda: (r, c, avg, ulcer, top))
        if all(x >= 0 for x in r[1:]):
            zero = [top, avg, ulcer] + [x for n in DRAWDOWN_TAIL for x in vals[n]]
            ctx.expect(all(abs(x) < 1e-12 for x in zero), "never-falling", lambda: (r, c, zero))
        else:
            ctx.expect(top > 0 and avg > 0 and ulcer > 0, "falling", lambda: (r, c))
    # order of the observations
    for n in DEVIATION + ["worst_realization", "mean", "third_central_moment", "entropic_risk_measure"]:
        ctx.expect(near(f(n, a), f(n, s)), f"order-{n}", lambda: (r, n))
    for n in TAIL:
        for i, b in enumerate(BETAS):
            ctx.expect(near(tails[n][i], f(n, s, beta=b), 1e-7), f"order-{n}", lambda: (r, n, b))
    # never negative, zero exactly for constants
    constant = len(set(r)) == 1
    for n in DEVIATION:
        v = f(n, a)
        ctx.step()
        ctx.expect(v >= -1e-15, f"negative-{n}", lambda: (r, n, v))
        limit = {1: 1e-12, 2: 1e-20, 4: 1e-30}[DEGREE.get(n, 1)]
        ctx.expect((v <= limit) == constant, f"zero-{n}", lambda: (r, n, v))
    # scaling and shifting
    for k in (0.5, 3.0, 100.0):
        for n in DEVIATION:
            ctx.expect(near(f(n, k * a), k ** DEGREE.get(n, 1) * f(n, a), 1e-8), f"scale-{n}", lambda: (r, n, k))
        ctx.expect(near(f("worst_realization", k * a), k * worst), "scale-worst", lambda: (r, k))
        ctx.expect(
            near(f("entropic_risk_measure", k * a, theta=k), k * f("entropic_risk_measure", a, theta=1.0), 1e-8),
            "scale-entropic",
            lambda: (r, k),
        )
        for n in TAIL:
            for b in (0.5, 0.8, 0.95):
                x, y = f(n, k * a, beta=b), k * tails[n][BETAS.index(b)]
                ctx.step()
                ctx.expect(abs(x - y) <= 1e-6 * k, f"scale-{n}", lambda: (r, n, k, b, x, y))
        d = mt.get_drawdowns(k * a)
        for n in DRAWDOWN:
            ctx.expect(near(f(n, d), k * f(n, dd[False]), 1e-8), f"scale-{n}", lambda: (r, n, k))
        for n in DRAWDOWN_TAIL:
            x, y = f(n, d, beta=0.7), k * f(n, dd[False], beta=0.7)
            ctx.expect(abs(x - y) <= 1e-6 * k, f"scale-{n}", lambda: (r, n, k, x, y))
    for c in (0.02, -0.13, 1.0):
        for n in DEVIATION:
            ctx.expect(abs(f(n, a + c) - f(n, a)) <= 1e-9, f"shift-{n}", lambda: (r, n, c))
        for n in ("worst_realization", "entropic_risk_measure"):
            ctx.expect(near(f(n, a + c), f(n, a) - c, 1e-8), f"shift-{n}", lambda: (r, n, c))
        ctx.expect(near(f("mean", a + c), f("mean", a) + c), "shift-mean", lambda: (r, c))
        for n in TAIL:
            for b in (0.5, 0.8, 0.95):
                x, y = f(n, a + c, beta=b), tails[n][BETAS.index(b)] - c
                ctx.step()
                ctx.expect(abs(x - y) <= 1e-6, f"shift-{n}", lambda: (r, n, c, b, x, y))
    ctx.state(r)


def portfolios(r, ctx):
    """The same relations through portfolios holding a multiple of the asset."""
    X = np.array(r)[:, None]
    base = Portfolio(X=X, weights=[1.0])
    for k in (0.5, 2.0):
        p = Portfolio(X=X, weights=[k])
        for n in DEVIATION + TAIL + DRAWDOWN_TAIL + DRAWDOWN + ["worst_realization", "mean"]:
            want = k ** DEGREE.get(n, 1) * getattr(base, n)
            ctx.step()
            ctx.expect(abs(getattr(p, n) - want) <= 1e-6, f"portfolio-scale-{n}", lambda: (r, n, k))
        if len(set(r)) > 1:
            for n in ("sharpe_ratio", "gini_mean_difference_ratio", "mean_absolute_deviation_ratio", "skew", "kurtosis"):
                ctx.expect(near(getattr(p, n), getattr(base, n), 1e-6), f"portfolio-ratio-{n}", lambda: (r, n, k))
    chain = [base.value_at_risk, base.cvar, base.evar, base.worst_realization]
    ctx.expect(all(x <= y + EPS for x, y in itertools.pairwise(chain)), "portfolio-tail-order", lambda: (r, chain))
    for c in (False, True):
        base.compounded = c
        chain = [base.drawdown_at_risk, base.cdar, base.edar, base.max_drawdown]
        ctx.expect(all(x <= y + EPS for x, y in itertools.pairwise(chain)), "portfolio-drawdown-order", lambda: (r, c, chain))


def run_case(case, ctx):
    n, head, which = case
    for tail in itertools.product(LEVELS if which == "levels" else FEW, repeat=2):
        r = [*head, *tail]
        check(r, ctx)
        portfolios(r, ctx)
        ctx.trace()
    ctx.outcome(f"length-{n}")
