"""Risk budgeting delivers the requested split of risk."""

import functools
import itertools
import warnings

import numpy as np
import pandas as pd

from mc import vecmeasures as vm
from mc.lib import names, returns, simplex_grid

PROPERTY = "C29"
BOUNDS = {
    "quick": "15 risk measures x 3 return matrices x all budgets on a grid of eighths for 3 assets (zero budgets included), default budgets for 2-5 assets, every scale of budgets and returns, 7 constraint sets, costs, priors, 12 refusals",
    "thorough": "as quick with budgets on a grid of sixteenths and 6 return matrices",
}
BETAS = dict(cvar_beta=0.8, evar_beta=0.7, cdar_beta=0.75, edar_beta=0.7)
SMOOTH = ["variance", "standard_deviation", "semi_variance", "semi_deviation", "evar"]
CONS = {
    "max": dict(max_weights=0.4),
    "min": dict(min_weights=[0.3, 0.1, 0.35]),
    "both": dict(min_weights={"A1": 0.4}, max_weights={"A0": 0.25}),
    "linear": dict(linear_constraints=["A0 >= 1.5 * A2"]),
    "groups": dict(groups={"A0": ["g"], "A1": ["h"], "A2": ["h"]}, linear_constraints=["h <= 0.5"]),
    "matrix": dict(left_inequality=np.array([[1.0, -1.0, 0.0], [0.0, 0.0, 1.0]]), right_inequality=np.array([-0.1, 0.35])),
    "return": dict(min_return=None),
}  # fmt: skip


def cases(tier):
    data = range(3) if tier == "quick" else range(6)
    g = 8 if tier == "quick" else 16
    for r in vm.RISKS:
        for k in data:
            for first in range(g + 1):
                yield ["split", r, k, g, first]
        for d in (2, 3, 4, 5):
            yield ["default", r, d]
        yield ["scale", r]
        for c in CONS:
            yield ["constraint", r, c]
        yield ["costs", r]
    yield ["prior"]
    yield ["forms"]
    yield ["refuse"]


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + case[0]](ctx, *case[1:])
    ctx.trace()
    ctx.outcome(case[0])


@functools.lru_cache
def _data(k=0, d=3):
    n = 14
    x = returns(51 + k, n, d, scale=0.05)
    x[0] = np.abs(x[0])
    x += 0.004 - x.mean(axis=0) * 0.5
    x[:, 0] *= 1.8  # one asset much riskier than the others
    if k == 1:
        x[:, 1] = 0.5 * x[:, 1] + 0.7 * x[:, 0]  # strongly related
    if k == 2:
        x[:, 2] = 0.6 * x[:, 2] - 0.3 * x[:, 0]  # hedge
    x[0] = np.abs(x[0])
    return pd.DataFrame(
        x, index=pd.date_range("2021-01-04", periods=n, freq="B"), columns=names(d)
    )


def _fit(r, X, **kw):
    import cvxpy as cp
    from skfolio import RiskMeasure
    from skfolio.optimization import RiskBudgeting

    last = None
    for params in (None, dict(tol_gap_abs=1e-7, tol_gap_rel=1e-7)):
        m = RiskBudgeting(
            risk_measure=RiskMeasure[r.upper()], solver_params=params, **BETAS, **kw
        )
        try:
            return m.fit(X)
        except cp.SolverError as e:
            last = e
    raise last


def _risk(r, X, W):
    """Risk of the columns of weights W."""
    v = vm.measure(r, np.asarray(X) @ W, beta=BETAS.get(vm.BETA.get(r), 0.95))
    return np.sqrt(v) if r in ("variance", "semi_variance") else v


def _gap(r, X, W, b):
    """What risk budgeting minimises: risk per unit of geometric mean weight."""
    b = np.asarray(b, float) / np.sum(b)
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.log(_risk(r, X, W)) - np.where(b[:, None] > 0, b[:, None] * np.log(W), 0).sum(axis=0)


def _shares(r, X, w, h=1e-6):
    E = np.eye(len(w)) * h
    g = (_risk(r, X, w[:, None] + E) - _risk(r, X, w[:, None] - E)) / (2 * h)
    c = g * w
    return c / c.sum()


def _grid(d, n):
    return np.array(list(simplex_grid(d, n)), float).T


@functools.lru_cache
def _near(d):
    """Directions around a portfolio."""
    D = np.array([v for v in itertools.product((-1, 0, 1), repeat=d) if any(v)], float)
    D -= D.mean(axis=1, keepdims=True)
    return D[np.abs(D).max(axis=1) > 0].T


def _optimal(ctx, r, X, w, b, what, feasible=None, budget=1.0):
    """No feasible portfolio splits risk better."""
    d = len(w)
    G = _grid(d, 20 if d <= 3 else 8)
    G = G[:, (G > 0).all(axis=0)]
    cand = [G * budget]
    for h in (0.05, 0.01, 0.002):
        cand.append(w[:, None] + h * _near(d))
    C = np.concatenate(cand, axis=1)
    C = C[:, (C > 1e-9).all(axis=0)]
    if feasible is not None:
        C = C[:, np.array([feasible(c) for c in C.T], bool)]
        if not C.shape[1]:
            return
    with np.errstate(all="ignore"):
        R = _risk(r, X, C)
        C = C[:, R > 0]
        best = _gap(r, X, C, b)
    here = _gap(r, X, np.maximum(w, 1e-12)[:, None], b)[0]
    i = int(np.nanargmin(best))
    ctx.expect(
        here <= best[i] + 2e-4,
        "optimal",
        lambda: f"{what}: {w} splits risk worse ({here}) than {C[:, i]} ({best[i]})",
    )


def do_split(ctx, r, k, g, first):
    from skfolio import Portfolio, RiskMeasure

    X = _data(k)
    for second in range(g - first + 1):
        b = np.array([first, second, g - first - second], float) / g
        if (b > 0).sum() < 2:
            continue
        m = _fit(r, X, risk_budget=b)
        w = m.weights_
        what = f"{r}, data {k}, budget {b}"
        ctx.expect(
            w.shape == (3,) and abs(w.sum() - 1) <= 1e-6 and (w >= -1e-8).all(),
            "allocation",
            lambda: f"{what}: weights {w}",
        )
        ctx.expect(
            (w[b > 0] > 1e-4).all(), "positive", lambda: f"{what}: weights {w}"
        )
        pos = b > 0
        if pos.all():
            _optimal(ctx, r, X, w, b, what)
        else:
            # an asset without risk budget takes part in no risk: it is not held
            # unless holding it removes risk
            c = _shares(r, X, np.maximum(w, 1e-12)) if r in SMOOTH else None
            if c is not None:
                ctx.expect(
                    np.abs(c - b).max() <= 0.01,
                    "shares",
                    lambda: f"{what}: shares {c} with weights {w}",
                )
        if r in SMOOTH and pos.all():
            s = _shares(r, X, w)
            ctx.expect(
                np.abs(s - b).max() <= 4e-3,
                "shares",
                lambda: f"{what}: shares {s} with weights {w}",
            )
            p = Portfolio(X, w, evar_beta=0.7, compounded=False)
            c = p.contribution(RiskMeasure[r.upper()])
            c = c / c.sum()
            ctx.expect(
                np.abs(c - b).max() <= 6e-3,
                "contribution",
                lambda: f"{what}: contributions {c} with weights {w}",
            )
        ctx.state(r, k, tuple(b))
        ctx.step()


def do_default(ctx, r, d):
    for k in (0, 3, 4):
        X = _data(k, d)
        w = _fit(r, X).weights_
        what = f"{r}, {d} assets, data {k}, default budget"
        ctx.expect(
            w.shape == (d,) and abs(w.sum() - 1) <= 1e-6 and (w > 1e-4).all(),
            "allocation",
            lambda: f"{what}: weights {w}",
        )
        b = np.full(d, 1 / d)
        _optimal(ctx, r, X, w, b, what)
        w1 = _fit(r, X, risk_budget=b).weights_
        ctx.expect(
            np.abs(w - w1).max() <= 3e-3, "default", lambda: f"{what}: {w}, equal budgets {w1}"
        )
        if r in SMOOTH:
            s = _shares(r, X, w)
            ctx.expect(np.abs(s - b).max() <= 4e-3, "shares", lambda: f"{what}: shares {s}")
        ctx.state(r, d, k)
        ctx.step(2)


def do_scale(ctx, r):
    X = _data(0)
    for b in ([0.5, 0.3, 0.2], [0.15, 0.25, 0.6]):
        b = np.array(b)
        ref = _fit(r, X, risk_budget=b).weights_
        for kb in (0.2, 0.5, 2.0, 10.0):
            w = _fit(r, X, risk_budget=b * kb).weights_
            ctx.expect(
                np.abs(w - ref).max() <= 4e-3,
                "budget-scale",
                lambda: f"{r}: budget {b} gives {ref}, times {kb} gives {w}",
            )
            ctx.state(r, tuple(b), "budget", kb)
        for kx in (0.2, 0.5, 2.0):
            w = _fit(r, X * kx, risk_budget=b).weights_
            ctx.expect(
                np.abs(w - ref).max() <= 4e-3,
                "return-scale",
                lambda: f"{r}: weights {ref}, with returns times {kx} {w}",
            )
            ctx.state(r, tuple(b), "returns", kx)
        # riskier asset gets proportionally less
        Y = X.copy()
        Y["A1"] *= 2
        w = _fit(r, Y, risk_budget=b).weights_
        want = ref * [1, 0.5, 1]
        want = want / want.sum()
        ctx.expect(
            np.abs(w - want).max() <= 4e-3,
            "asset-scale",
            lambda: f"{r}: weights {w} with one asset doubled, expected {want}",
        )
        ctx.step(8)


def do_constraint(ctx, r, cons):
    for k, b in itertools.product((0, 2), ([1, 1, 1], [0.5, 0.2, 0.3])):
        X = _data(k)
        kw = dict(CONS[cons])
        if cons == "return":
            free = _fit(r, X, risk_budget=b).weights_
            mu = X.mean().to_numpy()
            kw["min_return"] = float(0.6 * (mu @ free) + 0.4 * mu.max())
        w = _fit(r, X, risk_budget=b, **kw).weights_
        what = f"{r}, data {k}, budget {b}, {cons}"
        total = kw.get("budget", 1.0)

        def ok(v, tol=0.0, cons=cons, kw=kw, X=X, total=total):
            res = [abs(v.sum() - total) <= 1e-6 + tol, (v >= -tol).all()]
            if cons == "max":
                res.append((v <= 0.4 + tol).all())
            elif cons == "min":
                res.append((v >= np.array([0.3, 0.1, 0.35]) - tol).all())
            elif cons == "both":
                res.append(v[1] >= 0.4 - tol and v[0] <= 0.25 + tol)
            elif cons == "linear":
                res.append(v[0] >= 1.5 * v[2] - tol)
            elif cons == "groups":
                res.append(v[1] + v[2] <= 0.5 + tol)
            elif cons == "matrix":
                res.append(v[0] - v[1] <= -0.1 + tol and v[2] <= 0.35 + tol)
            elif cons == "return":
                res.append(X.mean().to_numpy() @ v >= kw["min_return"] - tol * 0.1)
            return all(res)

        ctx.expect(ok(w, 2e-5), "constraint", lambda: f"{what}: weights {w}")
        _optimal(ctx, r, X, w, b, what, feasible=ok, budget=total)
        ctx.state(r, cons, k, tuple(b))
        ctx.step()


def do_costs(ctx, r):
    """Costs enter the risk of the invested portfolio, not of its scaled version."""
    X = _data(0)
    tc, prev = np.array([0.01, 0.002, 0.02]), np.array([0.2, 0.5, 0.3])
    fee = np.array([0.001, 0.004, 0.0005])
    b = np.array([0.3, 0.3, 0.4])
    a = _fit(r, X, risk_budget=b, transaction_costs=tc, previous_weights=prev).weights_
    a5 = _fit(r, X, risk_budget=b * 5, transaction_costs=tc, previous_weights=prev).weights_
    ctx.expect(
        abs(a.sum() - 1) <= 1e-6 and np.abs(a - a5).max() <= 4e-3,
        "budget-scale",
        lambda: f"{r} with transaction costs: {a}, budget times 5 {a5}",
    )
    if r not in ("evar",):
        # fees take the same amount from every observation
        f = _fit(r, X, risk_budget=b, management_fees=fee).weights_
        g = _fit(r, X - fee, risk_budget=b).weights_
        plain = r not in (
            "mean_absolute_deviation", "first_lower_partial_moment", "variance",
            "standard_deviation", "semi_variance", "semi_deviation", "gini_mean_difference",
        )  # fmt: skip
        if plain:
            ctx.expect(
                np.abs(f - g).max() <= 5e-3,
                "fees",
                lambda: f"{r} with fees: {f}, fees taken from the returns {g}",
            )
    net = np.asarray(X)
    if r in ("cvar", "worst_realization", "max_drawdown", "average_drawdown", "cdar", "edar", "ulcer_index"):
        # the risk of w is that of returns net of costs, extended to any scale
        def gap(C):
            cost = np.abs(prev[:, None] * C.sum(axis=0) - C).T @ tc
            R = vm.measure(r, net @ C - cost, beta=BETAS.get(vm.BETA.get(r), 0.95))
            return np.log(np.maximum(R, 1e-12)) - (b / b.sum()) @ np.log(C)

        G = _grid(3, 40)
        G = G[:, (G > 0).all(axis=0)]
        C = np.concatenate([G] + [a[:, None] + h * _near(3) for h in (0.05, 0.01)], axis=1)
        C = C[:, (C > 1e-6).all(axis=0)]
        best = gap(C)
        i = int(best.argmin())
        here = gap(a[:, None])[0]
        ctx.expect(
            here <= best[i] + 1e-3,
            "optimal",
            lambda: f"{r} with costs: {a} splits risk worse ({here}) than {C[:, i]} ({best[i]})",
        )
    ctx.state(r, "costs")
    ctx.step(4)


def do_prior(ctx):
    """The split refers to the covariance of the prior in use."""
    from skfolio.moments import LedoitWolf, ShrunkCovariance
    from skfolio.prior import EmpiricalPrior

    for k in range(4):
        for cov in (LedoitWolf(), ShrunkCovariance(shrinkage=0.6)):
            for b in ([1, 1, 1], [0.6, 0.1, 0.3]):
                for r in ("variance", "standard_deviation"):
                    m = _fit(
                        r,
                        _data(k),
                        risk_budget=b,
                        prior_estimator=EmpiricalPrior(covariance_estimator=cov),
                    )
                    S = m.prior_estimator_.prior_model_.covariance
                    w = m.weights_
                    c = w * (S @ w)
                    c = c / c.sum()
                    want = np.array(b) / np.sum(b)
                    ctx.expect(
                        np.abs(c - want).max() <= 2e-3,
                        "prior",
                        lambda: f"{r} with {cov}, budget {b}: shares {c}",
                    )
                    ctx.state(k, str(cov), tuple(b), r)


def do_forms(ctx):
    X = _data(0)
    for b in itertools.product((0.1, 0.3, 0.6), repeat=3):
        ref = _fit("variance", X, risk_budget=np.array(b)).weights_
        rev = dict(reversed(list(zip(X.columns, b))))
        for form in (list(b), tuple(b), dict(zip(X.columns, b)), rev):
            w = _fit("variance", X, risk_budget=form).weights_
            ctx.expect(
                np.abs(w - ref).max() <= 1e-6,
                "forms",
                lambda: f"budget {form}: {w}, as array {ref}",
            )
        part = {c: v for c, v in zip(X.columns[:2], b)}
        w = _fit("variance", X, risk_budget=part).weights_
        s = _shares("variance", X, np.maximum(w, 1e-12))
        want = np.array([b[0], b[1], 0]) / (b[0] + b[1])
        ctx.expect(
            np.abs(s - want).max() <= 5e-3,
            "partial",
            lambda: f"budget {part}: shares {s} with weights {w}",
        )
        ctx.state(b)


def do_refuse(ctx):
    from skfolio import RatioMeasure
    from skfolio.optimization import RiskBudgeting

    X = _data(0)
    bad = {
        "measure": dict(risk_measure=RatioMeasure.SHARPE_RATIO),
        "short": dict(min_weights=-0.1),
        "short list": dict(min_weights=[0, -0.2, 0]),
        "too many": dict(risk_budget=[1, 1, 1, 1]),
        "too few": dict(risk_budget=[1, 1]),
        "impossible": dict(max_weights=0.2),
        "crossed": dict(min_weights=0.5, max_weights=0.4),
        "names": dict(risk_budget={"A0": 1.0, "A1": 1.0}, X=X.to_numpy()),
    }
    for name, kw in bad.items():
        Z = kw.pop("X", X)
        try:
            m = RiskBudgeting(**kw).fit(Z)
            ctx.fail("refusal", f"{name}: accepted with weights {m.weights_}")
        except (ValueError, TypeError, KeyError):
            pass
        except Exception as e:  # solver errors have no common base
            ctx.expect(
                type(e).__name__ == "SolverError", "refusal", lambda: f"{name}: {e!r}"
            )
        ctx.state(name)
