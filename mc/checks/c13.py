"""C13: per-asset settings as number, sequence or mapping give the same model."""

import itertools

import numpy as np
from skfolio import RiskMeasure
from skfolio import distribution as ds
from skfolio import moments as mo
from skfolio import optimization as op
from skfolio.optimization import ObjectiveFunction as OF
from skfolio.portfolio import Portfolio
from skfolio.prior import BlackLitterman

from mc import catalog
from mc.lib import frame, returns

PROPERTY = "C13"
BOUNDS = {
    "quick": "3 assets; all value vectors over a 3-value grid for every per-asset setting of 8 model families; list, "
    "tuple, array, number, mappings in all key orders and with every omission of defaults; wrong sizes and NaN",
    "thorough": "as quick on two data sets and with 4-value grids",
}
K = 3
A = ["A0", "A1", "A2"]


def X(seed=5, n=14):
    return frame(returns(seed, n, K))


TC = dict(transaction_costs=[0.002, 0.0, 0.004])
PREV = dict(previous_weights=[0.2, 0.5, 0.3])
MEAN_RISK = dict(
    min_weights=(dict(), [0.0, 0.1, 0.3], 0.0),
    max_weights=(dict(), [0.4, 0.6, 1.0], 1.0),
    transaction_costs=(dict(objective_function=OF.MAXIMIZE_UTILITY, **PREV), [0.0, 0.001, 0.01], 0.0),
    management_fees=(dict(objective_function=OF.MAXIMIZE_UTILITY, l2_coef=0.001), [0.0, 0.0005, 0.002], 0.0),
    previous_weights=(dict(max_turnover=0.3, min_weights=-1), [0.0, 0.2, 0.5], 0.0),
)
CARD = dict(
    threshold_long=(dict(solver="SCIP"), [0.0, 0.2, 0.4], 0.0),
    threshold_short=(dict(solver="SCIP", min_weights=-1, threshold_long=0.1), [0.0, -0.2, -0.4], 0.0),
)
OTHER = dict(
    min_weights=(dict(), [0.0, 0.1, 0.3], 0.0),
    max_weights=(dict(), [0.4, 0.6, 1.0], 1.0),
    transaction_costs=(dict(**PREV), [0.0, 0.001, 0.01], 0.0),
    management_fees=(dict(), [0.0, 0.0005, 0.002], 0.0),
    previous_weights=(dict(**TC), [0.0, 0.2, 0.5], 0.0),
)
MODELS = {
    "MeanRisk": (lambda **kw: op.MeanRisk(**kw), MEAN_RISK),
    "MeanRisk-ratio": (lambda **kw: op.MeanRisk(**{**kw, "objective_function": OF.MAXIMIZE_RATIO}), MEAN_RISK),
    "MeanRisk-mip": (lambda **kw: op.MeanRisk(**kw), CARD),
    "RiskBudgeting": (
        lambda **kw: op.RiskBudgeting(**kw),
        {**OTHER, "risk_budget": (dict(), [0.0, 1.0, 2.0], 0.0)},
    ),
    "MaximumDiversification": (lambda **kw: op.MaximumDiversification(**kw), OTHER),
    "DistributionallyRobustCVaR": (
        lambda **kw: op.DistributionallyRobustCVaR(cvar_beta=0.7, wasserstein_ball_radius=0.01, **kw),
        {k: OTHER[k] for k in ("min_weights", "max_weights")},
    ),
    "HRP": (lambda **kw: op.HierarchicalRiskParity(**kw), OTHER),
    "HERC": (lambda **kw: op.HierarchicalEqualRiskContribution(risk_measure=RiskMeasure.CVAR, **kw), OTHER),
    "BenchmarkTracker": (lambda **kw: op.BenchmarkTracker(**kw), {k: MEAN_RISK[k] for k in ("min_weights", "max_weights")})
    if hasattr(op, "BenchmarkTracker")
    else None,
}
MODELS = {k: v for k, v in MODELS.items() if v}


def cases(tier):
    for seed in (5,) if tier == "quick" else (5, 6):
        for m, (_, settings) in MODELS.items():
            for s in settings:
                levels = list(settings[s][1])
                if tier == "thorough":
                    levels.append(sum(levels) / 3.7)
                for v in itertools.product(levels, repeat=K):
                    yield ["model", m, s, list(v), seed]
        for m in ("MeanRisk", "RiskBudgeting", "MaximumDiversification", "BlackLitterman"):
            for i in range(len(TABLES)):
                yield ["groups", m, i, seed]
        for first in (0.0, 0.3, 0.5):
            yield ["portfolio", first, seed]
        yield ["implied", seed]
        yield ["vine", seed]
    for m, (_, settings) in MODELS.items():
        for s in settings:
            yield ["refuse", m, s]


def forms(v, default, full=True):
    """Every accepted way of writing the vector v."""
    yield "list", list(v)
    yield "tuple", tuple(v)
    yield "array", np.array(v, dtype=float)
    if all(float(x).is_integer() for x in v):
        yield "ints", [int(x) for x in v]
    if len(set(v)) == 1:
        yield "number", v[0]
        yield "np-number", np.float64(v[0])
    if all(x == default for x in v):
        yield "empty", {}
    for order in itertools.permutations(range(K)):
        yield f"dict{order}", {A[i]: v[i] for i in order}
    spare = [i for i in range(K) if v[i] == default]
    for n in range(1, len(spare) + 1):
        for drop in itertools.combinations(spare, n):
            yield f"omit{drop}", {A[i]: v[i] for i in reversed(range(K)) if i not in drop}
    yield "extra", {"ZZ": 0.77, **{A[i]: v[i] for i in range(K)}}


def solve(build, setting, value, extra, data):
    try:
        model = build(**{**extra, setting: value})
        model.fit(data)
        ptf = model.predict(data)
    except Exception as e:
        return type(e).__name__
    out = [model.weights_, ptf.weights, ptf.returns, [ptf.total_cost, ptf.total_fee, ptf.mean, ptf.variance]]
    return [np.asarray(x, dtype=float) for x in out]


def same(a, b, tol=2e-6):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str)
    return all(x.shape == y.shape and np.allclose(x, y, rtol=0, atol=tol) for x, y in zip(a, b))


def model(m, s, v, seed, ctx):
    build, settings = MODELS[m]
    extra, _, default = settings[s]
    data = X(seed)
    if s == "risk_budget" and not any(v):
        return
    want = None
    for name, value in forms(v, default):
        if s == "risk_budget" and name in ("number", "np-number", "empty"):
            continue
        keep = repr(value)
        got = solve(build, s, value, extra, data)
        ctx.step()
        if want is None:
            want = got
        # one number for all assets is another numerical problem with the same solution
        tol = 2e-6 if "number" not in name else 5e-3 if m in ("MeanRisk-ratio", "MaximumDiversification") else 1e-4
        ctx.expect(same(got, want, tol), "form", lambda: (m, s, v, name, got[0], want[0]))
        ctx.expect(repr(value) == keep, "modified", lambda: (m, s, v, name, value))
        ctx.trace()
    # the setting must matter: the costs, fees and bounds themselves are those asked for
    if not isinstance(want, str):
        w, v_ = want[0], np.array(v)
        if s == "min_weights":
            ctx.expect(np.all(w >= v_ - 1e-5), "min", lambda: (m, v, w))
        if s == "max_weights":
            ctx.expect(np.all(w <= v_ + 1e-5), "max", lambda: (m, v, w))
        cost, fee = want[3][:2]
        if s == "transaction_costs":
            ctx.expect(np.isclose(cost, v_ @ np.abs(w - PREV["previous_weights"]), atol=1e-9), "cost", lambda: (m, v, w, cost))
        if s == "management_fees":
            ctx.expect(np.isclose(fee, v_ @ w, atol=1e-9), "fee", lambda: (m, v, w, fee))
        if s == "previous_weights" and "transaction_costs" in extra:
            ctx.expect(np.isclose(cost, extra["transaction_costs"] @ np.abs(w - v_), atol=1e-9), "previous", lambda: (m, v, cost))
        if s == "previous_weights" and "max_turnover" in extra:
            ctx.expect(np.abs(w - v_).max() <= 0.3 + 1e-5, "turnover", lambda: (m, v, w))
        if s == "threshold_long":
            ctx.expect(all(x < 1e-5 or x >= t - 1e-5 for x, t in zip(w, v)), "threshold", lambda: (m, v, w))
    ctx.state(m, s, v)
    ctx.outcome("refused" if isinstance(want, str) else "solved")


TABLES = [
    [["X", "Y", "X"]],
    [["X", "Y", "X"], ["u", "u", "v"]],
    [["X", "", "X"]],
    [["X", "", "Y"], ["u", "", "v"]],
    [["X", "X", "Y"], ["", "u", "v"]],
]


def groups(m, i, seed, ctx):
    table = TABLES[i]
    data = X(seed)
    constraint = ["X <= 0.4", "A1 >= 0.2"]
    want = None
    arrays = [[A, *table]]
    fs = [("list", arrays[0]), ("array", np.array(arrays[0])), ("tuple", tuple(map(tuple, arrays[0])))]
    for order in itertools.permutations(range(K)):
        fs.append((f"dict{order}", {A[j]: [row[j] for row in table] for j in order}))
        if all(row[j] == "" for row in table for j in [1]):
            fs.append((f"omit{order}", {A[j]: [row[j] for row in table] for j in order if j != 1}))
        if len(table) == 1:
            fs.append((f"scalar{order}", {A[j]: table[0][j] for j in order if table[0][j] != ""}))
    for name, value in fs:
        keep = repr(value)
        ctx.step()
        if m == "BlackLitterman":
            got = BlackLitterman(views=["X - A1 == 0.01", "A0 == 0.002"], groups=value).fit(data)
            got = [got.picking_matrix_, got.views_, got.prior_model_.mu, got.prior_model_.covariance]
        else:
            got = solve(lambda **kw: getattr(op, m)(**kw), "groups", value, dict(linear_constraints=constraint), data)
            ctx.expect(not isinstance(got, str), "groups-refused", lambda: (m, value, got))
            w = got[0]
            members = [j for j in range(K) if table[0][j] == "X"]
            ctx.expect(w[members].sum() <= 0.4 + 1e-5 and w[1] >= 0.2 - 1e-5, "groups-constraint", lambda: (m, value, w))
        if want is None:
            want = got
        ctx.expect(same(got, want), "groups-form", lambda: (m, name, value, got, want))
        ctx.expect(repr(value) == keep, "groups-modified", lambda: (m, name))
        ctx.state(m, i, name)
    ctx.trace()
    ctx.outcome("groups")


def portfolio(first, seed, ctx):
    data = X(seed)
    grid = [0.0, 0.3, 0.5]
    for rest in itertools.product(grid, repeat=2):
        v = [first, *rest]
        base = dict(weights=[0.2, 0.3, 0.5], **PREV, **TC, management_fees=[0.001, 0.0, 0.002])
        for s, default in (("weights", 0.0), ("previous_weights", 0.0), ("transaction_costs", 0.0), ("management_fees", 0.0)):
            want = None
            for name, value in forms(v, default):
                if s == "weights" and name in ("number", "np-number"):
                    continue
                p = Portfolio(X=data, **{**base, s: value})
                got = [p.weights, p.returns, [p.total_cost, p.total_fee, p.mean]]
                got = [np.asarray(x, dtype=float) for x in got]
                ctx.step()
                if want is None:
                    want = got
                ctx.expect(same(got, want), "portfolio-form", lambda: (s, v, name, got, want))
            w = np.array(v if s == "weights" else base["weights"])
            prev = np.array(v if s == "previous_weights" else base["previous_weights"])
            tc = np.array(v if s == "transaction_costs" else base["transaction_costs"])
            fee = np.array(v if s == "management_fees" else base["management_fees"])
            ctx.expect(
                np.isclose(want[2][0], tc @ np.abs(w - prev)) and np.isclose(want[2][1], fee @ w),
                "portfolio-value",
                lambda: (s, v, want),
            )
            for bad in (v[:2], [*v, 0.1], [v], {**dict(zip(A, v)), "A1": np.nan}, [v[0], np.nan, v[2]]):
                try:
                    Portfolio(X=data, **{**base, s: bad})
                    ctx.fail("portfolio-accepted", (s, bad))
                except (ValueError, TypeError):
                    ctx.step()
        ctx.state(v)
    ctx.trace()
    ctx.outcome("portfolio")


def implied(seed, ctx):
    data, _, vol = catalog.data(seed, 40, K)
    for v in itertools.product((1.0, 1.5, 2.0), repeat=K):
        want = None
        for name, value in forms(v, None):
            est = mo.ImpliedCovariance(volatility_risk_premium_adj=value, window_size=5)
            got = est.fit(data, implied_vol=vol).covariance_
            ctx.step()
            if want is None:
                want = got
            ctx.expect(np.allclose(got, want, rtol=1e-9), "implied-form", lambda: (v, name))
        ctx.expect(
            np.allclose(np.sqrt(np.diag(want)), np.asarray(vol)[-1] / np.sqrt(252) / np.array(v), rtol=1e-6),
            "implied-value",
            lambda: (v, np.sqrt(np.diag(want)), np.asarray(vol)[-1]),
        )
        for bad in (list(v[:2]), {A[0]: 1.0, A[1]: 2.0}, [1.0, np.nan, 1.0], [1.0, -1.0, 1.0]):
            try:
                mo.ImpliedCovariance(volatility_risk_premium_adj=bad, window_size=5).fit(data, implied_vol=vol)
                ctx.fail("implied-accepted", bad)
            except ValueError:
                ctx.step()
        ctx.state(v)
    ctx.trace()
    ctx.outcome("implied")


def vine(seed, ctx):
    data = X(seed, 30)
    for v in itertools.product((False, True), repeat=K):
        want = None
        fs = [("list", list(v)), ("array", np.array(v))]
        fs += [(f"dict{o}", {A[i]: v[i] for i in o}) for o in itertools.permutations(range(K))]
        fs += [("omit", {A[i]: True for i in range(K) if v[i]})]
        if len(set(v)) == 1:
            fs.append(("bool", v[0]))
        for name, value in fs:
            est = ds.VineCopula(
                log_transform=value, max_depth=2, random_state=0, marginal_candidates=[ds.Gaussian()],
                copula_candidates=[ds.GaussianCopula()],
            ).fit(data)  # fmt: skip
            got = est.sample(20)
            ctx.step()
            if want is None:
                want = got
            ctx.expect(np.allclose(got, want, atol=1e-12), "vine-form", lambda: (v, name))
            for i, d in enumerate(est.marginal_distributions_):
                x = np.log1p(data.iloc[:, i]) if v[i] else data.iloc[:, i]
                ctx.expect(np.isclose(d.loc_, x.mean(), atol=1e-9), "vine-value", lambda: (v, name, i))
        ctx.state(v)
    ctx.trace()
    ctx.outcome("vine")


def refuse(m, s, ctx):
    build, settings = MODELS[m]
    extra, levels, default = settings[s]
    data = X()
    good = levels[0] if s != "risk_budget" else 1.0
    bad = [
        ("short", [good] * (K - 1)),
        ("long", [good] * (K + 1)),
        ("2d", [[good] * K]),
        ("2d-column", [[good]] * K),
        ("nan", [good, np.nan, good]),
        ("nan-dict", {A[0]: np.nan}),
        ("nan-number", np.nan),
    ]
    for name, value in bad:
        if m in ("HRP", "HERC", "RiskBudgeting", "MaximumDiversification") and name == "nan-number" and s not in ("min_weights", "max_weights"):
            continue
        got = solve(build, s, value, extra, data)
        ctx.step()
        ctx.expect(isinstance(got, str), "accepted", lambda: (m, s, name, got[0]))
    got = solve(build, s, {A[0]: levels[1]}, extra, np.asarray(data))
    ctx.expect(isinstance(got, str), "dict-without-names", lambda: (m, s, got))
    ctx.state(m, s)
    ctx.trace()
    ctx.outcome("refuse")


def run_case(case, ctx):
    dict(model=model, groups=groups, portfolio=portfolio, implied=implied, vine=vine, refuse=refuse)[case[0]](
        *case[1:], ctx
    )
