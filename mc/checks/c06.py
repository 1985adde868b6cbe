"""C06: accounting of weights, costs and fees."""

import itertools
import operator

import numpy as np
import pandas as pd
from skfolio.measures import ExtraRiskMeasure, PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.portfolio import MultiPeriodPortfolio, Portfolio

from mc.lib import close, dates, same_value

PROPERTY = "C06"
BOUNDS = {
    "quick": "3 assets; weights in {-0.5,0,0.25,1}^3 x previous weights (4 forms) x costs "
    "(6 forms) x fees (6 forms) x data as frame/array; all pairs of 20 weight vectors for the "
    "operators; all single-field malformations",
    "thorough": "as quick with 4 assets and weights in {-0.5,0,0.25,1}^4, all pairs of 64 "
    "weight vectors",
}
LEVELS = [-0.5, 0.0, 0.25, 1.0]
COLS = ["B", "A", "D", "C"]
R = np.array(
    [
        [0.01, -0.02, 0.005, 0.003],
        [-0.03, 0.01, 0.002, -0.011],
        [0.02, 0.015, -0.012, 0.007],
        [-0.01, -0.025, 0.004, 0.013],
    ]
)
UNIT = [0.01, 0.003, 0.02, 0.007]
PREV = [0.3, -0.2, 0.9, 0.1]


def settings(k):
    """(name, given value with frame, value as list) for previous weights, costs and fees."""
    full = dict(zip(COLS[:k], UNIT, strict=False))
    part = {c: v for c, v in full.items() if c != COLS[1]}
    costs = [
        ("none", None, [0.0] * k),
        ("zero", 0, [0.0] * k),
        ("number", 0.01, [0.01] * k),
        ("array", np.array(UNIT[:k]), UNIT[:k]),
        ("mapping", dict(reversed(full.items())), UNIT[:k]),
        ("partial", part, [part.get(c, 0.0) for c in COLS[:k]]),
    ]
    pw = dict(zip(COLS[:k], PREV, strict=False))
    prevs = [
        ("none", None, [0.0] * k),
        ("number", 0.25, [0.25] * k),
        ("list", PREV[:k], PREV[:k]),
        ("mapping", dict(sorted(pw.items())), PREV[:k]),
        ("partial", {COLS[0]: 0.3, "ZZ": 5.0}, [0.3] + [0.0] * (k - 1)),
    ]
    return costs, prevs


def data(k, form):
    if form == "frame":
        return pd.DataFrame(R[:, :k], index=dates(len(R)), columns=COLS[:k])
    return R[:, :k]


def net(w, prev, costs, fees, k):
    cost = sum(c * abs(a - b) for c, a, b in zip(costs, w, prev, strict=True))
    fee = sum(f * a for f, a in zip(fees, w, strict=True))
    rets = [sum(w[i] * R[t, i] for i in range(k)) - cost - fee for t in range(len(R))]
    return cost, fee, rets


def cases(tier):
    k = 3 if tier == "quick" else 4
    for w in itertools.product(LEVELS, repeat=k):
        yield ["net", k, list(w)]
    base = list(itertools.product(LEVELS, repeat=3))
    pick = base[::3] if tier == "quick" else base
    for a in pick:
        yield ["ops", list(a), tier]
    yield ["malformed"]
    yield ["multi"]
    for w in itertools.product([0, 1, 2, -1], repeat=3):
        yield ["report", [float(x) / 2 for x in w], "float"]
        yield ["report", list(w), "int"]


def net_case(k, w, ctx):
    costs, prevs = settings(k)
    for form in ("frame", "array"):
        for (cn, cv, cl), (fn, fv, fl), (pn, pv, pl) in itertools.product(costs, costs, prevs):
            if form == "array" and any(isinstance(x, dict) for x in (cv, fv, pv)):
                continue
            ww = w if form == "array" else dict(zip(COLS[:k], w, strict=True))
            p = Portfolio(
                X=data(k, form), weights=ww, transaction_costs=cv, management_fees=fv,
                previous_weights=pv,
            )  # fmt: skip
            cost, fee, rets = net(w, pl, cl, fl, k)
            what = dict(w=w, costs=cn, fees=fn, prev=pn, form=form)
            ctx.step()
            ctx.expect(close(p.returns, rets), "returns", lambda: (what, p.returns, rets))
            ctx.expect(close(p.total_cost, cost), "total-cost", lambda: (what, p.total_cost, cost))
            ctx.expect(close(p.total_fee, fee), "total-fee", lambda: (what, p.total_fee, fee))
            ctx.expect(close(p.weights, w), "weights", what)
            ctx.expect(close(p.previous_weights, pl), "previous", what)
            mu = np.arange(1, k + 1) / 100
            ctx.expect(
                close(p.expected_returns_from_assets(mu), float(np.dot(w, mu)) - cost - fee),
                "expected-returns",
                what,
            )
            ctx.state(w, cn, fn, pn, form)
        ctx.trace()
    ctx.outcome("net")


KEEP = ("risk_free_rate", "annualized_factor", "compounded", "min_acceptable_return",
        "value_at_risk_beta", "entropic_risk_measure_theta", "entropic_risk_measure_beta",
        "cvar_beta", "evar_beta", "drawdown_at_risk_beta", "cdar_beta", "edar_beta",
        "fitness_measures", "name", "tag")  # fmt: skip


def rich(w, **kw):
    args = dict(
        X=data(3, "frame"), weights=w, transaction_costs=0.01, management_fees=np.array([0.01, 0, 0.02]),
        previous_weights=[0.2, 0.3, 0.5], risk_free_rate=0.002, annualized_factor=12.0,
        compounded=True, min_acceptable_return=0.001, value_at_risk_beta=0.7,
        entropic_risk_measure_theta=0.4, entropic_risk_measure_beta=0.8, cvar_beta=0.75,
        evar_beta=0.65, drawdown_at_risk_beta=0.6, cdar_beta=0.55, edar_beta=0.85,
        fitness_measures=[PerfMeasure.MEAN, RiskMeasure.CDAR], name="n", tag="t",
    )  # fmt: skip
    args.update(kw)
    return Portfolio(**args)


def expect_weights(ctx, got, w, what, **kw):
    ctx.step()
    want = rich(list(w), **kw)
    ctx.expect(isinstance(got, Portfolio), "type", what)
    ctx.expect(close(got.weights, want.weights), "op-weights", lambda: (what, got.weights, w))
    ctx.expect(close(got.returns, want.returns), "op-returns", lambda: (what, got.returns, want.returns))
    for k in KEEP:
        ctx.expect(getattr(got, k) == getattr(want, k), "op-setting", lambda: (what, k, getattr(got, k)))
    for k in ("transaction_costs", "management_fees", "previous_weights", "total_cost", "total_fee"):
        ctx.expect(close(getattr(got, k), getattr(want, k)), "op-cost", (what, k))
    ctx.expect(list(got.assets) == list(want.assets), "op-assets", what)
    ctx.expect(close(got.max_drawdown, want.max_drawdown), "op-measure", what)


def ops_case(a, tier, ctx):
    base = list(itertools.product(LEVELS, repeat=3))
    p = rich(a)
    keep = np.array(p.weights)
    A = np.array(a)
    expect_weights(ctx, -p, -A, ["neg", a])
    expect_weights(ctx, abs(p), abs(A), ["abs", a])
    for n in (0, 1, 2):
        expect_weights(ctx, round(p * 1.237, n), np.round(A * 1.237, n), ["round", a, n])
    for s in (2, 0.5, -1, 0, 3.25, np.float64(0.1), np.int64(3)):
        expect_weights(ctx, p * s, A * s, ["mul", a, float(s)])
        expect_weights(ctx, s * p if not isinstance(s, np.generic) else p * s, A * s, ["rmul", a, float(s)])
        if s != 0:
            expect_weights(ctx, p / s, A / s, ["div", a, float(s)])
            expect_weights(ctx, p // s, np.floor_divide(A, s), ["floordiv", a, float(s)])
    for b in base[1::3] if tier == "quick" else base:
        q = rich(list(b), name="other", tag="o")
        B = np.array(b)
        expect_weights(ctx, p + q, A + B, ["add", a, list(b)])
        expect_weights(ctx, p - q, A - B, ["sub", a, list(b)])
        ctx.state("pair", a, list(b))
    for m in (PerfMeasure.MEAN, RiskMeasure.CVAR, RiskMeasure.SEMI_VARIANCE, RiskMeasure.EVAR,
              RiskMeasure.VARIANCE, RatioMeasure.SORTINO_RATIO, ExtraRiskMeasure.ENTROPIC_RISK_MEASURE):  # fmt: skip
        h = 1e-4
        want = []
        for i in range(3):
            up, down = list(a), list(a)
            up[i] += h
            down[i] -= h
            d = getattr(rich(up), m.value) - getattr(rich(down), m.value)
            want.append(d / (2 * h) * a[i] if a[i] else 0.0)
        got = p.contribution(m, spacing=h)
        ctx.step()
        ctx.expect(close(got, want, rtol=1e-3, atol=1e-6), "contribution-settings", lambda: (a, m, got, want))
    ctx.expect(np.array_equal(p.weights, keep), "operand-changed", a)
    ctx.trace()
    ctx.outcome("ops")


def refused(ctx, f, what, errors=(TypeError, ValueError)):
    ctx.step()
    try:
        f()
    except errors:
        ctx.state("refused", str(what))
        return
    ctx.fail("not-refused", what)


def malformed_case(ctx):
    F, A = data(3, "frame"), data(3, "array")
    good = [0.2, 0.3, 0.5]
    bad_vec = {
        "short": [0.5, 0.5],
        "long": [0.1] * 4,
        "nan": [0.1, np.nan, 0.2],
        "matrix": [[0.1, 0.2, 0.3]],
    }
    for n, v in bad_vec.items():
        refused(ctx, lambda: Portfolio(X=F, weights=v), ["weights", n])
        refused(ctx, lambda: Portfolio(X=A, weights=v), ["weights-array", n])
        for f in ("previous_weights", "transaction_costs", "management_fees"):
            refused(ctx, lambda: Portfolio(X=F, weights=good, **{f: v}), [f, n])
    for f in ("weights", "previous_weights", "transaction_costs", "management_fees"):
        kw = dict(X=A, weights=good)
        kw[f] = {"B": 0.1}
        refused(ctx, lambda: Portfolio(**kw), ["mapping-without-names", f])
        for key in COLS[:3]:
            kw = dict(X=F, weights=good)
            kw[f] = {**dict.fromkeys(COLS[:3], 0.1), key: np.nan}
            refused(ctx, lambda: Portfolio(**kw), ["mapping-nan", f, key])
    refused(ctx, lambda: Portfolio(X=A[:, 0], weights=good), "one-dimensional")
    for t, i in itertools.product(range(4), range(3)):
        X = A.copy()
        X[t, i] = np.nan
        refused(ctx, lambda: Portfolio(X=X, weights=good), ["nan-data", t, i])
    # operators
    p = rich(good)
    for other in (1, 2.0, "x", None, [1], MultiPeriodPortfolio(portfolios=[p])):
        refused(ctx, lambda: p + other, ["add", str(type(other))])
        refused(ctx, lambda: p - other, ["sub", str(type(other))])
    for other in ("x", None, [1, 2, 3], np.array([1.0, 2.0]), p):
        for op in (operator.mul, operator.truediv, operator.floordiv):
            refused(ctx, lambda: op(p, other), [op.__name__, str(type(other))])
    changes = dict(
        X=data(3, "frame") * 2, transaction_costs=0.02, management_fees=0.3,
        previous_weights=[0.1, 0.3, 0.6], risk_free_rate=0.1, annualized_factor=1.0,
        compounded=False, min_acceptable_return=None, value_at_risk_beta=0.9,
        entropic_risk_measure_theta=0.9, entropic_risk_measure_beta=0.9, cvar_beta=0.9,
        evar_beta=0.9, drawdown_at_risk_beta=0.9, cdar_beta=0.9, edar_beta=0.9,
        fitness_measures=[PerfMeasure.MEAN],
    )  # fmt: skip
    for k, v in changes.items():
        q = rich(good, **{k: v})
        for op in (operator.add, operator.sub):
            refused(ctx, lambda: op(p, q), ["different", k, op.__name__])
    ctx.trace()


def multi_case(ctx):
    F = data(3, "frame")
    ws = [[0.5, 0.25, 0.25], [0.1, -0.3, 1.2]]
    vs = [[0.2, 0.2, 0.6], [0.0, 1.0, 0.0]]

    def build(ww):
        return MultiPeriodPortfolio(
            portfolios=[
                Portfolio(X=F.iloc[:2], weights=ww[0], transaction_costs=0.01),
                Portfolio(X=F.iloc[2:], weights=ww[1], management_fees=0.01),
            ],
            tag="tt",
            fitness_measures=[PerfMeasure.MEAN, RiskMeasure.CVAR],
        )

    m, n = build(ws), build(vs)
    A, B = np.array(ws), np.array(vs)
    results = [
        ("neg", -m, -A), ("abs", abs(m), abs(A)), ("round", round(m, 1), np.round(A, 1)),
        ("add", m + n, A + B), ("sub", m - n, A - B), ("mul", m * 2, A * 2), ("rmul", 2 * m, A * 2),
        ("mul-list", m * [2, 3], A * np.array([[2], [3]])), ("div", m / 4, A / 4),
        ("div-list", m / [2, 4], A / np.array([[2], [4]])), ("floordiv", m // 0.2, A // 0.2),
    ]  # fmt: skip
    for name, got, want in results:
        ref = build([list(want[0]), list(want[1])])
        ctx.step()
        ctx.expect(isinstance(got, MultiPeriodPortfolio), "multi-type", name)
        ctx.expect(close(got.returns, ref.returns), "multi-returns", (name, got.returns, ref.returns))
        ctx.expect([list(p.weights) for p in got] == [list(p.weights) for p in ref], "multi-weights", name)
        ctx.expect(list(got.observations) == list(ref.observations), "multi-observations", name)
        ctx.expect(got.tag == "tt" and got.fitness_measures == m.fitness_measures, "multi-settings", name)
        ctx.state("multi", name)
    short = MultiPeriodPortfolio(portfolios=[m[0]])
    for other in (short, 1, m[0], "x"):
        for op in (operator.add, operator.sub):
            refused(ctx, lambda: op(m, other), ["multi", op.__name__, str(type(other))])
    ctx.trace()


def report_case(w, kind, ctx):
    F = data(3, "frame")
    W = np.array(w, dtype=float)
    p = Portfolio(X=F, weights=np.array(w) if kind == "int" else w, name="p")
    what = [kind, w]
    nz = [i for i in range(3) if abs(W[i]) > 1e-5]
    ctx.step()
    ctx.expect(list(p.nonzero_assets_index) == nz, "nonzero-index", what)
    ctx.expect(list(p.nonzero_assets) == [COLS[i] for i in nz], "nonzero-assets", what)
    comp = p.composition
    ctx.expect(list(comp.columns) == ["p"], "composition-name", what)
    ctx.expect(
        {a: float(v) for a, v in comp["p"].items()} == {COLS[i]: W[i] for i in nz}
        and list(comp["p"]) == sorted(comp["p"], reverse=True),
        "composition",
        lambda: (what, comp),
    )
    wpo = p.weights_per_observation
    ctx.expect(
        list(wpo.columns) == [COLS[i] for i in nz]
        and list(wpo.index) == list(F.index)
        and (not nz or close(wpo.to_numpy(), np.tile(W[nz], (4, 1)))),
        "weights-per-observation",
        what,
    )
    for i, c in enumerate(COLS[:3]):
        ctx.expect(p.get_weight(c) == W[i], "get-weight", what)
    refused(ctx, lambda: p.get_weight("ZZ"), [what, "unknown asset"], (IndexError, KeyError))
    ctx.expect(p.n_assets == 3 and p.n_observations == 4, "sizes", what)
    ctx.expect(list(p.assets) == COLS[:3], "assets", what)
    ctx.expect(same_value(p.returns_df, pd.Series(R[:, :3] @ W, index=F.index)), "returns-df", what)
    C = np.array([[4.0, 1, 0.5], [1, 3, -0.2], [0.5, -0.2, 2]])
    ctx.expect(close(p.variance_from_assets(C), W @ C @ W), "variance-from-assets", what)
    if not nz:
        return
    ctx.expect(close(p.effective_number_assets, 1 / np.sum(W**2)), "effective-number", what)
    sd = np.std(R[:, :3] @ W, ddof=1)
    ctx.expect(close(p.diversification, W @ np.std(R[:, :3], axis=0) / p.standard_deviation), "diversification", what)
    ctx.expect(
        close(p.sric, p.sharpe_ratio - 3 / (4 * p.sharpe_ratio)) or p.sharpe_ratio == 0, "sric", what
    )
    S = np.cov(R[:, :3].T)
    want = W * (S @ W) / sd
    got = p.contribution(RiskMeasure.STANDARD_DEVIATION)
    ctx.expect(close(got, want, rtol=1e-4, atol=1e-7), "contribution-std", lambda: (what, got, want))
    got = p.contribution(RiskMeasure.VARIANCE)
    ctx.expect(close(got, 2 * W * (S @ W), rtol=1e-4, atol=1e-8), "contribution-var", lambda: (what, got))
    got = p.contribution(PerfMeasure.MEAN)
    ctx.expect(close(got, W * R[:, :3].mean(axis=0), rtol=1e-4, atol=1e-8), "contribution-mean", lambda: (what, got))
    for m in (RiskMeasure.CVAR, RiskMeasure.WORST_REALIZATION, RiskMeasure.GINI_MEAN_DIFFERENCE,
              RiskMeasure.MEAN_ABSOLUTE_DEVIATION, RiskMeasure.SEMI_DEVIATION):  # fmt: skip
        got = p.contribution(m)
        val = getattr(p, m.value)
        ctx.expect(close(got.sum(), val, rtol=1e-3, atol=1e-6), "contribution-sum", lambda: (what, m, got, val))
    got = p.contribution(RatioMeasure.SHARPE_RATIO)
    ctx.expect(abs(got.sum()) < 1e-3, "contribution-ratio", lambda: (what, got))
    df = p.contribution(RiskMeasure.STANDARD_DEVIATION, to_df=True)
    ctx.expect(
        {a: v for a, v in df["p"].items()}.keys() == {COLS[i] for i in range(3) if W[i] != 0}
        and all(close(df.loc[COLS[i], "p"], want[i], rtol=1e-4, atol=1e-7) for i in nz)
        and list(df["p"]) == sorted(df["p"], reverse=True),
        "contribution-df",
        lambda: (what, df),
    )
    ctx.state("report", kind, w)
    ctx.trace()


def run_case(case, ctx):
    if case[0] == "net":
        net_case(case[1], case[2], ctx)
    elif case[0] == "ops":
        ops_case(case[1], case[2], ctx)
    elif case[0] == "malformed":
        malformed_case(ctx)
    elif case[0] == "multi":
        multi_case(ctx)
    else:
        report_case(case[1], case[2], ctx)
