"""C04: portfolio measures under every short history of reads and setting changes."""

import itertools

import numpy as np
from skfolio.measures import ExtraRiskMeasure, PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.portfolio import MultiPeriodPortfolio, Portfolio

from mc.lib import frame, same_value

PROPERTY = "C04"
BOUNDS = {
    "quick": "2 kinds of portfolio; 14 settings with 2-3 values; all (read, change, read) "
    "triples on separate objects; all sequences of 2 changes with complete reads between; "
    "all rejected changes before/after a read",
    "thorough": "as quick with all sequences of 3 changes and complete reads between",
}

SETTINGS = {
    "risk_free_rate": [0.001, 0.0],
    "annualized_factor": [12.0, 252.0],
    "compounded": [True, False],
    "min_acceptable_return": [0.002, None, 0.0],
    "value_at_risk_beta": [0.6, 0.95],
    "entropic_risk_measure_theta": [0.2, 1.0],
    "entropic_risk_measure_beta": [0.6, 0.95],
    "cvar_beta": [0.6, 0.95],
    "evar_beta": [0.6, 0.95],
    "drawdown_at_risk_beta": [0.6, 0.95],
    "cdar_beta": [0.6, 0.95],
    "edar_beta": [0.6, 0.95],
    "fitness_measures": ["mean-var", "cdar-sharpe", "evar"],
    "name": ["x", "other"],
}
DEFAULT = {k: v[1] for k, v in SETTINGS.items()}
DEFAULT.update(min_acceptable_return=None, fitness_measures="mean-var", name="x")
FITNESS = {
    "mean-var": [PerfMeasure.MEAN, RiskMeasure.VARIANCE],
    "cdar-sharpe": [RiskMeasure.CDAR, RatioMeasure.SHARPE_RATIO, RatioMeasure.CALMAR_RATIO],
    "evar": [RiskMeasure.EVAR],
}
CHANGES = [(k, v) for k, vs in SETTINGS.items() for v in vs]
MEASURES = [m for e in (PerfMeasure, RiskMeasure, ExtraRiskMeasure, RatioMeasure) for m in e]

R = np.array(
    [
        [0.010, -0.020, 0.005],
        [-0.030, 0.010, 0.002],
        [0.020, 0.015, -0.012],
        [-0.010, -0.025, 0.004],
        [0.025, 0.005, -0.020],
        [-0.015, 0.020, 0.011],
        [0.004, -0.011, 0.013],
        [-0.022, 0.003, -0.006],
        [0.017, 0.009, 0.008],
    ]
)
X = frame(R)


def decode(settings):
    kw = dict(settings)
    kw["fitness_measures"] = list(FITNESS[kw["fitness_measures"]])
    return kw


def build(kind, settings):
    kw = decode(settings)
    if kind == "single":
        return Portfolio(
            X=X, weights=[0.5, 0.3, 0.2], transaction_costs=0.001, tag="t", **kw
        )
    parts = [
        Portfolio(X=X.iloc[:4], weights=[0.5, 0.3, 0.2], name="p0"),
        Portfolio(X=X.iloc[4:], weights=[0.1, 0.2, 0.7], name="p1"),
    ]
    return MultiPeriodPortfolio(portfolios=parts, tag="t", **kw)


def change(p, key, value):
    setattr(p, key, list(FITNESS[value]) if key == "fitness_measures" else value)


READS = {m.value: (lambda p, n=m.value: getattr(p, n)) for m in MEASURES}
READS.update(
    fitness=lambda p: np.array(p.fitness),
    cumulative_returns=lambda p: np.array(p.cumulative_returns),
    cumulative_returns_df=lambda p: p.cumulative_returns_df,
    drawdowns=lambda p: np.array(p.drawdowns),
    measures_df=lambda p: p.measures_df,
    summary=lambda p: p.summary(),
    summary_raw=lambda p: p.summary(formatted=False),
    returns=lambda p: np.array(p.returns),
    composition=lambda p: p.composition,
    rolling_sharpe=lambda p: p.rolling_measure(RatioMeasure.SHARPE_RATIO, window=4),
    rolling_asharpe=lambda p: p.rolling_measure(RatioMeasure.ANNUALIZED_SHARPE_RATIO, window=4),
    rolling_cdar=lambda p: p.rolling_measure(RiskMeasure.CDAR, window=4),
    rolling_cvar=lambda p: p.rolling_measure(RatioMeasure.CVAR_RATIO, window=5),
    rolling_mdd=lambda p: p.rolling_measure(RiskMeasure.MAX_DRAWDOWN, window=4),
    rolling_semi=lambda p: p.rolling_measure(RiskMeasure.SEMI_VARIANCE, window=4),
)
CHEAP = [r for r in READS if not r.startswith("rolling") and r not in ("summary", "summary_raw", "measures_df", "cumulative_returns_df")]
SHARP = ["mean", "cdar", "max_drawdown", "sharpe_ratio", "annualized_sortino_ratio", "fitness",
         "drawdowns", "semi_variance", "cvar_ratio", "evar", "edar_ratio", "value_at_risk",
         "drawdown_at_risk_ratio", "entropic_risk_measure_ratio", "ulcer_index_ratio"]  # fmt: skip
# fmt: off
EVERYTHING = list(READS)
# fmt: on
_REF = {}


def reference(kind, settings):
    key = (kind, tuple(sorted(settings.items(), key=lambda kv: kv[0])))
    if key not in _REF:
        if len(_REF) > 4000:
            _REF.clear()
        _REF[key] = {}
    return _REF[key]


def expected(kind, settings, read):
    ref = reference(kind, settings)
    if read not in ref:
        ref[read] = READS[read](build(kind, settings))
    return ref[read]


def observe(ctx, p, kind, settings, reads, history):
    for r in reads:
        got = READS[r](p)
        want = expected(kind, settings, r)
        ctx.step()
        ctx.expect(
            same_value(got, want, rtol=1e-7),
            f"stale-{r}",
            lambda: dict(history=history, read=r, got=got, want=want, settings=settings),
        )
    for k, v in decode(settings).items():
        ctx.expect(getattr(p, k) == v, "setting", (history, k, getattr(p, k)))


def cases(tier):
    for kind in ("single", "multi"):
        for r1 in READS:
            yield ["triple", kind, r1, tier == "thorough"]
        for i, c in enumerate(CHANGES):
            if tier == "quick":
                yield ["seq", kind, 2, [i]]
            else:
                for j in range(len(CHANGES)):
                    yield ["seq", kind, 3, [i, j]]
        for r1 in READS:
            yield ["rejected", kind, r1]
        yield ["sensitive", kind]


def bad_changes(kind):
    out = [
        ("returns", np.zeros(9)),
        ("observations", np.arange(9)),
        ("fitness", np.zeros(2)),
        ("cumulative_returns", np.zeros(9)),
        ("drawdowns", np.zeros(9)),
        ("n_observations", 3),
        ("fitness_measures", []),
        ("fitness_measures", None),
        ("fitness_measures", "mean"),
        ("fitness_measures", [PerfMeasure.MEAN, "variance"]),
        ("fitness_measures", (PerfMeasure.MEAN,)),
        ("unknown_attribute", 1),
        ("composition", None),
    ]
    if kind == "single":
        out += [
            ("weights", np.array([1.0, 0, 0])),
            ("X", R),
            ("assets", np.array(["a", "b", "c"])),
            ("previous_weights", np.zeros(3)),
            ("transaction_costs", 0.5),
            ("management_fees", 0.5),
            ("n_assets", 4),
            ("total_cost", 0.5),
            ("total_fee", 0.5),
        ]
    return out


def run_case(case, ctx):
    kind = case[1]
    if case[0] == "triple":
        r1 = case[2]
        for i, (k, v) in enumerate(CHANGES):
            s = {**DEFAULT, k: v}
            start = DEFAULT if DEFAULT[k] != v else {**DEFAULT, k: SETTINGS[k][0]}
            # one object per second read, so that no other read hides a stale value
            for r2 in CHEAP if kind == "single" or case[3] else SHARP:
                p = build(kind, start)
                READS[r1](p)
                change(p, k, v)
                observe(ctx, p, kind, s, [r2], [r1, [k, v], r2])
                ctx.trace()
            for r2 in EVERYTHING if r1 in ("sharpe_ratio", "summary") else EVERYTHING[-12:] if case[3] else []:
                p = build(kind, start)
                READS[r1](p)
                change(p, k, v)
                observe(ctx, p, kind, s, [r2], [r1, [k, v], r2])
                ctx.trace()
            ctx.state(kind, r1, i)
        ctx.outcome("triple")
    elif case[0] == "seq":
        depth, prefix = case[2], case[3]
        for rest in itertools.product(range(len(CHANGES)), repeat=depth - len(prefix)):
            seq = list(prefix) + list(rest)
            p = build(kind, DEFAULT)
            s = dict(DEFAULT)
            reads = CHEAP
            observe(ctx, p, kind, s, reads, [])
            for i in seq:
                k, v = CHANGES[i]
                change(p, k, v)
                s[k] = v
                observe(ctx, p, kind, s, reads, seq)
                ctx.state(kind, sorted(map(repr, s.items())))
            ctx.trace()
        ctx.outcome("seq")
    elif case[0] == "rejected":
        r1 = case[2]
        for attr, value in bad_changes(kind):
            p = build(kind, DEFAULT)
            READS[r1](p)
            ctx.step()
            try:
                setattr(p, attr, value)
            except (AttributeError, TypeError, ValueError):
                pass
            else:
                ctx.fail("not-rejected", (kind, attr))
            observe(ctx, p, kind, DEFAULT, [r1, "mean", "fitness", "cdar"], [r1, attr])
            # and the portfolio is still protected and still reacts to valid changes
            try:
                p.returns = np.zeros(9)
            except AttributeError:
                pass
            else:
                ctx.fail("protection-lost", (kind, attr))
            change(p, "compounded", True)
            observe(
                ctx, p, kind, {**DEFAULT, "compounded": True}, [r1, "cdar"], [r1, attr, "compounded"]
            )
            ctx.trace()
            ctx.state(kind, attr, r1)
        ctx.outcome("rejected")
    else:
        # the alphabet is sharp: each setting changes some observable
        for k, vs in SETTINGS.items():
            obs = [
                {r: expected(kind, {**DEFAULT, k: v}, r) for r in EVERYTHING} for v in vs[:2]
            ]
            assert any(not same_value(obs[0][r], obs[1][r]) for r in EVERYTHING) or k == "name", k
        ctx.trace()
