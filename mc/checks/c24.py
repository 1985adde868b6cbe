"""C24: scores and model selection rank in the right direction."""

import itertools
import math
import warnings

import numpy as np
import sklearn
from skfolio import PerfMeasure, Population, Portfolio, RatioMeasure, RiskMeasure
from skfolio import optimization as op
from skfolio import prior as pr
from skfolio.measures import ExtraRiskMeasure
from skfolio.metrics import make_scorer
from skfolio.model_selection import WalkForward
from skfolio.optimization import BaseOptimization
from skfolio.pre_selection import SelectKExtremes
from sklearn.linear_model import LinearRegression
from sklearn.model_selection import GridSearchCV, KFold, RandomizedSearchCV, cross_val_score
from sklearn.pipeline import Pipeline

from mc.lib import close, frame, names, returns, simplex_grid

PROPERTY = "C24"
BOUNDS = {
    "quick": "all 41 measures x 3 direction settings x 15 allocations of a grid x single and several portfolios; grid and randomised search over 15 "
    "allocations and over 4 models by every measure x 2 splitters x with or without factors x in pipelines; all subsets of 6 portfolio parameter "
    "overrides x 10 models with their own costs, fees, previous weights and risk-free rate",
    "thorough": "as quick with 35 allocations and more data sets",
}
MEASURES = [*PerfMeasure, *RiskMeasure, *ExtraRiskMeasure, *RatioMeasure]


class Fixed(BaseOptimization):
    """Allocation decided by the test."""

    def __init__(self, w=None, portfolio_params=None):
        super().__init__(portfolio_params=portfolio_params)
        self.w = w

    def fit(self, X, y=None):
        self.weights_ = np.array(self.w, dtype=float)
        return self


def cases(tier):
    seeds = (1, 2) if tier == "quick" else range(1, 8)
    for seed in seeds:
        for i in range(len(MEASURES)):
            yield ["direction", seed, i]
            for cv in ("kfold", "walk"):
                yield ["grid", seed, i, cv]
        for m in range(len(models())):
            for own in range(4):
                yield ["params", seed, m, own]
        for i in range(0, len(MEASURES), 1 if tier != "quick" else 4):
            yield ["models", seed, i]
        yield ["custom", seed]
        yield ["riskless", seed]
        yield ["default", seed]
    yield ["refused"]


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + case[0]](ctx, *case[1:])
    ctx.trace()
    ctx.outcome(case[0])


def table(seed, n=24, k=3):
    # means of either sign, so that no ratio is trivially ordered
    return frame(returns(30 * seed + k, n, k) + np.linspace(-0.002, 0.003, k))


def better_high(m):
    """Performance and ratios are to be raised; risks, and extra risks, lowered."""
    return isinstance(m, (PerfMeasure, RatioMeasure))


def scorer_sign(m, setting):
    return (1 if better_high(m) else -1) if setting is None else (1 if setting else -1)


def do_direction(ctx, seed, i):
    m = MEASURES[i]
    train, test = table(seed), table(seed + 10, 12)
    for j, w in enumerate(simplex_grid(3, 4)):
        ctx.state((seed, i, j))
        model = Fixed(w).fit(train)
        p = Portfolio(X=test, weights=w)
        value = float(getattr(p, m.value))
        if m in (PerfMeasure.MEAN, RiskMeasure.VARIANCE, RiskMeasure.CVAR, RiskMeasure.WORST_REALIZATION):
            r = test.to_numpy() @ np.array(w)
            z = r - r.mean()
            tail = np.sort(r)
            want = {
                PerfMeasure.MEAN: r.mean(),
                RiskMeasure.VARIANCE: z @ z / (len(r) - 1),
                RiskMeasure.WORST_REALIZATION: -r.min(),
                RiskMeasure.CVAR: -tail[0],
            }[m]
            ctx.expect(close(value, want, 1e-8, 1e-14), "measure", lambda: f"{m} of {w} is {value} instead of {want}")
        for setting in (None, True, False):
            s = make_scorer(m) if setting is None else make_scorer(m, greater_is_better=setting)
            for args in ((model, test), (model, test, None), (model, test, train)):
                got = s(*args)
                ctx.step()
                want = scorer_sign(m, setting) * value
                ctx.expect(
                    close(got, want, 1e-12, 0),
                    "sign",
                    lambda: f"make_scorer({m}, greater_is_better={setting}) gives {got} instead of {want} for {w}",
                )
        # costs of the model are part of the score
        costly = Fixed(w, {"transaction_costs": 0.001, "previous_weights": [0, 0, 1.0], "risk_free_rate": 0.0005}).fit(train)
        q = Portfolio(X=test, weights=w, transaction_costs=0.001, previous_weights=[0, 0, 1.0], risk_free_rate=0.0005)
        got = make_scorer(m)(costly, test)
        want = scorer_sign(m, None) * float(getattr(q, m.value))
        ctx.step()
        ctx.expect(close(got, want, 1e-12, 0), "costs", lambda: f"make_scorer({m}) gives {got} instead of {want} with costs")
    # pickles and copies keep the direction
    if better_high(m):
        s = sklearn.clone(make_scorer(m), safe=False)
        ctx.expect(close(s(model, test), value, 1e-12, 0), "clone", lambda: f"cloned scorer of {m}")


def do_riskless(ctx, seed):
    """Gains without any loss never rank below losses."""
    g = np.abs(returns(seed, 9, 1)[:, 0]) + 0.001
    x = frame(np.array([g, -g, g[::-1], np.where(np.arange(9) % 2, g, -2 * g), np.arange(1, 10) / 1000]).T)
    for m in RatioMeasure:
        for params in (None, {"min_acceptable_return": 0.0}, {"risk_free_rate": 0.0005}, {"compounded": True}):
            ctx.state((seed, m.value, str(params)))
            vals = [make_scorer(m)(Fixed(np.eye(5)[j], params).fit(x), x) for j in range(5)]
            ctx.step(5)
            for good in (0, 2, 4):
                for bad in (1, 3):
                    ok = vals[good] > vals[bad] or negative_risk(x, good, m, params)
                    ctx.expect(
                        ok, "riskless", lambda: f"{m} ({params}): {vals[good]} for gains {x.iloc[:, good].tolist()}, {vals[bad]} for {x.iloc[:, bad].tolist()}"
                    )
            q = [float(Portfolio(X=x, weights=np.eye(5)[j], **(params or {})).rolling_measure(m, 9).iloc[-1]) for j in range(5)]
            ctx.expect(
                all(close(a, b, 1e-6, 1e-9) for a, b in zip(q, vals, strict=True)) or m.is_annualized, "rolling", lambda: f"{m} ({params}): rolling {q}, whole {vals}"
            )


def negative_risk(x, j, m, params):
    """Tail measures of series without losses are negative and their ratios have no order."""
    p = Portfolio(X=x, weights=np.eye(5)[j], **(params or {}))
    ratio = m.non_annualized_measure if m.is_annualized else m
    return getattr(p, ratio.linked_risk_measure.value) < 0


def splitter(kind):
    return KFold(3) if kind == "kfold" else WalkForward(train_size=9, test_size=5)


def folds(cv, x):
    return [(x.iloc[a], x.iloc[b]) for a, b in cv.split(x)]


def do_grid(ctx, seed, i, kind):
    m = MEASURES[i]
    x = table(seed)
    y = frame(returns(seed, len(x), 2))
    cv = splitter(kind)
    grid = [list(w) for w in simplex_grid(3, 4)]
    parts = folds(cv, x)
    want = np.array(
        [[scorer_sign(m, None) * float(getattr(Portfolio(X=b, weights=w), m.value)) for _, b in parts] for w in grid]
    )
    mean = want.mean(axis=1)
    if np.any(np.isnan(mean)):
        ctx.outcome("undefined")
        return
    for factors in (None, y):
        for build in ("plain", "pipeline"):
            ctx.state((seed, i, kind, factors is None, build))
            est = Fixed([1, 0, 0]) if build == "plain" else Pipeline([("opt", Fixed([1, 0, 0]))])
            key = "w" if build == "plain" else "opt__w"
            for search in (
                GridSearchCV(est, {key: grid}, cv=cv, scoring=make_scorer(m)),
                RandomizedSearchCV(est, {key: grid}, n_iter=len(grid), cv=cv, scoring=make_scorer(m), random_state=0),
            ):
                search.fit(x, factors)
                ctx.step()
                res = search.cv_results_
                got = {tuple(p[key]): s for p, s in zip(res["params"], res["mean_test_score"], strict=True)}
                note = f"{type(search).__name__}({build}, {m}, factors={factors is not None})"
                ctx.expect(
                    all(close(got[tuple(w)], v, 1e-9, 1e-14) for w, v in zip(grid, mean, strict=True)),
                    "grid-scores",
                    lambda: f"{note}: scores {got} instead of {mean.tolist()}",
                )
                best = mean[grid.index(list(search.best_params_[key]))]
                ctx.expect(
                    best == mean.max() or best >= mean.max() - 1e-12 * abs(mean.max()),
                    "grid-best",
                    lambda: f"{note}: chose {search.best_params_} scoring {best}, best is {mean.max()}",
                )
                # the chosen candidate is best by the measure itself
                raw = scorer_sign(m, None) * best
                values = scorer_sign(m, None) * mean
                ok = raw in (values.max(), values.min()) or (raw >= values.max() - 1e-12 if better_high(m) else raw <= values.min() + 1e-12)
                ctx.expect(bool(ok), "grid-direction", lambda: f"{note}: chose {raw} among {values.tolist()}")
                p = search.predict(x)
                ctx.expect(close(p.weights, search.best_params_[key], 1e-12, 0), "grid-refit", lambda: f"{note}: predicts {p.weights}")
            got = cross_val_score(est, x, factors, cv=cv, scoring=make_scorer(m))
            ctx.step()
            ctx.expect(
                close(got, want[grid.index([1.0, 0.0, 0.0])], 1e-9, 1e-14), "cross-val-score", lambda: f"cross_val_score({build}, {m}): {got}"
            )
    ctx.outcome("ranked")


def candidates():
    return [
        op.EqualWeighted(),
        op.InverseVolatility(),
        op.MeanRisk(risk_measure=RiskMeasure.VARIANCE, risk_free_rate=0.0003),
        op.MeanRisk(prior_estimator=pr.FactorModel(loading_matrix_estimator=pr.LoadingMatrixRegression(linear_regressor=LinearRegression()))),
    ]


def do_models(ctx, seed, i):
    """Choice between different models, one of which needs factors."""
    m = MEASURES[i]
    x = table(seed, 30, 4)
    y = frame(returns(seed + 70, 30, 2))
    cv = KFold(3)
    ctx.state((seed, i))
    want = []
    for c in candidates():
        vals = []
        for a, b in cv.split(x):
            fit = sklearn.clone(c).fit(x.iloc[a], y.iloc[a])
            rf = getattr(c, "risk_free_rate", 0)
            vals.append(scorer_sign(m, None) * float(getattr(Portfolio(X=x.iloc[b], weights=fit.weights_, risk_free_rate=rf), m.value)))
        want.append(np.mean(vals))
    search = GridSearchCV(Pipeline([("opt", op.EqualWeighted())]), {"opt": candidates()}, cv=cv, scoring=make_scorer(m)).fit(x, y)
    ctx.step()
    got = search.cv_results_["mean_test_score"]
    ctx.expect(close(got, want, 1e-4, 1e-7), "models-scores", lambda: f"GridSearchCV over models by {m}: {got} instead of {want}")
    ctx.expect(
        want[search.best_index_] >= max(want) - 1e-4 * abs(max(want)) - 1e-7, "models-best", lambda: f"{m}: chose {search.best_index_} of {want}"
    )


def do_custom(ctx, seed):
    x = table(seed)
    ctx.state(("custom", seed))

    def last(pred, scale=1.0, shift=0.0):
        return scale * float(np.asarray(pred)[-1]) + shift

    def losses(pred):
        return sum(r < 0 for r in pred.returns)

    for w in simplex_grid(3, 4):
        model = Fixed(w).fit(x)
        r = x.to_numpy() @ np.array(w)
        for setting, sign in ((None, 1), (True, 1), (False, -1)):
            for kw in ({}, {"scale": 3.0}, {"scale": -2.0, "shift": 0.5}):
                s = make_scorer(last, greater_is_better=setting, **kw)
                got = s(model, x)
                ctx.step()
                want = sign * (kw.get("scale", 1.0) * r[-1] + kw.get("shift", 0.0))
                ctx.expect(close(got, want, 1e-10, 1e-14), "custom", lambda: f"make_scorer(last, {setting}, {kw}) {got} instead of {want}")
                ctx.expect("last" in repr(s), "custom-repr", lambda: repr(s))
            got = make_scorer(losses, greater_is_better=setting)(model, x)
            ctx.expect(got == sign * int(np.sum(r < 0)), "custom", lambda: f"make_scorer(losses, {setting}) {got}")


# --- what the predictions carry ------------------------------------------------


COSTS = [0.001, 0.002, 0.0005, 0.0]
FEES = {"A0": 0.0001, "A3": 0.0003}
PREV = [0.4, 0.0, 0.3, 0.3]
RF = 0.0002
OWN = [
    {},
    {"transaction_costs": COSTS, "previous_weights": PREV},
    {"management_fees": FEES},
    {"transaction_costs": 0.001, "previous_weights": PREV, "management_fees": 0.0002, "risk_free_rate": RF},
]
OVERRIDES = [
    ("transaction_costs", 0.003),
    ("management_fees", [0.0004, 0, 0, 0.0001]),
    ("previous_weights", [1.0, 0, 0, 0]),
    ("risk_free_rate", 0.0007),
    ("name", "custom name"),
    ("annualized_factor", 12),
]


def models():
    return [
        ("EqualWeighted", op.EqualWeighted),
        ("InverseVolatility", op.InverseVolatility),
        ("MeanRisk", op.MeanRisk),
        ("MeanRisk", lambda **kw: op.MeanRisk(risk_measure=RiskMeasure.CVAR, **kw)),
        ("MeanRisk", lambda **kw: op.MeanRisk(efficient_frontier_size=3, **kw)),
        ("RiskBudgeting", op.RiskBudgeting),
        ("MaximumDiversification", op.MaximumDiversification),
        ("HierarchicalRiskParity", op.HierarchicalRiskParity),
        ("HierarchicalEqualRiskContribution", op.HierarchicalEqualRiskContribution),
        ("DistributionallyRobustCVaR", lambda **kw: op.DistributionallyRobustCVaR(wasserstein_ball_radius=0.01, **kw)),
    ]


def listed(v):
    return [v] if isinstance(v, Portfolio) else list(v)


def do_params(ctx, seed, i, own):
    name, make = models()[i]
    x, later = table(seed, 14, 4), table(seed + 5, 9, 4)
    own_values = OWN[own]
    accepted = make().get_params()
    mine = {k: v for k, v in own_values.items() if k in accepted}
    if len(mine) < len(own_values):
        ctx.outcome("model without these parameters")
        if own > 1:
            return
    base = make(**mine).fit(x)
    for r in range(len(OVERRIDES) + 1):
        for chosen in itertools.combinations(OVERRIDES, r):
            over = dict(chosen)
            ctx.state((seed, i, own, r, tuple(over)))
            given = dict(over) if over else None
            model = make(**mine, portfolio_params=given)
            # the parameters of the portfolio do not take part in the fit
            for a, v in vars(base).items():
                if a.endswith("_") and not a.startswith("__"):
                    setattr(model, a, v)
            got = listed(model.predict(later))
            ctx.step()
            note = f"{name}({mine}, portfolio_params={over})"
            rows = base.weights_ if base.weights_.ndim == 2 else [base.weights_]
            ctx.expect(len(got) == len(rows), "params-number", lambda: f"{note}: {len(got)} portfolios")
            ctx.expect(given is None or given == over, "params-modified", lambda: f"{note}: changed its parameters to {given}")
            for j, (p, w) in enumerate(zip(got, rows, strict=True)):
                kw = {
                    "transaction_costs": mine.get("transaction_costs", 0),
                    "management_fees": mine.get("management_fees", 0),
                    "previous_weights": mine.get("previous_weights"),
                    "risk_free_rate": mine.get("risk_free_rate", 0),
                }
                kw.update({k: v for k, v in over.items() if k != "name"})
                q = Portfolio(X=later, weights=w, **kw)
                ctx.expect(
                    close(p.returns, q.returns, 1e-10, 1e-14) and p.risk_free_rate == q.risk_free_rate and p.annualized_factor == q.annualized_factor,
                    "params-portfolio",
                    lambda: f"{note}: returns {p.returns[:3]} instead of {q.returns[:3]}, rate {p.risk_free_rate}, factor {p.annualized_factor}",
                )
                # independent of the portfolio class: costs and fees taken from gross returns
                prev = np.zeros(4) if kw["previous_weights"] is None else np.array(kw["previous_weights"])
                dense = [
                    np.array([v.get(a, 0.0) for a in names(4)]) if isinstance(v, dict) else np.broadcast_to(np.array(v, dtype=float), 4)
                    for v in (kw["transaction_costs"], kw["management_fees"])
                ]
                net = later.to_numpy() @ w - np.sum(np.abs(w - prev) * dense[0]) - np.sum(w * dense[1])
                ctx.expect(close(p.returns, net, 1e-9, 1e-13), "params-net", lambda: f"{note}: returns {p.returns[:3]} instead of {net[:3]}")
                title = over.get("name", name)
                title = title if base.weights_.ndim == 1 else f"ptf{j} - {title}"
                ctx.expect(p.name == title, "params-name", lambda: f"{note}: named {p.name!r} instead of {title!r}")
                ctx.expect(close(p.weights, w, 1e-12, 0), "params-weights", lambda: f"{note}: weights {p.weights} instead of {w}")
            score = model.score(later)
            want = float(np.mean([refmeasure_sharpe(p, over.get("risk_free_rate", mine.get("risk_free_rate", 0))) for p in got]))
            ctx.expect(close(score, want, 1e-8, 1e-12), "params-score", lambda: f"{note}: score {score} instead of {want}")
    ctx.outcome("carried")


def refmeasure_sharpe(p, rate):
    r = np.asarray(p.returns, dtype=float)
    z = r - r.mean()
    return (r.mean() - rate) / math.sqrt(z @ z / (len(r) - 1))


def do_default(ctx, seed):
    """The default score is the Sharpe ratio, averaged over a population."""
    x, later = table(seed, 14, 4), table(seed + 5, 9, 4)
    ctx.state(("default", seed))
    for _, make in models():
        m = make().fit(x)
        p = m.predict(later)
        ctx.step()
        ctx.expect(isinstance(p, Population) == (m.weights_.ndim == 2), "default-kind", lambda: f"{m}: {type(p)}")
        want = np.mean([refmeasure_sharpe(q, 0) for q in listed(p)])
        ctx.expect(close(m.score(later), want, 1e-8, 1e-12), "default-score", lambda: f"{m}: {m.score(later)} instead of {want}")
        ctx.expect(close(m.score(later, later), want, 1e-8, 1e-12), "default-score-y", lambda: f"{m}: score with y")
        if m.weights_.ndim == 1:
            got = make_scorer(RatioMeasure.SHARPE_RATIO)(m, later)
            ctx.expect(close(got, want, 1e-8, 1e-12), "default-same", lambda: f"{m}: {got} instead of {want}")
            q = make().fit_predict(x)
            ctx.expect(close(q.returns, m.predict(x).returns, 1e-6, 1e-9), "fit-predict", lambda: f"{m}: fit_predict differs from fit then predict")
    # without a scorer, model selection uses the Sharpe ratio
    grid = [list(w) for w in simplex_grid(3, 4)]
    x = table(seed)
    cv = KFold(3)
    g = GridSearchCV(Fixed([1, 0, 0]), {"w": grid}, cv=cv).fit(x)
    want = [np.mean([refmeasure_sharpe(Portfolio(X=b, weights=w), 0) for _, b in folds(cv, x)]) for w in grid]
    ctx.step()
    ctx.expect(close(g.cv_results_["mean_test_score"], want, 1e-8, 1e-12), "default-grid", lambda: f"{g.cv_results_['mean_test_score']} instead of {want}")
    ctx.expect(g.best_index_ == int(np.argmax(want)), "default-best", lambda: f"chose {g.best_index_} of {want}")
    # measured after the selection of assets
    with sklearn.config_context(transform_output="pandas"):
        pipe = Pipeline([("sel", SelectKExtremes(k=2)), ("opt", op.EqualWeighted())]).fit(x)
        kept = list(pipe[0].get_feature_names_out())
        r = x[kept].to_numpy().mean(axis=1)
        got = make_scorer(PerfMeasure.MEAN)(pipe, x)
        ctx.expect(close(got, r.mean(), 1e-10, 1e-14), "default-pipeline", lambda: f"{got} instead of {r.mean()}")


def do_refused(ctx):
    ctx.state("refused")
    for bad in ("mean", 3, None, "sharpe_ratio"):
        ctx.step()
        try:
            make_scorer(bad)
            ctx.expect(False, "refused", f"make_scorer({bad!r}) accepted")
        except TypeError:
            ctx.outcome("refused")
    try:
        op.EqualWeighted().predict(table(1))
        ctx.expect(False, "unfitted", "an unfitted model predicted")
    except Exception as e:
        ctx.expect("fit" in str(e).lower(), "unfitted", lambda: str(e))
