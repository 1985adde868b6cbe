"""C35: a pipeline of selections and an optimisation equals its steps done by hand."""

import itertools
import warnings

import numpy as np
import pandas as pd
import sklearn as sk
import sklearn.base as skb
import sklearn.feature_selection as skf
from skfolio import MultiPeriodPortfolio, Population, RatioMeasure, RiskMeasure
from skfolio import optimization as op
from skfolio import pre_selection as ps
from skfolio import prior as pr
from skfolio.distance import PearsonDistance
from skfolio.model_selection import CombinatorialPurgedCV, WalkForward, cross_val_predict
from skfolio.moments import EmpiricalCovariance, EWMu
from skfolio.optimization import ObjectiveFunction as OF
from sklearn.model_selection import GridSearchCV, KFold
from sklearn.pipeline import Pipeline
from sklearn.utils.validation import check_is_fitted, validate_data

from mc.lib import frame, names, returns

PROPERTY = "C35"
BOUNDS = {
    "quick": "5 assets; every subset of at least 2 kept by a selection x 14 models with settings, constraints, views or groups given by name; "
    "all ordered sequences of up to 2 of 8 selections x 6 optimisations x 3 data sets (complete, late and ended assets, constant assets), "
    "predicted in and out of sample, as tables and arrays; 3 splitters; grid searches over the selection",
    "thorough": "as quick with sequences of up to 3 selections and 4 data sets",
}
K = 5
NAMES = names(K)
ORDER = (2, 0, 4, 1, 3)  # of the columns: neither alphabetical nor that of the settings
TC = dict(A0=0.002, A1=0.001, A2=0.003, A3=0.0, A4=0.0015)
FEE = dict(A0=0.0001, A2=0.0002, A3=0.0004)
PREV = dict(A0=0.3, A1=0.2, A3=0.4, A4=0.1)
LO = dict(A1=0.05, A3=0.1)
HI = dict(A0=0.6, A1=0.7, A2=0.5, A4=0.8)
BUDGET = dict(A0=1.0, A1=2.0, A2=3.0, A3=1.0, A4=0.5)
GROUPS = dict(A0=["u", "x"], A1=["u", "y"], A2=["v", "x"], A3=["v", "y"], A4=["w", "x"])


class Keep(skf.SelectorMixin, skb.BaseEstimator):
    """Keeps the named assets."""

    def __init__(self, keep=()):
        self.keep = keep

    def fit(self, X, y=None):
        validate_data(self, X, ensure_all_finite="allow-nan")
        self.mask_ = np.isin(self.feature_names_in_, list(self.keep))
        return self

    def _get_support_mask(self):
        check_is_fitted(self)
        return self.mask_


def subsets():
    for r in range(2, K + 1):
        yield from itertools.combinations(ORDER, r)


def data(kind, n=48):
    X = returns(7, n, K) + 0.002
    X[:, 1] = 0.9 * X[:, 0] + 0.1 * X[:, 1]
    if kind == "late":
        X[:6, 2] = np.nan
        X[-18:, 4] = np.nan
    elif kind == "flat":
        X[:20, 3] = 0.0005
        X[:, 0] *= -1
    elif kind == "more":
        X = returns(19, n, K) + 0.001
        X[:, 4] = -0.5 * X[:, 2] + 0.3 * X[:, 4]
    return frame(X)[[NAMES[i] for i in ORDER]]


END = pd.Timestamp("2021-03-31")
SELECT = {
    "zero": lambda: ps.DropZeroVariance(),
    "corr": lambda: ps.DropCorrelated(threshold=0.6),
    "best3": lambda: ps.SelectKExtremes(k=3),
    "worst2": lambda: ps.SelectKExtremes(k=2, measure=RiskMeasure.CVAR, highest=False),
    "fronts": lambda: ps.SelectNonDominated(min_n_assets=2),
    "complete": lambda: ps.SelectComplete(),
    "expiring": lambda: ps.SelectNonExpiring(expiration_dates={"A0": pd.Timestamp("2021-03-05"), "A3": END, "zz": END}, expiration_lookahead=pd.DateOffset(days=20)),
    "named": lambda: Keep(["A4", "A2", "A1", "A0"]),
}
FINAL = {
    "EqualWeighted": lambda: op.EqualWeighted(),
    "InverseVolatility": lambda: op.InverseVolatility(),
    "MeanRisk": lambda: op.MeanRisk(min_weights=0.0, max_weights=0.8, transaction_costs=TC, previous_weights=PREV),
    "HRP": lambda: op.HierarchicalRiskParity(distance_estimator=PearsonDistance(absolute=True)),
    "RiskBudgeting": lambda: op.RiskBudgeting(risk_budget=BUDGET),
    "front": lambda: op.MeanRisk(efficient_frontier_size=3, management_fees=FEE),
}


def quiet(f):
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        return f(), [str(w.message) for w in seen if issubclass(w.category, UserWarning)]


# --- settings by name survive a selection -------------------------------------

CONSTRAINTS = [
    # string, names it needs, row over all assets, right side (row @ w <= right)
    ("A0 >= 0.05", ["A0"], [-1, 0, 0, 0, 0], -0.05),
    ("A2 <= 0.4", ["A2"], [0, 0, 1, 0, 0], 0.4),
    ("A1 + A4 >= 0.2", ["A1", "A4"], [0, -1, 0, 0, -1], -0.2),
    ("A3 * 2 <= A1 + 0.5", ["A3", "A1"], [0, -1, 0, 2, 0], 0.5),
    ("u <= 0.7", ["u"], [1, 1, 0, 0, 0], 0.7),
    ("v >= 0.1", ["v"], [0, 0, -1, -1, 0], -0.1),
    ("w <= 0.5", ["w"], [0, 0, 0, 0, 1], 0.5),
    ("x <= y + 0.6", ["x", "y"], [1, -1, 1, -1, 1], 0.6),
]
VIEWS = [("A0 == 0.004", ["A0"]), ("A1 - A3 == 0.002", ["A1", "A3"]), ("A4 == 0.001", ["A4"]), ("A2 == 0.003", ["A2"])]


def known(S):
    out = {NAMES[i] for i in S}
    for i in S:
        out |= set(GROUPS[NAMES[i]])
    return out


def part(d, S, default):
    return [d.get(NAMES[i], default) for i in S]


def settings_models():
    """Each gives the model with names for the whole universe and the same by position for the kept assets."""
    yield "bounds", lambda: op.MeanRisk(min_weights=LO, max_weights=HI), lambda S: op.MeanRisk(min_weights=part(LO, S, 0), max_weights=part(HI, S, 1)), None
    yield (
        "costs",
        lambda: op.MeanRisk(objective_function=OF.MAXIMIZE_UTILITY, risk_aversion=2.0, transaction_costs=TC, management_fees=FEE, previous_weights=PREV),
        lambda S: op.MeanRisk(
            objective_function=OF.MAXIMIZE_UTILITY, risk_aversion=2.0, transaction_costs=part(TC, S, 0), management_fees=part(FEE, S, 0), previous_weights=part(PREV, S, 0)
        ),
        None,
    )
    yield "turnover", lambda: op.MeanRisk(max_turnover=0.35, previous_weights=PREV), lambda S: op.MeanRisk(max_turnover=0.35, previous_weights=part(PREV, S, 0)), None

    def kept(S):
        rows = [(np.array(r, dtype=float)[list(S)], b) for _s, need, r, b in CONSTRAINTS if set(need) <= known(S)]
        return dict(left_inequality=np.array([r for r, _b in rows]), right_inequality=np.array([b for _r, b in rows])) if rows else {}

    strings = [c[0] for c in CONSTRAINTS]
    missing = lambda S: sum(not set(c[1]) <= known(S) for c in CONSTRAINTS)  # noqa: E731
    for o in ("MINIMIZE_RISK", "MAXIMIZE_RATIO"):
        yield (
            "constraints-" + o,
            lambda o=o: op.MeanRisk(objective_function=OF[o], groups=GROUPS, linear_constraints=strings, risk_measure=RiskMeasure.CVAR, cvar_beta=0.8),
            lambda S, o=o: op.MeanRisk(objective_function=OF[o], risk_measure=RiskMeasure.CVAR, cvar_beta=0.8, **kept(S)),
            missing,
        )
    yield (
        "one-constraint",
        lambda: op.MaximumDiversification(groups=GROUPS, linear_constraints=["w >= 0.3"]),
        lambda S: op.MaximumDiversification(**({} if 4 not in S else dict(left_inequality=np.array([[-1.0 * (i == 4) for i in S]]), right_inequality=[-0.3]))),
        lambda S: int(4 not in S),
    )
    yield "risk-budget", lambda: op.RiskBudgeting(risk_budget=BUDGET), lambda S: op.RiskBudgeting(risk_budget=part(BUDGET, S, 1)), None
    for name in ("HierarchicalRiskParity", "HierarchicalEqualRiskContribution"):
        cls = getattr(op, name)
        yield name, lambda cls=cls: cls(min_weights=LO, max_weights=HI), lambda S, cls=cls: cls(min_weights=part(LO, S, 0), max_weights=part(HI, S, 1)), None
    def viewed(S):
        # a view cannot be dropped without changing the prior
        if not all(set(need) <= known(S) for _v, need in VIEWS):
            raise ValueError("a view names an asset that is gone")
        return black()

    def black():
        return op.MeanRisk(objective_function=OF.MAXIMIZE_UTILITY, risk_aversion=4.0, prior_estimator=pr.BlackLitterman(views=[v[0] for v in VIEWS]))

    yield "views", black, viewed, None
    yield (
        "stacking",
        lambda: op.StackingOptimization(
            estimators=[("a", op.MeanRisk(min_weights=LO, max_weights=HI)), ("b", op.RiskBudgeting(risk_budget=BUDGET))], final_estimator=op.EqualWeighted(), cv=KFold(3)
        ),
        lambda S: op.StackingOptimization(
            estimators=[("a", op.MeanRisk(min_weights=part(LO, S, 0), max_weights=part(HI, S, 1))), ("b", op.RiskBudgeting(risk_budget=part(BUDGET, S, 1)))],
            final_estimator=op.EqualWeighted(),
            cv=KFold(3),
        ),
        None,
    )
    cards = dict(u=1, v=1, w=1, x=2)
    mip = dict(solver="SCIP", threshold_long=0.05)
    yield (
        "cardinalities",
        lambda: op.MeanRisk(groups=GROUPS, group_cardinalities=cards, **mip),
        lambda S: op.MeanRisk(
            groups=[["u" if 0 in S and i in (0, 1) or i == 1 else g for i, g in [(i, GROUPS[NAMES[i]][0]) for i in S]], [GROUPS[NAMES[i]][1] for i in S]],
            group_cardinalities={k: v for k, v in cards.items() if k in known(S)},
            **mip,
        ),
        lambda S: sum(k not in known(S) for k in cards),
    )
    yield "two-groups", lambda: op.MeanRisk(groups=GROUPS, group_cardinalities=dict(w=1), **mip), lambda S: op.MeanRisk(threshold_long=0.05, solver="SCIP"), lambda S: int(4 not in S)


def do_settings(ctx, name, S):
    X, T = data("more"), frame(returns(23, 12, K), [NAMES[i] for i in ORDER], start="2021-06-01")
    S = tuple(S)
    cols = [NAMES[i] for i in S]
    _n, whole, manual, missing = next(m for m in settings_models() if m[0] == name)
    what = f"{name} on the kept assets {cols}"
    pipe = Pipeline([("keep", Keep(cols)), ("opt", whole())]).set_output(transform="pandas")
    try:
        ref, _w = quiet(lambda: manual(S).fit(X[cols]))
    except Exception as e:
        ref = e
    try:
        _p, warned = quiet(lambda: pipe.fit(X))
    except Exception as e:
        ctx.expect(isinstance(ref, Exception), "refused", lambda: f"{what}: {type(e).__name__} {str(e)[:120]}, by position {ref}")
        ctx.outcome("refused")
        return
    ctx.expect(not isinstance(ref, Exception), "accepted", lambda: f"{what}: fitted, by position {ref!r}")
    if isinstance(ref, Exception):
        return
    w = pipe["opt"].weights_
    ctx.expect(w.shape == ref.weights_.shape and np.abs(w - ref.weights_).max() <= 2e-4, "settings", lambda: f"{what}: {w}, by position {ref.weights_}")
    if missing is not None:
        n = len([m for m in warned if "missing" in m or "Unable to find" in m])
        ctx.expect(n == missing(S), "warnings", lambda: f"{what}: {n} warnings for {missing(S)} names that are gone: {warned}")
    for x in (X, T):
        p = pipe.predict(x)
        model = pipe["opt"]
        cost = sum(abs(w[j] - PREV.get(a, 0)) * TC[a] for j, a in enumerate(cols)) if name == "costs" else 0.0
        fee = sum(w[j] * FEE.get(a, 0) for j, a in enumerate(cols)) if name == "costs" else 0.0
        r = x[cols].to_numpy() @ w - cost - fee
        ctx.expect(
            list(p.assets) == cols and np.allclose(p.weights, w) and np.allclose(p.returns, r, atol=1e-12) and list(p.observations) == list(x.index),
            "prediction",
            lambda: f"{what}: {list(p.assets)} {p.weights} {p.returns[:3]} instead of {r[:3]}",
        )
        assert model is not None
    ctx.state(name, S)
    ctx.outcome("settled")


# --- chains of selections --------------------------------------------------------


MASKS = {
    "zero": lambda x: x.var(ddof=0).to_numpy() > 1e-8,
    "complete": lambda x: (x.iloc[0].notna() & x.iloc[-1].notna()).to_numpy(),
    "expiring": lambda x: np.array([{"A0": pd.Timestamp("2021-03-05"), "A3": END}.get(c, pd.Timestamp.max) > x.index[-1] + pd.DateOffset(days=20) for c in x.columns]),
    "named": lambda x: np.array([c != "A3" for c in x.columns]),
    "best3": lambda x: (-(x.mean() / x.std())).rank(method="first").to_numpy() <= 3,
    "worst2": lambda x: pd.Series([cvar(x[c]) for c in x.columns]).rank(method="first").to_numpy() <= 2,
}


def cvar(r, beta=0.95):
    k = (1 - beta) * len(r)
    o = np.sort(r.to_numpy())
    i = int(np.ceil(k))
    return -o[: i - 1].sum() / k + o[i - 1] * ((i - 1) / k - 1)


def hand(steps, final, train, y=None):
    """Fit each step on what the one before left, as tables."""
    x, trail = train, []
    for s in steps:
        if s in MASKS:
            keep = MASKS[s](x)
        else:
            keep = sk.clone(SELECT[s]() if isinstance(s, str) else s).fit(x).get_support()
        x = x.loc[:, keep]
        trail.append(list(x.columns))
    m = sk.clone(final).fit(x) if y is None else sk.clone(final).fit(x, y)
    return m, trail


def same_portfolio(p, m, cols, x, tc=None):
    ref = m.predict(x[cols])
    if isinstance(ref, Population):
        return isinstance(p, Population) and len(p) == len(ref) and all(same_one(a, b, cols, x) for a, b in zip(p, ref))
    return same_one(p, ref, cols, x)


def same_one(p, ref, cols, x):
    return (
        list(p.assets) == cols
        and np.allclose(p.weights, ref.weights, atol=1e-6)
        and np.allclose(p.returns, ref.returns, atol=1e-8)
        and list(p.observations) == list(x.index)
        and p.n_assets == len(cols)
    )


def valid(steps, train):
    """Steps that look at values need complete and varying data: gaps and constants must have been removed before."""

    def usable(x):
        return not x.isna().any().any() and bool((x.std() > 1e-9).all())

    x = train
    for s in steps:
        if s not in ("complete", "expiring", "named", "zero") and not usable(x):
            return False
        if s == "zero" and x.isna().any().any():
            return False
        x = x.loc[:, MASKS[s](x) if s in MASKS else SELECT[s]().fit(x).get_support()]
        if x.shape[1] < 2:
            return False
    return usable(x)


def do_chain(ctx, kind, steps):
    X = data(kind)
    train, test = X.iloc[:34], X.iloc[34:]
    what0 = f"{' > '.join(steps)} on {kind} data"
    if not valid(steps, train):
        ctx.outcome("needs complete data")
        return
    for name, make in FINAL.items():
        what = f"{what0}, {name}"
        m, trail = quiet(lambda: hand(steps, make(), train))[0]
        cols = trail[-1] if trail else list(X.columns)
        pipe = Pipeline([*[(f"s{i}", SELECT[s]()) for i, s in enumerate(steps)], ("opt", make())]).set_output(transform="pandas")
        quiet(lambda: pipe.fit(train))
        got = [list(c) for c in itertools.accumulate([pipe[f"s{i}"].get_support() for i in range(len(steps))], lambda c, k: [a for a, b in zip(c, k) if b], initial=list(X.columns))]
        ctx.expect(got[1:] == trail, "kept", lambda: f"{what}: keeps {got[1:]}, by hand {trail}")
        w = np.atleast_2d(pipe["opt"].weights_)
        ctx.expect(w.shape == np.atleast_2d(m.weights_).shape and np.allclose(w, np.atleast_2d(m.weights_), atol=1e-6), "weights", lambda: f"{what}: {w} by hand {m.weights_}")
        for x in (train, test):
            if x[cols].isna().any().any():
                # an asset that ends after the fit cannot be valued, and is never dropped in silence
                try:
                    p = pipe.predict(x)
                    ok = not np.isfinite(p.returns).all()
                except ValueError:
                    ok = True
                ctx.expect(ok, "gap-valued", lambda: f"{what}: gaps valued as numbers")
                continue
            p = pipe.predict(x)
            ctx.expect(same_portfolio(p, m, cols, x), "predicted", lambda: f"{what}: prediction differs from the steps by hand")
        if name in ("EqualWeighted", "InverseVolatility") and "expiring" not in steps and "named" not in steps:
            arr = Pipeline([*[(f"s{i}", SELECT[s]()) for i, s in enumerate(steps)], ("opt", make())])
            quiet(lambda: arr.fit(train.to_numpy()))
            ctx.expect(np.allclose(arr["opt"].weights_, m.weights_), "array", lambda: f"{what}: on an array {arr['opt'].weights_}")
            again = quiet(lambda: pipe.fit(train).fit(train))[0]
            ctx.expect(np.allclose(again["opt"].weights_, m.weights_), "refit", lambda: f"{what}: fitted again {again['opt'].weights_}")
        ctx.state(kind, tuple(steps), name)
    ctx.trace()
    ctx.outcome("chain")


SPLITS = {
    "walk": lambda: WalkForward(train_size=20, test_size=7),
    "folds": lambda: KFold(4),
    "paths": lambda: CombinatorialPurgedCV(n_folds=4, n_test_folds=2, purged_size=1, embargo_size=1),
}


def do_cross(ctx, kind, steps, split, final):
    X = data(kind)
    cv = SPLITS[split]()
    what = f"{split} of {' > '.join(steps)} > {final} on {kind} data"
    folds = list(cv.split(X))
    if not all(valid(steps, X.iloc[tr]) for tr, _te in folds):
        ctx.outcome("needs complete data")
        return
    pipe = Pipeline([*[(f"s{i}", SELECT[s]()) for i, s in enumerate(steps)], ("opt", FINAL[final]())]).set_output(transform="pandas")
    try:
        pred = quiet(lambda: cross_val_predict(pipe, X, cv=cv))[0]
    except ValueError:
        gaps = False
        for tr, te in folds:
            _m, trail = quiet(lambda: hand(steps, op.EqualWeighted(), X.iloc[tr]))[0]
            gaps |= X.iloc[np.concatenate(te) if isinstance(te, list) else te][trail[-1]].isna().any().any()
        ctx.expect(gaps, "cross-refused", lambda: f"{what}: refused")
        ctx.outcome("gaps in test")
        return
    want = {}
    for k, (tr, te) in enumerate(folds):
        m, trail = quiet(lambda: hand(steps, FINAL[final](), X.iloc[tr]))[0]
        for t in te if isinstance(te, list) else [te]:
            want[k, tuple(t)] = m, trail[-1], X.iloc[t]
    sub = [p for ptf in (pred if isinstance(pred, Population) else [pred]) for p in ptf]
    ctx.expect(all(isinstance(q, MultiPeriodPortfolio) for q in (pred if isinstance(pred, Population) else [pred])) and len(sub) == len(want), "cross-count", lambda: f"{what}: {len(sub)} portfolios")
    left = list(want.values())
    for p in sub:
        hit = [j for j, (m, cols, x) in enumerate(left) if list(x.index) == list(p.observations) and same_portfolio(p, m, cols, x)]
        ctx.expect(bool(hit), "cross", lambda: f"{what}: the portfolio over {p.observations[0]}.. with {list(p.assets)} {p.weights} matches no fold by hand")
        if hit:
            left.pop(hit[0])
    ctx.state(kind, tuple(steps), split, final)
    ctx.step(len(sub))
    ctx.outcome("cross")


def do_grid(ctx, kind, split, measure):
    X = data(kind)
    cv = WalkForward(train_size=20, test_size=7) if split == "walk" else KFold(4)
    what = f"search over the number kept on {kind} data, {split}"
    pipe = Pipeline([("s", ps.SelectKExtremes()), ("opt", op.InverseVolatility())]).set_output(transform="pandas")
    grid = [1, 2, 3, 4, 5]
    search = GridSearchCV(pipe, {"s__k": grid, "s__highest": [True, False]}, cv=cv).fit(X)
    scores = {}
    for k, h in itertools.product(grid, (True, False)):
        s = []
        for tr, te in cv.split(X):
            m, trail = hand([ps.SelectKExtremes(k=k, highest=h)], op.InverseVolatility(), X.iloc[tr])
            r = X.iloc[te][trail[-1]].to_numpy() @ m.weights_
            s.append(r.mean() / r.std(ddof=1))
        scores[k, h] = np.mean(s)
    got = {(p["s__k"], p["s__highest"]): v for p, v in zip(search.cv_results_["params"], search.cv_results_["mean_test_score"])}
    ctx.expect(set(got) == set(scores) and all(abs(got[c] - scores[c]) <= 1e-9 for c in scores), "grid-scores", lambda: f"{what}: {got}, by hand {scores}")
    best = (search.best_params_["s__k"], search.best_params_["s__highest"])
    ctx.expect(scores[best] >= max(scores.values()) - 1e-12, "grid-best", lambda: f"{what}: chose {best} of {scores}")
    m, trail = hand([ps.SelectKExtremes(k=best[0], highest=best[1])], op.InverseVolatility(), X)
    p = search.predict(X)
    ctx.expect(same_portfolio(p, m, trail[-1], X), "grid-refit", lambda: f"{what}: refit on everything gives {list(p.assets)} {p.weights}")
    ctx.state(kind, split, measure)
    ctx.outcome("grid")


def do_factors(ctx, S):
    X = data("more")
    F = frame(returns(31, len(X), 2), ["F0", "F1"])
    X = X + F.to_numpy() @ np.array([[0.8, 0.3, 1.1, 0.2, 0.6], [0.1, 0.9, -0.4, 0.7, 0.2]])
    S = tuple(S)
    cols = [NAMES[i] for i in S]
    make = lambda: op.MeanRisk(prior_estimator=pr.FactorModel(), min_weights=LO, max_weights=HI)  # noqa: E731
    pipe = Pipeline([("keep", Keep(cols)), ("opt", make())]).set_output(transform="pandas")
    pipe.fit(X, F)
    ref = make().fit(X[cols], F)
    ctx.expect(np.allclose(pipe["opt"].weights_, ref.weights_, atol=1e-6), "factors", lambda: f"{cols}: {pipe['opt'].weights_}, by hand {ref.weights_}")
    ctx.expect(same_portfolio(pipe.predict(X), ref, cols, X), "factors-predict", lambda: f"{cols}: prediction differs")
    # folds keep returns and factors of the same dates together
    if len(S) in (2, 4):
        cv = WalkForward(train_size=24, test_size=8)
        pred = cross_val_predict(pipe, X, F, cv=cv)
        for p, (tr, te) in zip(pred, cv.split(X)):
            m = make().fit(X[cols].iloc[tr], F.iloc[tr])
            ctx.expect(same_portfolio(p, m, cols, X.iloc[te]), "factors-cross", lambda: f"{cols}: fold {te[0]} differs")
    # moments given by the user follow the selection
    pm = Pipeline([("keep", Keep(cols)), ("opt", op.MeanRisk(objective_function=OF.MAXIMIZE_UTILITY, prior_estimator=pr.EmpiricalPrior(mu_estimator=EWMu(alpha=0.3), covariance_estimator=EmpiricalCovariance(window_size=20))))])
    w = pm.set_output(transform="pandas").fit(X)["opt"].weights_
    ref = sk.clone(pm["opt"]).fit(X[cols]).weights_
    ctx.expect(np.allclose(w, ref, atol=1e-6), "moments", lambda: f"{cols}: {w}, by hand {ref}")
    ctx.state(S)
    ctx.outcome("factors")


def cases(tier):
    for S in subsets():
        for m in settings_models():
            yield ["settings", m[0], list(S)]
        yield ["factors", list(S)]
    kinds = ("full", "late", "flat", "more")
    for kind in kinds:
        for r in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
            for steps in itertools.permutations(SELECT, r):
                yield ["chain", kind, list(steps)]
        for steps in [*itertools.permutations(SELECT, 1), *itertools.permutations(SELECT, 2)]:
            for i, split in enumerate(SPLITS):
                if len(steps) == 1 or tier != "quick":
                    for final in ("EqualWeighted", "MeanRisk"):
                        yield ["cross", kind, list(steps), split, final]
                elif i == 0:
                    yield ["cross", kind, list(steps), split, "InverseVolatility"]
        if kind != "late":
            for split in ("walk", "folds") if kind != "flat" else ("folds",):
                yield ["grid", kind, split, RatioMeasure.SHARPE_RATIO.value]


def run_case(case, ctx):
    globals()["do_" + case[0]](ctx, *case[1:])
