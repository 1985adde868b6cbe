"""C16: fitting depends only on parameters and data, never on what happened before."""

import copy
import datetime as dt
import itertools

import numpy as np
import pandas as pd
import sklearn.base as skb
from sklearn.linear_model import LinearRegression
from sklearn.pipeline import Pipeline
from skfolio import cluster as cl
from skfolio import distance as di
from skfolio import distribution as ds
from skfolio import moments as mo
from skfolio import optimization as op
from skfolio import pre_selection as ps
from skfolio import prior as pr
from skfolio import uncertainty_set as us
from skfolio.measures import PerfMeasure as pm
from skfolio.measures import RiskMeasure as RM
from skfolio.optimization import ObjectiveFunction as OF

from mc import catalog
from mc.lib import frame, returns, same_value

PROPERTY = "C16"
BOUNDS = {
    "quick": "110 model configurations; every history of 1 of 9 or 2 of 6 events (fits on 3 other data sets, with arrays, failing "
    "fits, a prediction, parameter changes and back) before the final fit on either of 2 data sets, histories of length 1 "
    "for the 14 slow models; each of 152 optional settings given for one fit and dropped for the next, and the reverse; all inputs, parameters and sub-models compared byte for byte around every event",
    "thorough": "as quick with histories of length 2 of 9 events for all and of length 3 for the 60 fastest models",
}
CASE_CPU_S = 400
A5 = catalog.ASSETS[:5]


class D:
    """One data set."""

    def __init__(self, seed, n, k, kind="frame"):
        self.X, self.Y, self.vol = catalog.data(seed, n, k)
        if kind == "array":
            self.X, self.Y, self.vol = (v.to_numpy().copy() for v in (self.X, self.Y, self.vol))
        if kind == "nan":
            self.X.iloc[3, 1] = np.nan
        if kind == "empty":
            self.X = self.X.iloc[:0]
        self.kind = kind

    def inputs(self):
        return [self.X, self.Y, self.vol]

    def freeze(self):
        return [freeze(v) for v in self.inputs()]


def freeze(v, depth=0):
    """Deep snapshot of a caller's object."""
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return (type(v).__name__, list(v.index), list(getattr(v, "columns", [])), v.to_numpy().tobytes())
    if isinstance(v, np.ndarray):
        return ("array", v.shape, str(v.dtype), v.tobytes() if v.dtype != object else [freeze(x) for x in v.ravel()])
    if isinstance(v, dict):
        return ("dict", [(k, freeze(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [freeze(x, depth + 1) for x in v])
    if isinstance(v, skb.BaseEstimator):
        return (type(v).__name__, id(v), [(k, freeze(x, depth + 1)) for k, x in sorted(vars(v).items()) if depth < 8])
    return repr(v) if isinstance(v, (int, float, str, type(None), np.generic, dt.datetime)) else id(v)


def given(model):
    """Snapshot of everything passed to the constructor (sub-models included)."""
    return {k: freeze(getattr(model, k)) for k in model.get_params(deep=False)} if not isinstance(model, Pipeline) else {
        f"{n}.{k}": freeze(getattr(s, k)) for n, s in model.steps for k in s.get_params(deep=False)
    }  # fmt: skip


I5 = np.eye(5)
EXTRA = {
    "BL-array": lambda: pr.BlackLitterman(views=np.array(["A0 == 0.01", "A1 - A2 == 0.002"]), view_confidences=np.array([0.4, 0.9])),
    "BL-array-sure": lambda: pr.BlackLitterman(views=["A0 == 0.01", "A1 == 0.002"], view_confidences=np.array([0.0, 1.0])),
    "BL-groups": lambda: pr.BlackLitterman(
        views=["G1 - G2 == 0.002"], groups={a: list(catalog.GROUPS[a]) for a in A5}, prior_estimator=pr.EmpiricalPrior(mu_estimator=mo.EWMu())
    ),
    "EmpiricalPrior-log-ew": lambda: pr.EmpiricalPrior(
        is_log_normal=True, investment_horizon=5, mu_estimator=mo.ShrunkMu(), covariance_estimator=mo.DenoiseCovariance()
    ),
    "FactorModel-sub": lambda: pr.FactorModel(
        loading_matrix_estimator=pr.LoadingMatrixRegression(linear_regressor=LinearRegression()),
        factor_prior_estimator=pr.EmpiricalPrior(covariance_estimator=mo.LedoitWolf()),
        higham=True,
    ),
    "RB-array": lambda: op.RiskBudgeting(risk_budget=np.array([1, 2, 0, 1, 1]), min_weights=np.zeros(5), previous_weights=np.array([1, 0, 0, 0, 0]), transaction_costs=np.full(5, 0.001)),
    "MR-arrays": lambda: op.MeanRisk(
        min_weights=np.zeros(5), max_weights=np.full(5, 0.5), transaction_costs=np.full(5, 0.001), management_fees=np.array([0, 0, 0, 0, 0.001]),
        previous_weights=np.array([1, 0, 0, 0, 0]), groups=np.array([["a", "a", "b", "b", "b"]]), linear_constraints=["a <= 0.6", "b <= 0.8"],
        left_inequality=I5[:1], right_inequality=np.array([0.4]), max_turnover=0.9, l2_coef=0.01,
    ),
    "MR-arrays-ratio": lambda: op.MeanRisk(
        objective_function=OF.MAXIMIZE_RATIO, risk_measure=RM.CVAR, cvar_beta=0.8, min_weights=np.zeros(5), max_weights=np.full(5, 0.5),
        transaction_costs=np.full(5, 0.0001), previous_weights=np.array([1, 0, 0, 0, 0]), max_turnover=0.9,
    ),
    "MR-params": lambda: op.MeanRisk(portfolio_params=dict(name="p", annualized_factor=12), solver_params={"max_iter": 500}),
    "MR-prior": lambda: op.MeanRisk(
        prior_estimator=pr.EmpiricalPrior(mu_estimator=mo.ShrunkMu(covariance_estimator=mo.OAS()), covariance_estimator=mo.GerberCovariance()),
        save_problem=True,
    ),
    "MR-custom": lambda: op.MeanRisk(add_constraints=lambda w: w[0] <= 0.3, add_objective=lambda w: 0.001 * w[1]),
    "HRP-arrays": lambda: op.HierarchicalRiskParity(
        min_weights=np.full(5, 0.05), max_weights=np.full(5, 0.4), previous_weights=np.array([1, 0, 0, 0, 0]), transaction_costs=np.full(5, 0.001),
        portfolio_params=dict(name="h"),
    ),
    "HERC-arrays": lambda: op.HierarchicalEqualRiskContribution(min_weights=np.full(5, 0.05), max_weights=np.full(5, 0.4)),
    "NCO-subs": lambda: op.NestedClustersOptimization(
        inner_estimator=op.MeanRisk(prior_estimator=pr.EmpiricalPrior()), outer_estimator=op.RiskBudgeting(),
        clustering_estimator=cl.HierarchicalClustering(max_clusters=3), portfolio_params=dict(name="n"),
    ),
    "Stacking-subs": lambda: op.StackingOptimization(
        estimators=[("a", op.MeanRisk(objective_function=OF.MAXIMIZE_RATIO)), ("b", op.RiskBudgeting())], final_estimator=op.EqualWeighted(),
    ),
    "EmpMuSet-prior": lambda: us.EmpiricalMuUncertaintySet(prior_estimator=pr.EmpiricalPrior(mu_estimator=mo.EWMu())),
    "EmpCovSet-prior": lambda: us.EmpiricalCovarianceUncertaintySet(prior_estimator=pr.EmpiricalPrior(covariance_estimator=mo.OAS())),
    "ShrunkMu-sub": lambda: mo.ShrunkMu(covariance_estimator=mo.LedoitWolf(), method=mo.ShrunkMuMethods.BAYES_STEIN),
    "EquilibriumMu-array": lambda: mo.EquilibriumMu(weights=np.array([1, 1, 1, 1, 1]) / 5, covariance_estimator=mo.OAS()),
    "Denoise-sub": lambda: mo.DenoiseCovariance(covariance_estimator=mo.GerberCovariance()),
    "Detone-sub": lambda: mo.DetoneCovariance(covariance_estimator=mo.EWCovariance(), n_markets=2),
    "Implied-sub": lambda: mo.ImpliedCovariance(prior_covariance_estimator=mo.LedoitWolf(), window_size=5, linear_regressor=LinearRegression()),
    "Implied-adj": lambda: mo.ImpliedCovariance(volatility_risk_premium_adj=np.full(5, 1.2)),
    "Vine-lists": lambda: ds.VineCopula(
        max_depth=2, marginal_candidates=[ds.Gaussian(), ds.StudentT()], copula_candidates=[ds.GaussianCopula(), ds.ClaytonCopula()],
        central_assets=np.array([False, True, False, False, False]), random_state=1,
    ),
    "Synthetic-args": lambda: pr.SyntheticData(
        distribution_estimator=ds.VineCopula(max_depth=2, random_state=3, central_assets=["A0"], marginal_candidates=[ds.Gaussian()]), n_samples=40,
        sample_args=dict(conditioning={"A0": -0.02}),
    ),
    "SelectNonExpiring": lambda: ps.SelectNonExpiring(
        expiration_dates={"A0": dt.datetime(2021, 3, 3), "A1": dt.datetime(2030, 1, 1)}, expiration_lookahead=pd.DateOffset(days=5)
    ),
    "DropCorrelated-abs": lambda: ps.DropCorrelated(threshold=0.4, absolute=True),
    "SelectKExtremes-low": lambda: ps.SelectKExtremes(k=2, measure=RM.CVAR, highest=False),
    "Pipeline-drop": lambda: Pipeline([("drop", ps.DropCorrelated(threshold=0.7)), ("opt", op.HierarchicalRiskParity())]).set_output(transform="pandas"),
}
UNI = {
    n: (lambda c=c: c())
    for n, c in dict(Gaussian=ds.Gaussian, StudentT=ds.StudentT, JohnsonSU=ds.JohnsonSU, NIG=ds.NormalInverseGaussian).items()
}
BIV = {
    n: (lambda c=c: c())
    for n, c in dict(
        GaussianCopula=ds.GaussianCopula, StudentTCopula=ds.StudentTCopula, ClaytonCopula=ds.ClaytonCopula, GumbelCopula=ds.GumbelCopula,
        JoeCopula=ds.JoeCopula, IndependentCopula=ds.IndependentCopula,
    ).items()
}
CLU = {
    "HC": lambda: cl.HierarchicalClustering(),
    "HC-2": lambda: cl.HierarchicalClustering(max_clusters=2, linkage_method=cl.LinkageMethod.AVERAGE),
}
MODELS = {**catalog.ALL, **EXTRA, **UNI, **BIV, **CLU}
FACTOR = catalog.NEEDS_FACTORS | {"FactorModel-sub"}
IMPLIED = {"ImpliedCovariance", "Implied-sub", "Implied-adj"}
# alternative settings tried in histories
ALT = [
    ("MeanRisk", dict(max_weights=0.45)), ("MR-arrays", dict(l2_coef=0.5)), ("MR-", dict(min_weights=0.1)), ("RiskBudgeting", dict(max_weights=0.4)),
    ("RB-", dict(risk_budget=None)), ("MaximumDiv", dict(max_weights=0.4)), ("Distributionally", dict(max_weights=0.4)), ("HRP", dict(risk_measure=RM.CVAR)),
    ("HERC", dict(risk_measure=RM.STANDARD_DEVIATION)), ("NCO-kmeans", dict(inner_estimator=op.EqualWeighted())), ("NCO", dict(outer_estimator=op.EqualWeighted())),
    ("Stacking", dict(final_estimator=op.InverseVolatility())), ("Pipeline-drop", dict(drop__threshold=0.2)), ("Pipeline", dict(sel__k=2)),
    ("InverseVol", dict(prior_estimator=pr.EmpiricalPrior(covariance_estimator=mo.OAS()))), ("BlackLitterman-conf", dict(tau=0.5, view_confidences=None)),
    ("BlackLitterman", dict(tau=0.5)), ("BL-groups", dict(tau=0.5)), ("BL-", dict(view_confidences=None)), ("FactorModel", dict(residual_variance=False, higham=True)), ("EmpiricalPrior-log", dict(is_log_normal=False, investment_horizon=None)),
    ("EmpiricalPrior", dict(covariance_estimator=mo.OAS())), ("SyntheticData", dict(n_samples=20)), ("Synthetic-", dict(n_samples=20)),
    ("EmpiricalCovariance-window", dict(window_size=10)), ("EmpiricalCovarianceUncertaintySet", dict(confidence_level=0.5)), ("EmpiricalCovariance", dict(window_size=15)), ("EWCov", dict(alpha=0.5)),
    ("Gerber", dict(threshold=0.7)), ("DenoiseC", dict(covariance_estimator=mo.OAS())), ("Denoise-", dict(covariance_estimator=mo.OAS())), ("Detone", dict(n_markets=2)),
    ("LedoitWolf", dict(assume_centered=True)), ("OAS", dict(assume_centered=True)), ("ShrunkCov", dict(shrinkage=0.8)), ("Graphical", dict(alphas=1)),
    ("EmpiricalMuU", dict(confidence_level=0.5)), ("EmpMuSet", dict(confidence_level=0.5)), ("EmpCovSet", dict(confidence_level=0.5)), ("EmpiricalMu", dict(window_size=15)), ("EWMu", dict(alpha=0.5)), ("EquilibriumMu", dict(risk_aversion=9)),
    ("ShrunkMu", dict(vol_weighted_target=True)), ("PearsonD", dict(power=2)), ("KendallD", dict(absolute=True)), ("SpearmanD", dict(absolute=True)),
    ("CovarianceD", dict(covariance_estimator=mo.OAS())), ("DistanceC", dict(threshold=0.9)), ("MutualI", dict(n_bins=4)), ("BootstrapMu", dict(seed=9)), ("BootstrapC", dict(seed=9)),
    ("DropCorr", dict(threshold=0.1)), ("DropZero", dict(threshold=1.0)), ("SelectK", dict(k=1)), ("SelectNonD", dict(min_n_assets=1)), ("SelectNonE", dict(expiration_lookahead=pd.DateOffset(days=9000))),
    ("Vine", dict(max_depth=1)), ("LoadingM", dict(linear_regressor=LinearRegression())), ("Implied-adj", dict(volatility_risk_premium_adj=2.0)), ("Implied", dict(window_size=6)),
    ("GaussianCopula", dict(itau=False)), ("Gaussian", dict(loc=0.0)), ("StudentTC", dict(itau=False)), ("StudentT", dict(loc=0.0)), ("JohnsonSU", dict(loc=0.0)), ("NIG", dict(loc=0.0)),
    ("ClaytonC", dict(itau=False)), ("GumbelC", dict(itau=False)), ("JoeC", dict(itau=False)), ("HC", dict(linkage_method=cl.LinkageMethod.SINGLE)),
]  # fmt: skip
SLOW = {"GraphicalLassoCV", "MutualInformation", "JohnsonSU", "NIG"}
SLOW |= {k for k in MODELS if k.startswith(("Vine", "Synthetic", "NCO", "Stacking", "DistanceCorr", "MeanRisk-card"))}
EVENTS = ["fit-1", "fit-2", "fit-3", "fit-array", "fit-nan", "fit-empty", "use", "alter", "bad-param"]
PAIRS = ["fit-3", "fit-array", "fit-nan", "use", "alter", "bad-param"]
FASTEST = {"MeanRisk", "MR-arrays", "HRP", "HERC", "RiskBudgeting", "RB-array", "Pipeline"}


# values of optional settings: set, fitted, then unset and refitted (and the reverse)
SLOTS = dict(
    prior_estimator=lambda: pr.EmpiricalPrior(covariance_estimator=mo.ShrunkCovariance(shrinkage=0.9), mu_estimator=mo.EWMu(alpha=0.5)),
    portfolio_params=lambda: dict(name="p", annualized_factor=12), solver_params=lambda: {"max_iter": 6}, groups=lambda: [["a", "a", "b", "b", "b"]],
    scale_constraints=lambda: 3.0, scale_objective=lambda: 3.0, add_constraints=lambda: (lambda w: w[0] <= 0.05), add_objective=lambda: (lambda w: 0.01 * w[1]),
    left_inequality=lambda: I5[:1], right_inequality=lambda: np.array([0.04]), overwrite_expected_return=lambda: (lambda w: 0.02 * w[1]),
    previous_weights=lambda: [0.6, 0.4, 0, 0, 0], linear_constraints=lambda: ["A0 >= 0.3"], min_return=lambda: -0.9, max_budget=lambda: 0.7, min_budget=lambda: 0.5,
    max_long=lambda: 1.2, max_short=lambda: 0.1, min_acceptable_return=lambda: 0.002, max_tracking_error=lambda: 0.9, group_cardinalities=lambda: {"a": 1},
    max_average_drawdown=lambda: 0.9, max_cdar=lambda: 0.9, max_cvar=lambda: 0.9, max_edar=lambda: 0.9, max_evar=lambda: 0.9, max_semi_variance=lambda: 0.9,
    max_variance=lambda: 0.9, max_worst_realization=lambda: 0.9, threshold_long=lambda: 0.1, cardinality=lambda: 2, efficient_frontier_size=lambda: 2,
    max_turnover=lambda: 0.3, mu_uncertainty_set_estimator=lambda: us.EmpiricalMuUncertaintySet(), budget=lambda: None,
    covariance_uncertainty_set_estimator=lambda: us.EmpiricalCovarianceUncertaintySet(), n_jobs=lambda: 1, random_state=lambda: 4,
    distance_estimator=lambda: di.KendallDistance(absolute=True), covariance_estimator=lambda: mo.ShrunkCovariance(shrinkage=0.9), window_size=lambda: 9,
    hierarchical_clustering_estimator=lambda: cl.HierarchicalClustering(linkage_method=cl.LinkageMethod.SINGLE), loc=lambda: 0.0, scale=lambda: 0.02,
    mu_estimator=lambda: mo.EWMu(alpha=0.6), linear_regressor=lambda: LinearRegression(), prior_covariance_estimator=lambda: mo.ShrunkCovariance(shrinkage=0.9),
    volatility_risk_premium_adj=lambda: 1.4, weights=lambda: [0.6, 0.1, 0.1, 0.1, 0.1], factor_prior_estimator=lambda: pr.EmpiricalPrior(mu_estimator=mo.EWMu(alpha=0.6)),
    loading_matrix_estimator=lambda: pr.LoadingMatrixRegression(linear_regressor=LinearRegression()), n_bins=lambda: 3, risk_budget=lambda: [3, 1, 1, 1, 1],
    inner_estimator=lambda: op.EqualWeighted(), outer_estimator=lambda: op.EqualWeighted(), final_estimator=lambda: op.EqualWeighted(), max_clusters=lambda: 2,
    clustering_estimator=lambda: cl.HierarchicalClustering(max_clusters=2), kendall_tau=lambda: 0.4, central_assets=lambda: ["A3"],
    marginal_candidates=lambda: [ds.Gaussian()], copula_candidates=lambda: [ds.GaussianCopula()], fitness_measures=lambda: [RM.CVAR, pm.MEAN],
    sample_args=lambda: dict(conditioning={"A0": -0.02}), distribution_estimator=lambda: ds.VineCopula(max_depth=1, random_state=3), view_confidences=lambda: [0.3, 0.6],
)  # fmt: skip
TOGETHER = dict(
    left_inequality=["left_inequality", "right_inequality"], linear_constraints=["linear_constraints", "groups"], group_cardinalities=["group_cardinalities", "groups"],
    max_turnover=["max_turnover", "previous_weights"], max_budget=["max_budget", "min_budget", "budget"],
)  # fmt: skip
MIXED_INTEGER = {"group_cardinalities", "cardinality", "threshold_long"}


def slots():
    seen = set()
    for name, make in MODELS.items():
        m = make()
        for k, v in m.get_params(deep=False).items():
            if v is None and k in SLOTS and k not in ("right_inequality", "groups", "min_budget", "budget") and (type(m), k) not in seen:
                if k == "kendall_tau" and not getattr(m, "itau", True):
                    continue
                seen.add((type(m), k))
                yield name, k


def alternative(name):
    for prefix, p in ALT:
        if name.startswith(prefix):
            return p
    return None


def cases(tier):
    for name, k in slots():
        yield ["slot", name, k, 0]
        yield ["slot", name, k, 1]
    for name in MODELS:
        yield [name, [], 0]
        for e in EVENTS:
            yield [name, [e], 0]
            yield [name, [e], 1]
        if tier == "quick" and name in SLOW:
            continue
        for h in itertools.product(PAIRS if tier == "quick" else EVENTS, repeat=2):
            if h[0] == "use":
                continue
            yield [name, list(h), 0]
        if tier == "thorough" and (name in FASTEST or (not name.startswith(("MeanRisk", "MR-")) and name not in SLOW)):
            for h in itertools.product(EVENTS, repeat=3):
                yield [name, list(h), 0]


def dataset(key):
    n = 30
    return {
        0: lambda: D(1, n, 5), 1: lambda: D(2, n, 5, "array"), "fit-1": lambda: D(3, n, 5), "fit-2": lambda: D(4, 24, 5),
        "fit-3": lambda: D(5, 26, 6), "fit-array": lambda: D(6, n, 5, "array"), "fit-nan": lambda: D(7, n, 5, "nan"), "fit-empty": lambda: D(8, n, 5, "empty"),
    }[key]()  # fmt: skip


def do_fit(name, model, d):
    if name in UNI:
        return model.fit(d.X[["A0"]] if isinstance(d.X, pd.DataFrame) else d.X[:, :1])
    if name in BIV:
        u = np.argsort(np.argsort(np.asarray(d.X)[:, :2], axis=0), axis=0)
        return model.fit((u + 0.5) / max(len(u), 1))
    if name in CLU:
        c = np.corrcoef(np.asarray(d.X).T)
        dist = np.sqrt(np.maximum(1 - c, 0) / 2)
        if np.isnan(np.asarray(d.X)).any() or len(d.X) == 0:
            dist[0, 1] = np.nan
        if isinstance(d.X, pd.DataFrame):
            dist = pd.DataFrame(dist, columns=d.X.columns)
        return model.fit(dist)
    if name in IMPLIED:
        return model.fit(d.X, implied_vol=d.vol)
    if name in FACTOR:
        return model.fit(d.X, d.Y)
    return model.fit(d.X)


def use(name, model, d):
    """Results of the fitted model on data."""
    out = {}
    if isinstance(model, Pipeline) or hasattr(model, "predict"):
        p = model.predict(d.X)
        out["predict"] = np.array([q.returns for q in p]) if isinstance(p, list) else p.returns
    if name in catalog.SELECTORS or name.startswith(("Select", "Drop")):
        out["transform"] = np.asarray(model.transform(d.X))
    if hasattr(model, "sample") and name in {**catalog.DISTRIBUTIONS, "Vine-lists": 0}:
        out["sample"] = model.sample(5)
    if name in BIV:
        out["logpdf"] = model.score_samples(np.array([[0.2, 0.7], [0.6, 0.3]]))
    return out


def fresh(name, changes):
    m = MODELS[name]()
    if changes:
        m.set_params(**copy.deepcopy(changes))
    return m


def look(name, model, d):
    out = catalog.outputs(model)
    strip(out)
    return {"out": out, "use": use(name, model, d)}


def strip(o):
    """Timings and solver objects are not results."""
    if isinstance(o, dict):
        for k in ("problem_",):
            o.pop(k, None)
        for v in o.values():
            strip(v)
    elif isinstance(o, list):
        for v in o:
            strip(v)


def differ(a, b, path=""):
    """First path of `a` (the fresh result) that `b` does not reproduce."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k} missing"
            r = differ(a[k], b[k], f"{path}.{k}")
            if r:
                return r
        extra = [k for k in b if k not in a and k == "feature_names_in_"]
        return f"{path}.{extra[0]} left over" if extra else None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}"
        return next((r for i, (x, y) in enumerate(zip(a, b, strict=True)) if (r := differ(x, y, f"{path}[{i}]"))), None)
    return None if same_value(a, b, rtol=1e-9, atol=1e-12) else f"{path}: {str(a)[:120]} != {str(b)[:120]}"


_FRESH = {}


def reference(name, changed, key):
    k = (name, changed, key)
    if k not in _FRESH:
        d = dataset(key)
        m = fresh(name, alternative(name) if changed else None)
        try:
            do_fit(name, m, d)
            _FRESH[k] = ("ok", look(name, m, d))
        except Exception as e:
            _FRESH[k] = ("error", type(e).__name__, str(e)[:200])
    return _FRESH[k]


def guarded(ctx, name, model, d, f, what):
    """Run f; whatever happens, inputs and parameters must be as before."""
    data, par = d.freeze() if d else None, given(model)
    try:
        result = ("ok", f())
    except Exception as e:
        result = ("error", type(e).__name__, str(e)[:200])
    ctx.step()
    if d:
        now = d.freeze()
        for n, a, b in zip(("X", "y", "implied_vol"), data, now, strict=True):
            ctx.expect(a == b, f"input-{n}-modified", what)
    now = given(model)
    for k in par:
        ctx.expect(par[k] == now.get(k), f"parameter-modified-{k}", lambda k=k: f"{what}: parameter {k}")
    return result


def slot(case, ctx):
    """An optional setting given for one fit and dropped for the next, or the reverse."""
    _, name, k, given_last = case
    names = TOGETHER.get(k, [k])
    values = {n: SLOTS[n] for n in names if n in MODELS[name]().get_params(deep=False)}
    ctx.state(*case)
    ctx.trace()

    def build():
        m = MODELS[name]()
        if k in MIXED_INTEGER:
            m.set_params(solver="SCIP")
        return m

    back = {n: build().get_params(deep=False)[n] for n in values}
    results = []
    for history in (True, False):
        m = build()
        d = dataset("fit-1")
        if history:
            m.set_params(**(back if given_last else {n: f() for n, f in values.items()}))
            first = guarded(ctx, name, m, d, lambda m=m, d=d: do_fit(name, m, d), f"{case} at the first fit")
            ctx.outcome(f"slot-first-{first[0]}")
        m.set_params(**({n: f() for n, f in values.items()} if given_last else back))
        d = dataset(0)
        r = guarded(ctx, name, m, d, lambda m=m, d=d: do_fit(name, m, d), f"{case} at the last fit")
        ctx.outcome(f"slot-last-{r[0]}")
        results.append(("ok", look(name, m, d)) if r[0] == "ok" else r)
    got, want = results
    if want[0] == "error":
        ctx.expect(got == want, "error-differs", lambda: f"{case}: {got} instead of {want}")
        return
    ctx.expect(got[0] == "ok", "refit-fails", lambda: f"{case}: {got}")
    diff = differ(want[1], got[1])
    ctx.expect(diff is None, "history-dependent", lambda: f"{case}: {diff}")


def run_case(case, ctx):
    if case[0] == "slot":
        return slot(case, ctx)
    name, history, key = case
    ctx.state(*case[:1], *history, key)
    ctx.trace()
    model = MODELS[name]()
    alt = alternative(name)
    back = {k: model.get_params()[k] for k in alt} if alt else {}
    changed = False
    last = None
    for e in history:
        what = f"{case} at {e}"
        if e.startswith("fit"):
            d = dataset(e)
            r = guarded(ctx, name, model, d, lambda d=d: do_fit(name, model, d), what)
            ctx.outcome(f"{e}-{r[0]}")
            last = d if r[0] == "ok" else None
        elif e == "use":
            if last is not None:
                guarded(ctx, name, model, last, lambda: use(name, model, last), what)
        elif e == "alter" and alt:
            model.set_params(**(back if changed else copy.deepcopy(alt)))
            changed = not changed
        elif e == "bad-param" and alt:
            # a fit that fails because of a parameter, then the parameter is restored
            keep = {k: model.get_params()[k] for k in alt}
            k = next(iter(alt))
            model.set_params(**{k: "nonsense"})
            guarded(ctx, name, model, None, lambda: do_fit(name, model, dataset("fit-1")), what)
            model.set_params(**keep)
            last = None
    want = reference(name, changed, key)
    d = dataset(key)
    r = guarded(ctx, name, model, d, lambda: do_fit(name, model, d), f"{case} at the final fit")
    ctx.outcome(f"final-{want[0]}")
    if want[0] == "error":
        ctx.expect(r == want, "error-differs", lambda: f"{case}: {r} instead of {want}")
        return
    ctx.expect(r[0] == "ok", "refit-fails", lambda: f"{case}: {r}")
    ctx.expect(r[1] is model or isinstance(model, Pipeline), "fit-returns-self", case)
    got = guarded(ctx, name, model, d, lambda: look(name, model, d), f"{case} when used")
    ctx.expect(got[0] == "ok", "use-fails", lambda: f"{case}: {got}")
    diff = differ(want[1], got[1])
    ctx.expect(diff is None, "history-dependent", lambda: f"{case}: {diff}")


_ = (frame, returns)
