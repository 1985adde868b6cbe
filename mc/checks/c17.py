"""C17: reordering (or renaming) the assets only reorders (or renames) the result."""

import datetime as dt
import itertools

import cvxpy as cp
import numpy as np
import pandas as pd
import sklearn.model_selection as sks
from sklearn.linear_model import LinearRegression
from sklearn.pipeline import Pipeline
from skfolio import Portfolio
from skfolio import cluster as cl
from skfolio import distance as di
from skfolio import distribution as ds
from skfolio import moments as mo
from skfolio import optimization as op
from skfolio import pre_selection as ps
from skfolio import prior as pr
from skfolio import uncertainty_set as us
from skfolio.measures import ExtraRiskMeasure, PerfMeasure
from skfolio.measures import RiskMeasure as RM
from skfolio.model_selection import CombinatorialPurgedCV, cross_val_predict
from skfolio.optimization import ObjectiveFunction as OF

from mc.lib import close, returns

PROPERTY = "C17"
BOUNDS = {
    "quick": "all 24 orders of 4 assets x 3 namings (unordered names, reversed names, plain arrays) x 108 model configurations with every kind "
    "of per-asset setting, on 1 data set; all 6 orders of 3 factors x 6 factor models",
    "thorough": "as quick on 3 data sets, and all 120 orders of 5 assets",
}
NAMINGS = {"mixed": ["M", "C", "X", "B", "T"], "reversed": ["E", "D", "C", "B", "A"], "array": None}
LOW = 1e-9
SOLVER = 2e-3


class P:
    """One ordering of the assets: settings are written for assets 0..k-1 and reordered here."""

    def __init__(self, perm, naming):
        self.perm, self.names = list(perm), NAMINGS[naming]

    def n(self, i):
        if self.names is None:
            raise NeedsNames
        return self.names[i]

    def __call__(self, *values):
        return np.array([values[i] for i in self.perm])

    def rows(self, *rows):
        return np.array([[r[i] for i in self.perm] for r in rows])

    def map(self, *values, skip=()):
        return {self.n(i): v for i, v in enumerate(values) if i not in skip and i < len(self.perm)}

    def columns(self):
        return None if self.names is None else [self.names[i] for i in self.perm]


class NeedsNames(Exception):
    pass


def dataset(seed, k):
    X = returns(seed, 40, k, scale=0.04, drift=0.003)
    X[:, 1] = 0.7 * X[:, 0] + 0.3 * X[:, 1]
    X[:, 2] = -0.6 * X[:, 3] + 0.6 * X[:, 2] + 0.004
    F = returns(seed + 50, 40, 3, scale=0.04, drift=0.003)
    X = X + 0.5 * F @ np.array([[1.0, 0.3, -0.2, 0.4, 0.8], [0.8, -0.1, 0.5, 0.9, 0.1], [0.2, 0.4, 0.1, -0.5, 0.3]])[:, :k]
    vol = np.abs(returns(seed + 70, 40, k)) * 3 + 0.15
    X[0] = np.abs(X[0])
    return X, F, vol


def _mr(p=None, **kw):
    return op.MeanRisk(**kw)


W = (0.1, 0.2, 0.3, 0.4, 0.0)
G = [("a", "b", "a", "b", "c"), ("u", "u", "v", "w", "v")]
K5 = (1, 2, 3, 4, 5)
MODELS = {
    # moments
    "EmpiricalCovariance": lambda p: mo.EmpiricalCovariance(),
    "EWCovariance": lambda p: mo.EWCovariance(alpha=0.1),
    "Gerber": lambda p: mo.GerberCovariance(),
    "Gerber-raw": lambda p: mo.GerberCovariance(psd_variant=False, threshold=0.3),
    "Denoise": lambda p: mo.DenoiseCovariance(),
    "Detone": lambda p: mo.DetoneCovariance(n_markets=1),
    "LedoitWolf": lambda p: mo.LedoitWolf(),
    "OAS": lambda p: mo.OAS(),
    "Shrunk": lambda p: mo.ShrunkCovariance(shrinkage=0.3),
    "Implied": lambda p: mo.ImpliedCovariance(window_size=5),
    "Implied-adj": lambda p: mo.ImpliedCovariance(volatility_risk_premium_adj=p(1.0, 1.2, 1.4, 0.9, 1.1)),
    "Implied-adj-map": lambda p: mo.ImpliedCovariance(volatility_risk_premium_adj=p.map(1.0, 1.2, 1.4, 0.9, 1.1)),
    "EmpiricalMu": lambda p: mo.EmpiricalMu(),
    "EWMu": lambda p: mo.EWMu(alpha=0.1),
    "EquilibriumMu": lambda p: mo.EquilibriumMu(),
    "EquilibriumMu-w": lambda p: mo.EquilibriumMu(weights=p(*W), covariance_estimator=mo.OAS()),
    "ShrunkMu-js": lambda p: mo.ShrunkMu(),
    "ShrunkMu-js-vol": lambda p: mo.ShrunkMu(vol_weighted_target=True),
    "ShrunkMu-bs": lambda p: mo.ShrunkMu(method=mo.ShrunkMuMethods.BAYES_STEIN),
    "ShrunkMu-bop": lambda p: mo.ShrunkMu(method=mo.ShrunkMuMethods.BODNAR_OKHRIN, vol_weighted_target=True),
    # priors
    "EmpiricalPrior": lambda p: pr.EmpiricalPrior(),
    "EmpiricalPrior-log": lambda p: pr.EmpiricalPrior(is_log_normal=True, investment_horizon=10),
    "BL": lambda p: pr.BlackLitterman(views=[f"{p.n(0)} == 0.01", f"{p.n(1)} - {p.n(2)} == 0.002"]),
    "BL-conf": lambda p: pr.BlackLitterman(
        views=["a == 0.01", "u - v == 0.002", "b - a == 0.001"], groups=p.rows(*G), view_confidences=[0.4, 0.9, 0.2]
    ),
    "BL-map": lambda p: pr.BlackLitterman(
        views=["a == 0.01", f"u - {p.n(3)} == 0.002"], groups=p.map(*zip(*G, strict=True)), tau=0.2, risk_free_rate=0.001
    ),
    "Factor": lambda p: pr.FactorModel(loading_matrix_estimator=pr.LoadingMatrixRegression(linear_regressor=LinearRegression())),
    "Factor-nores": lambda p: pr.FactorModel(
        loading_matrix_estimator=pr.LoadingMatrixRegression(linear_regressor=LinearRegression()), residual_variance=False
    ),
    "Factor-lasso": lambda p: pr.FactorModel(),
    # distances and clusters
    "Pearson": lambda p: di.PearsonDistance(),
    "Pearson-abs": lambda p: di.PearsonDistance(absolute=True, power=2),
    "Kendall": lambda p: di.KendallDistance(),
    "Kendall-abs": lambda p: di.KendallDistance(absolute=True, power=1),
    "Spearman": lambda p: di.SpearmanDistance(power=3),
    "CovDistance": lambda p: di.CovarianceDistance(),
    "CovDistance-lw": lambda p: di.CovarianceDistance(covariance_estimator=mo.LedoitWolf(), absolute=True),
    "DistanceCorrelation": lambda p: di.DistanceCorrelation(),
    "MutualInformation": lambda p: di.MutualInformation(),
    "MutualInformation-raw": lambda p: di.MutualInformation(normalize=False, n_bins_method=di.NBinsMethod.KNUTH),
    # uncertainty sets
    "EmpMuSet": lambda p: us.EmpiricalMuUncertaintySet(),
    "EmpMuSet-full": lambda p: us.EmpiricalMuUncertaintySet(diagonal=False, confidence_level=0.8),
    "EmpCovSet": lambda p: us.EmpiricalCovarianceUncertaintySet(),
    "BootMuSet": lambda p: us.BootstrapMuUncertaintySet(n_bootstrap_samples=30, seed=4, diagonal=False),
    "BootCovSet": lambda p: us.BootstrapCovarianceUncertaintySet(n_bootstrap_samples=30, seed=4, diagonal=False),
    # pre-selection
    "DropCorrelated": lambda p: ps.DropCorrelated(threshold=0.3),
    "DropCorrelated-low": lambda p: ps.DropCorrelated(threshold=-0.5),
    "DropCorrelated-abs": lambda p: ps.DropCorrelated(threshold=0.3, absolute=True),
    "DropZeroVariance": lambda p: ps.DropZeroVariance(threshold=0.0012),
    "KExtremes": lambda p: ps.SelectKExtremes(k=2),
    "KExtremes-low": lambda p: ps.SelectKExtremes(k=3, measure=RM.CVAR, highest=False),
    "NonDominated": lambda p: ps.SelectNonDominated(min_n_assets=2),
    "NonDominated-three": lambda p: ps.SelectNonDominated(
        min_n_assets=3, fitness_measures=[PerfMeasure.MEAN, RM.CVAR, ExtraRiskMeasure.SKEW]
    ),
    "NonExpiring": lambda p: ps.SelectNonExpiring(
        expiration_dates=p.map(dt.datetime(2020, 2, 1), dt.datetime(2020, 3, 1), dt.datetime(2021, 1, 1), dt.datetime(2020, 2, 20), skip=(2,)),
        expiration_lookahead=pd.DateOffset(days=3),
    ),
    # convex
    "MeanRisk": _mr,
    "MR-short": lambda p: _mr(min_weights=-1, max_weights=1),
    "MR-std": lambda p: _mr(risk_measure=RM.STANDARD_DEVIATION, objective_function=OF.MAXIMIZE_RATIO, l2_coef=0),
    "MR-utility": lambda p: _mr(objective_function=OF.MAXIMIZE_UTILITY, risk_aversion=8.0, min_weights=-1, l2_coef=0.01),
    "MR-return": lambda p: _mr(objective_function=OF.MAXIMIZE_RETURN, max_weights=p(0.3, 0.5, 0.4, 0.35, 0.2)),
    "MR-bounds": lambda p: _mr(min_weights=p(0.05, 0.1, 0.15, 0.2, 0), max_weights=p(0.3, 0.5, 0.4, 0.35, 0.1)),
    "MR-bounds-map": lambda p: _mr(min_weights=p.map(0.05, 0.1, 0.15, 0.2, skip=(1,)), max_weights=p.map(0.3, 0.5, 0.4, 0.35, skip=(2,))),
    "MR-costs": lambda p: _mr(
        objective_function=OF.MAXIMIZE_UTILITY, risk_aversion=4, transaction_costs=p(0.001, 0.002, 0.003, 0.0001, 0), previous_weights=p(*W), l2_coef=0.01
    ),
    "MR-costs-map": lambda p: _mr(
        objective_function=OF.MAXIMIZE_UTILITY, risk_aversion=4, transaction_costs=p.map(0.001, 0.002, 0.003, 0.0001), l2_coef=0.01,
        previous_weights=p.map(*W, skip=(1,)), management_fees=p.map(0.003, 0.0001, 0.0002, 0.002, skip=(2,)),
    ),
    "MR-fees": lambda p: _mr(objective_function=OF.MAXIMIZE_RATIO, management_fees=p(0.001, 0.002, 0.0, 0.0001, 0)),
    "MR-turnover": lambda p: _mr(max_turnover=0.3, previous_weights=p(*W)),
    "MR-groups": lambda p: _mr(groups=p.rows(*G), linear_constraints=["a >= 0.6", "u <= 0.5", "w <= 0.3 * b"]),
    "MR-groups-map": lambda p: _mr(
        groups=p.map(*zip(*G, strict=True)), linear_constraints=["a >= 0.6", f"{p.n(0)} >= 0.2", f"{p.n(2)} <= 0.5 * {p.n(1)}"]
    ),
    "MR-matrix": lambda p: _mr(left_inequality=p.rows((1, -1, 0, 0, 0), (0, 0, 1, 2, 0)), right_inequality=np.array([-0.05, 0.2])),
    "MR-mar": lambda p: _mr(risk_measure=RM.SEMI_VARIANCE, min_acceptable_return=0.001, l2_coef=1e-3),
    "MR-card": lambda p: _mr(risk_measure=RM.MEAN_ABSOLUTE_DEVIATION, cardinality=2, solver="SCIPY"),
    "MR-group-card": lambda p: _mr(
        risk_measure=RM.MEAN_ABSOLUTE_DEVIATION, groups=p.rows(*G), group_cardinalities={"a": 1, "u": 1}, solver="SCIPY"
    ),
    "MR-threshold": lambda p: _mr(risk_measure=RM.CVAR, cvar_beta=0.8, threshold_long=p(0.4, 0.3, 0.2, 0.1, 0.3), solver="SCIPY"),
    "MR-l1": lambda p: _mr(objective_function=OF.MAXIMIZE_UTILITY, min_weights=-1, l1_coef=0.001, risk_aversion=6),
    "MR-cvar": lambda p: _mr(risk_measure=RM.CVAR, cvar_beta=0.8, l2_coef=0.01),
    "MR-evar": lambda p: _mr(risk_measure=RM.EVAR, evar_beta=0.8, l2_coef=0.01),
    "MR-worst": lambda p: _mr(risk_measure=RM.WORST_REALIZATION, l2_coef=0.01),
    "MR-mad": lambda p: _mr(risk_measure=RM.MEAN_ABSOLUTE_DEVIATION, l2_coef=0.01),
    "MR-flpm": lambda p: _mr(risk_measure=RM.FIRST_LOWER_PARTIAL_MOMENT, l2_coef=0.01),
    "MR-cdar": lambda p: _mr(risk_measure=RM.CDAR, cdar_beta=0.8, l2_coef=0.01),
    "MR-mdd": lambda p: _mr(risk_measure=RM.MAX_DRAWDOWN, l2_coef=0.01),
    "MR-add": lambda p: _mr(risk_measure=RM.AVERAGE_DRAWDOWN, l2_coef=0.01),
    "MR-edar": lambda p: _mr(risk_measure=RM.EDAR, l2_coef=0.01),
    "MR-ulcer": lambda p: _mr(risk_measure=RM.ULCER_INDEX, l2_coef=0.01),
    "MR-gini": lambda p: _mr(risk_measure=RM.GINI_MEAN_DIFFERENCE, l2_coef=0.01),
    "MR-bl": lambda p: _mr(
        objective_function=OF.MAXIMIZE_RATIO, prior_estimator=pr.BlackLitterman(views=["a - b == 0.004", "u == 0.01"], groups=p.rows(*G))
    ),
    "MR-factor": lambda p: _mr(prior_estimator=pr.FactorModel(loading_matrix_estimator=pr.LoadingMatrixRegression(linear_regressor=LinearRegression()))),
    "MR-frontier": lambda p: _mr(efficient_frontier_size=3),
    "MR-robust": lambda p: _mr(
        objective_function=OF.MAXIMIZE_UTILITY, mu_uncertainty_set_estimator=us.EmpiricalMuUncertaintySet(diagonal=False), risk_aversion=3
    ),
    "MR-robust-cov": lambda p: _mr(covariance_uncertainty_set_estimator=us.EmpiricalCovarianceUncertaintySet()),
    "MR-add-constraint": lambda p: _mr(add_constraints=lambda w: w[p.perm.index(0)] >= 0.3),
    "MR-overwrite": lambda p: _mr(
        objective_function=OF.MAXIMIZE_UTILITY, overwrite_expected_return=lambda w: w @ p(0.01, 0.0, 0.005, 0.007, 0), risk_aversion=5
    ),
    "RB": lambda p: op.RiskBudgeting(),
    "RB-budget": lambda p: op.RiskBudgeting(risk_budget=p(*K5), min_weights=p(0.1, 0, 0, 0.05, 0)),
    "RB-cvar-map": lambda p: op.RiskBudgeting(risk_measure=RM.CVAR, cvar_beta=0.8, risk_budget=p.map(*K5)),
    "MaxDiv": lambda p: op.MaximumDiversification(),
    "MaxDiv-bounds": lambda p: op.MaximumDiversification(max_weights=p(0.3, 0.5, 0.4, 0.35, 0.2)),
    "DRCVaR": lambda p: op.DistributionallyRobustCVaR(cvar_beta=0.8, wasserstein_ball_radius=0.02, max_weights=p(0.3, 0.5, 0.4, 0.35, 0.2)),
    # clusters
    "HRP": lambda p: op.HierarchicalRiskParity(),
    "HRP-bounds": lambda p: op.HierarchicalRiskParity(min_weights=p(0.05, 0.1, 0.15, 0.2, 0), max_weights=p(0.2, 0.3, 0.6, 0.45, 0.2)),
    "HRP-bounds-map": lambda p: op.HierarchicalRiskParity(min_weights=p.map(0.05, 0.1, 0.15, 0.2, skip=(0,)), risk_measure=RM.CVAR),
    "HRP-costs": lambda p: op.HierarchicalRiskParity(
        risk_measure=RM.CDAR, transaction_costs=p(0.003, 0.001, 0.0, 0.002, 0), previous_weights=p(*W), management_fees=p(0.001, 0, 0.002, 0, 0)
    ),
    "HERC": lambda p: op.HierarchicalEqualRiskContribution(),
    "HERC-bounds": lambda p: op.HierarchicalEqualRiskContribution(
        min_weights=p(0.05, 0.1, 0.15, 0.2, 0), max_weights=p(0.2, 0.3, 0.6, 0.45, 0.2), risk_measure=RM.SEMI_DEVIATION
    ),
    "HERC-kendall": lambda p: op.HierarchicalEqualRiskContribution(
        distance_estimator=di.KendallDistance(), hierarchical_clustering_estimator=cl.HierarchicalClustering(max_clusters=2)
    ),
    "NCO": lambda p: op.NestedClustersOptimization(
        inner_estimator=op.MeanRisk(l2_coef=0.001), outer_estimator=op.RiskBudgeting(),
        cv=sks.KFold(2), clustering_estimator=cl.HierarchicalClustering(max_clusters=2),
    ),
    "NCO-cpcv": lambda p: op.NestedClustersOptimization(
        inner_estimator=op.InverseVolatility(), outer_estimator=op.InverseVolatility(),
        clustering_estimator=cl.HierarchicalClustering(max_clusters=3), cv=CombinatorialPurgedCV(n_folds=4, n_test_folds=2),
    ),
    "NCO-costs-map": lambda p: op.NestedClustersOptimization(
        inner_estimator=op.MeanRisk(transaction_costs=p.map(0.002, 0.001, 0.0, 0.003), previous_weights=p.map(*W), l2_coef=0.01), cv="ignore",
        outer_estimator=op.InverseVolatility(), clustering_estimator=cl.HierarchicalClustering(max_clusters=2),
    ),
    "Stacking": lambda p: op.StackingOptimization(
        estimators=[("mr", op.MeanRisk(max_weights=p(0.3, 0.5, 0.4, 0.35, 0.2))), ("iv", op.InverseVolatility()), ("hrp", op.HierarchicalRiskParity())],
        final_estimator=op.RiskBudgeting(), cv=sks.KFold(2),
    ),
    "EqualWeighted": lambda p: op.EqualWeighted(),
    "InverseVolatility": lambda p: op.InverseVolatility(),
    "Pipeline": lambda p: Pipeline(
        [("sel", ps.SelectKExtremes(k=3)), ("drop", ps.DropCorrelated(threshold=0.5)), ("opt", op.MeanRisk(max_weights=0.8))]
    ),
    "Pipeline-map": lambda p: Pipeline(
        [("sel", ps.SelectKExtremes(k=3)), ("opt", op.MeanRisk(min_weights=p.map(0.1, 0.3, 0.2, 0.05), previous_weights=p.map(*W), l2_coef=0.01))]
    ),
    # distributions
    "Vine": lambda p: ds.VineCopula(max_depth=2, marginal_candidates=[ds.Gaussian()], copula_candidates=[ds.GaussianCopula(), ds.ClaytonCopula()]),
    "Vine-central": lambda p: ds.VineCopula(
        max_depth=3, central_assets=[p.n(1)], marginal_candidates=[ds.Gaussian()], copula_candidates=[ds.GaussianCopula(), ds.ClaytonCopula()]
    ),
}  # fmt: skip
FACTOR = {"Factor", "Factor-nores", "Factor-lasso", "MR-factor"}
# the seriation is only unique up to reflection, so bisection is order-free for powers of two only
POWER_OF_TWO = {"HRP", "HRP-bounds", "HRP-bounds-map", "HRP-costs", "Stacking"}
LOOSE = {"Factor-lasso": 1e-3, "Denoise": 1e-6, "Vine": 1e-3, "Vine-central": 1e-3, "ShrunkMu-bop": 1e-7}
SLOW = {"MR-card", "MR-group-card", "MR-threshold", "Vine", "Vine-central", "MR-robust-cov", "Factor-lasso", "MR-factor", "Pipeline-map", "Stacking"}
FACTOR_MODELS = {
    "ols": lambda v: pr.FactorModel(loading_matrix_estimator=pr.LoadingMatrixRegression(linear_regressor=LinearRegression())),
    "ols-nores": lambda v: pr.FactorModel(
        loading_matrix_estimator=pr.LoadingMatrixRegression(linear_regressor=LinearRegression()), residual_variance=False
    ),
    "lasso": lambda v: pr.FactorModel(),
    "lw": lambda v: pr.FactorModel(
        loading_matrix_estimator=pr.LoadingMatrixRegression(linear_regressor=LinearRegression()),
        factor_prior_estimator=pr.EmpiricalPrior(mu_estimator=mo.ShrunkMu(), covariance_estimator=mo.LedoitWolf()),
    ),
    "views": lambda v: pr.FactorModel(
        loading_matrix_estimator=pr.LoadingMatrixRegression(linear_regressor=LinearRegression()),
        factor_prior_estimator=pr.BlackLitterman(views=["F0 == 0.01", "F1 - F2 == 0.002"], view_confidences=[0.3, 0.8]),
    ),
    "views-groups": lambda v: pr.FactorModel(
        loading_matrix_estimator=pr.LoadingMatrixRegression(linear_regressor=LinearRegression()),
        factor_prior_estimator=pr.BlackLitterman(views=["q - F2 == 0.002"], groups={"F0": ["q"], "F1": ["q"], "F2": ["r"]}),
    ),
}


def cases(tier):
    sets = [(1, 4)] if tier == "quick" else [(1, 4), (2, 4), (3, 4), (4, 5)]
    for seed, k in sets:
        perms = list(itertools.permutations(range(k)))
        for m in MODELS:
            if m in POWER_OF_TWO and k != 4:
                continue
            for naming in NAMINGS:
                for c in range(0, len(perms), 6):
                    yield ["assets", m, seed, k, naming, [list(p) for p in perms[c : c + 6]]]
    for seed in (1, 2) if tier == "quick" else range(1, 9):
        for m in FACTOR_MODELS:
            yield ["factors", m, seed]


def observe(name, model, p, X, F, vol):
    """{what: (value, how it reorders)} after fitting on reordered data."""
    cols = p.columns()
    index = pd.date_range("2020-01-01", periods=len(X), freq="D")
    Xp = X[:, p.perm]
    Vp = vol[:, p.perm]
    frame = lambda a, c: pd.DataFrame(a, index=index, columns=c) if cols is not None else a  # noqa: E731
    Xp, Vp, Y = frame(Xp, cols), frame(Vp, cols), frame(F, ["F0", "F1", "F2"])
    if isinstance(model, Pipeline) and cols is not None:
        model.set_output(transform="pandas")
    if name.startswith("Implied"):
        if cols is not None:
            # named volatilities follow their names, whatever their order or company
            Vp = Vp.iloc[:, ::-1].assign(**{"not an asset": 9.0})
            Vp = Vp[[*Vp.columns[1:], Vp.columns[0]]]
        model.fit(Xp, implied_vol=Vp)
    elif name in FACTOR:
        model.fit(Xp, Y)
    else:
        model.fit(Xp)
    out = {}
    if hasattr(model, "mu_"):
        out["mu"] = model.mu_, "vector"
    if hasattr(model, "covariance_"):
        out["covariance"] = model.covariance_, "matrix"
    if hasattr(model, "prior_model_"):
        q = model.prior_model_
        out["prior mu"] = q.mu, "vector"
        out["prior covariance"] = q.covariance, "matrix"
        out["prior returns"] = q.returns, "columns"
        if q.cholesky is not None:
            out["prior root"] = q.cholesky @ q.cholesky.T, "matrix"
    if hasattr(model, "codependence_"):
        out["codependence"] = model.codependence_, "matrix"
        out["distance"] = model.distance_, "matrix"
        labels = cl.HierarchicalClustering(max_clusters=2).fit(pd.DataFrame(model.distance_, columns=cols)).labels_
        out["same cluster"] = np.equal.outer(labels, labels).astype(float), "matrix"
    if hasattr(model, "uncertainty_set_"):
        u = model.uncertainty_set_
        out["set size"] = np.array([u.k]), "same"
        out["set shape"] = u.sigma, "matrix" if len(u.sigma) == X.shape[1] else "kron"
    if hasattr(model, "get_support") and not isinstance(model, Pipeline):
        out["support"] = model.get_support().astype(float), "vector"
        T = model.transform(Xp)
        kept = [p.perm[j] for j in np.flatnonzero(model.get_support())]
        want = X[:, kept]
        if not close(np.asarray(T), want):
            out["wrong columns"] = np.asarray(T), "never"
        if cols is not None and list(model.get_feature_names_out()) != [p.names[i] for i in kept]:
            out["wrong names"] = kept, "never"
    if hasattr(model, "weights_") and not isinstance(model, Pipeline):
        out["weights"] = np.asarray(model.weights_), "vector"
    if hasattr(model, "predict"):
        q = model.predict(Xp)
        for i, q in enumerate(q if not isinstance(q, Portfolio) else [q]):
            out[f"returns {i}"] = q.returns, "same"
            if cols is not None:
                w = dict(zip(q.assets, q.weights, strict=True))
                out[f"by name {i}"] = np.array([w.get(n, 0.0) for n in p.names[: X.shape[1]]]), "same"
                c = q.contribution(measure=RM.CVAR)
                c = dict(zip(q.assets, c, strict=True))
                out[f"contribution {i}"] = np.array([c.get(n, 0.0) for n in p.names[: X.shape[1]]]), "same"
                comp = q.composition.iloc[:, 0].to_dict()
                if any(abs(comp.get(n, 0.0) - w[n]) > 1e-4 for n in w):
                    out["composition names"] = comp, "never"
    if isinstance(model, ds.VineCopula):
        out["density"] = model.score_samples(Xp), "same"
    return out


def undo(value, how, perm, k):
    inv = np.argsort(perm)
    v = np.asarray(value, dtype=float)
    if how == "vector" or how == "columns":
        return v[..., inv]
    if how == "matrix":
        return v[np.ix_(inv, inv)]
    if how == "kron":
        idx = (inv[:, None] * k + inv[None, :]).ravel()
        return v[np.ix_(idx, idx)]
    return v


def tolerance(name, model, what):
    if name in LOOSE:
        return LOOSE[name]
    if isinstance(model, (op.EqualWeighted, op.InverseVolatility, op.HierarchicalRiskParity)):
        return LOW
    if isinstance(model, (op.MeanRisk, op.RiskBudgeting, op.MaximumDiversification, Pipeline, op.StackingOptimization)):
        return SOLVER * 0.05 if what.startswith("returns") else SOLVER
    if isinstance(model, (op.DistributionallyRobustCVaR, op.NestedClustersOptimization, op.HierarchicalEqualRiskContribution)):
        return SOLVER
    return 1e-6 if what == "distance" else 1e-8


CACHE = {}


def reference(name, seed, k, naming):
    key = (name, seed, k, naming)
    if key not in CACHE:
        p = P(range(k), naming)
        CACHE[key] = observe(name, MODELS[name](p), p, *dataset(seed, k))
    return CACHE[key]


def compare(ctx, name, model, got, want, perm, k, tag):
    ctx.expect(set(got) == set(want), f"{tag}-outputs", lambda: f"{name}: {sorted(got)} but {sorted(want)} in the first order")
    for what, (value, how) in got.items():
        ctx.expect(how != "never", f"{tag}-{what.replace(' ', '-')}", lambda: f"{name}: {value}")
        a, b = undo(value, how, perm, k), np.asarray(want[what][0], dtype=float)
        tol = tolerance(name, model, what)
        scale = max(1e-12, float(np.nanmax(np.abs(b))) if b.size else 1e-12) if tol < SOLVER * 0.01 else 1.0
        ctx.expect(
            a.shape == b.shape and np.allclose(a, b, rtol=0, atol=tol * scale, equal_nan=True),
            f"{tag}-{what.split()[0]}",
            lambda: f"{name}: {what} brought back to the first order is {a.tolist()[:6]} but {b.tolist()[:6]} for the first order",
        )


def run_case(case, ctx):
    if case[0] == "factors":
        return factors(case, ctx)
    _, name, seed, k, naming, perms = case
    try:
        MODELS[name](P(range(k), naming))
    except NeedsNames:
        ctx.outcome("needs names")
        return
    try:
        want = reference(name, seed, k, naming)
    except cp.SolverError:
        ctx.outcome("solver failure")
        return
    if naming == "reversed":  # names carry no meaning: same values under other names
        mixed = reference(name, seed, k, "mixed")
        model = MODELS[name](P(range(k), naming))
        compare(ctx, name, model, want, mixed, range(k), k, "renaming")
        ctx.step()
    if name == "NonExpiring" and naming == "array":
        return
    data = dataset(seed, k)
    for perm in perms:
        ctx.state(name, seed, k, naming, perm)
        p = P(perm, naming)
        model = MODELS[name](p)
        try:
            got = observe(name, model, p, *data)
        except cp.SolverError:  # numerical failure of the solver: nothing to compare
            ctx.outcome("solver failure")
            continue
        ctx.step()
        compare(ctx, name, model, got, want, perm, k, "reordering")
    ctx.trace()
    ctx.outcome(f"{name.split('-')[0]}")


def factors(case, ctx):
    _, name, seed = case
    X, F, _ = dataset(seed, 4)
    index = pd.date_range("2020-01-01", periods=len(X), freq="D")
    X = pd.DataFrame(X, index=index, columns=list("abcd"))
    Y = pd.DataFrame(F, index=index, columns=["F0", "F1", "F2"])
    want = FACTOR_MODELS[name](None).fit(X, Y)
    tol = 1e-3 if name == "lasso" else 1e-9
    for perm in itertools.permutations(range(3)):
        ctx.state(name, seed, perm)
        m = FACTOR_MODELS[name](None).fit(X, Y.iloc[:, list(perm)])
        ctx.step()
        a, b = m.prior_model_, want.prior_model_
        ctx.expect(close(a.mu, b.mu, tol, tol), "factor-order-mu", f"{name} {perm}: {a.mu} != {b.mu}")
        ctx.expect(close(a.covariance, b.covariance, tol, tol), "factor-order-covariance", f"{name} {perm}: {a.covariance} != {b.covariance}")
        ctx.expect(close(a.returns, b.returns, tol, tol), "factor-order-returns", f"{name} {perm}")
        ctx.expect(
            close(a.cholesky @ a.cholesky.T, b.cholesky @ b.cholesky.T, tol, tol), "factor-order-root", f"{name} {perm}"
        )
        la, lb = m.loading_matrix_estimator_.loading_matrix_, want.loading_matrix_estimator_.loading_matrix_
        ctx.expect(close(la, lb[:, list(perm)], tol * 100, tol * 100), "factor-order-loadings", f"{name} {perm}: {la} != {lb}")
    ctx.trace()
    ctx.outcome("factors")
