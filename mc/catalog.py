"""Estimators of the library in small configurations, shared by several checks."""

import numpy as np
import pandas as pd
import sklearn.base as skb
import sklearn.cluster as skcl
import sklearn.model_selection as sks
from sklearn.linear_model import LinearRegression, Ridge
from sklearn.pipeline import Pipeline
from skfolio import cluster as cl
from skfolio import distance as di
from skfolio import distribution as ds
from skfolio import moments as mo
from skfolio import optimization as op
from skfolio import pre_selection as ps
from skfolio import prior as pr
from skfolio import uncertainty_set as us
from skfolio.measures import ExtraRiskMeasure, PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.model_selection import CombinatorialPurgedCV, WalkForward

from mc.lib import frame, names, returns

RM = RiskMeasure
OF = op.ObjectiveFunction
ASSETS = names(6)
GROUPS = {a: [["G1", "G2"][i % 2], ["H1", "H2", "H1", "H3", "H2", "H3"][i]] for i, a in enumerate(ASSETS)}
COSTS = {a: 0.0001 * (i + 1) for i, a in enumerate(ASSETS)}
PREV = {a: 0.1 * (i + 1) for i, a in enumerate(ASSETS[:3])}


def data(seed=1, n=40, k=5):
    """(returns, factors, implied volatility) with named columns."""
    X = frame(returns(seed, n, k))
    F = returns(seed + 100, n, 3)
    loads = np.array([[1.0, 0.3, -0.2], [0.8, -0.1, 0.5], [1.2, 0.4, 0.1], [0.5, 0.9, -0.4], [0.7, -0.6, 0.2], [0.9, 0.2, 0.3]])[:k]
    X = X * 0.6 + F @ loads.T * 0.6
    Y = frame(F, cols=["F0", "F1", "F2"])
    vol = pd.DataFrame(np.abs(returns(seed + 200, n, k)) * 3 + 0.15, index=X.index, columns=X.columns)
    return X, Y, vol


def _mr(**kw):
    return lambda: op.MeanRisk(**kw)


COVARIANCES = {
    "EmpiricalCovariance": lambda: mo.EmpiricalCovariance(),
    "EmpiricalCovariance-window": lambda: mo.EmpiricalCovariance(window_size=20, ddof=0),
    "EWCovariance": lambda: mo.EWCovariance(alpha=0.1),
    "GerberCovariance": lambda: mo.GerberCovariance(),
    "GerberCovariance-raw": lambda: mo.GerberCovariance(psd_variant=False, threshold=0.3, higham=True),
    "DenoiseCovariance": lambda: mo.DenoiseCovariance(),
    "DetoneCovariance": lambda: mo.DetoneCovariance(n_markets=1),
    "LedoitWolf": lambda: mo.LedoitWolf(),
    "OAS": lambda: mo.OAS(),
    "ShrunkCovariance": lambda: mo.ShrunkCovariance(shrinkage=0.3),
    "GraphicalLassoCV": lambda: mo.GraphicalLassoCV(cv=2, alphas=2, n_refinements=1),
}
MUS = {
    "EmpiricalMu": lambda: mo.EmpiricalMu(),
    "EWMu": lambda: mo.EWMu(alpha=0.1, window_size=25),
    "EquilibriumMu": lambda: mo.EquilibriumMu(risk_aversion=2),
    "ShrunkMu-js": lambda: mo.ShrunkMu(),
    "ShrunkMu-bs": lambda: mo.ShrunkMu(method=mo.ShrunkMuMethods.BAYES_STEIN, vol_weighted_target=True),
    "ShrunkMu-bop": lambda: mo.ShrunkMu(method=mo.ShrunkMuMethods.BODNAR_OKHRIN),
}
PRIORS = {
    "EmpiricalPrior": lambda: pr.EmpiricalPrior(),
    "EmpiricalPrior-ew": lambda: pr.EmpiricalPrior(mu_estimator=mo.EWMu(), covariance_estimator=mo.LedoitWolf()),
    "EmpiricalPrior-log": lambda: pr.EmpiricalPrior(is_log_normal=True, investment_horizon=10),
    "BlackLitterman": lambda: pr.BlackLitterman(views=["A0 == 0.01", "A1 - A2 == 0.002"]),
    "BlackLitterman-conf": lambda: pr.BlackLitterman(
        views=["A0 == 0.01", "G1 - G2 == 0.002"], groups=GROUPS, view_confidences=[0.4, 0.9], tau=0.1
    ),
    "FactorModel": lambda: pr.FactorModel(),
    "FactorModel-bl": lambda: pr.FactorModel(
        factor_prior_estimator=pr.BlackLitterman(views=["F0 == 0.01"]),
        loading_matrix_estimator=pr.LoadingMatrixRegression(linear_regressor=LinearRegression()),
        residual_variance=False,
    ),
    "SyntheticData": lambda: pr.SyntheticData(
        distribution_estimator=ds.VineCopula(max_depth=2, random_state=3), n_samples=60
    ),
}
DISTANCES = {
    "PearsonDistance": lambda: di.PearsonDistance(),
    "PearsonDistance-abs": lambda: di.PearsonDistance(absolute=True, power=2),
    "KendallDistance": lambda: di.KendallDistance(),
    "SpearmanDistance": lambda: di.SpearmanDistance(power=3),
    "CovarianceDistance": lambda: di.CovarianceDistance(covariance_estimator=mo.LedoitWolf()),
    "DistanceCorrelation": lambda: di.DistanceCorrelation(),
    "MutualInformation": lambda: di.MutualInformation(),
}
UNCERTAINTY = {
    "EmpiricalMuUncertaintySet": lambda: us.EmpiricalMuUncertaintySet(),
    "EmpiricalMuUncertaintySet-full": lambda: us.EmpiricalMuUncertaintySet(diagonal=False, confidence_level=0.8),
    "EmpiricalCovarianceUncertaintySet": lambda: us.EmpiricalCovarianceUncertaintySet(),
    "BootstrapMuUncertaintySet": lambda: us.BootstrapMuUncertaintySet(n_bootstrap_samples=20, seed=4, block_size=3.0),
    "BootstrapCovarianceUncertaintySet": lambda: us.BootstrapCovarianceUncertaintySet(
        n_bootstrap_samples=20, seed=4, block_size=3.0
    ),
}
SELECTORS = {
    "DropCorrelated": lambda: ps.DropCorrelated(threshold=0.6),
    "DropZeroVariance": lambda: ps.DropZeroVariance(),
    "SelectKExtremes": lambda: ps.SelectKExtremes(k=3),
    "SelectNonDominated": lambda: ps.SelectNonDominated(min_n_assets=3),
    "SelectComplete": lambda: ps.SelectComplete(),
}
CONVEX = {
    "MeanRisk": _mr(),
    "MeanRisk-std-ratio": _mr(risk_measure=RM.STANDARD_DEVIATION, objective_function=OF.MAXIMIZE_RATIO),
    "MeanRisk-utility": _mr(objective_function=OF.MAXIMIZE_UTILITY, risk_aversion=3.0, min_weights=-1, l2_coef=0.01),
    "MeanRisk-return": _mr(objective_function=OF.MAXIMIZE_RETURN, max_variance=0.0002, max_weights=0.6),
    "MeanRisk-cvar": _mr(risk_measure=RM.CVAR, cvar_beta=0.9, transaction_costs=COSTS, previous_weights=PREV),
    "MeanRisk-cdar": _mr(risk_measure=RM.CDAR, cdar_beta=0.8, l2_coef=0.001),
    "MeanRisk-evar": _mr(risk_measure=RM.EVAR, evar_beta=0.9, l2_coef=0.001),
    "MeanRisk-semi": _mr(risk_measure=RM.SEMI_VARIANCE, management_fees=COSTS, min_acceptable_return=0.0),
    "MeanRisk-gini": _mr(risk_measure=RM.GINI_MEAN_DIFFERENCE, l2_coef=0.001),
    "MeanRisk-mad": _mr(risk_measure=RM.MEAN_ABSOLUTE_DEVIATION, l2_coef=0.001),
    "MeanRisk-ulcer": _mr(risk_measure=RM.ULCER_INDEX, l2_coef=0.001),
    "MeanRisk-groups": _mr(groups=GROUPS, linear_constraints=["G1 <= 0.7", "A0 >= 0.1"], max_turnover=1.4, previous_weights=PREV),
    "MeanRisk-card": _mr(cardinality=2, solver="SCIP"),
    "MeanRisk-targets": _mr(min_return=[0.0, 0.0005]),
    "MeanRisk-frontier": _mr(efficient_frontier_size=3),
    "MeanRisk-uncertain": _mr(
        objective_function=OF.MAXIMIZE_UTILITY,
        mu_uncertainty_set_estimator=us.EmpiricalMuUncertaintySet(),
        covariance_uncertainty_set_estimator=us.EmpiricalCovarianceUncertaintySet(),
    ),
    "MeanRisk-bl": _mr(
        objective_function=OF.MAXIMIZE_RATIO,
        prior_estimator=pr.BlackLitterman(views=["A0 == 0.01", "A1 - A2 == 0.002"], view_confidences=[0.5, 0.7]),
    ),
    "MeanRisk-factor": _mr(prior_estimator=pr.FactorModel()),
    "RiskBudgeting": lambda: op.RiskBudgeting(),
    "RiskBudgeting-cvar": lambda: op.RiskBudgeting(
        risk_measure=RM.CVAR, cvar_beta=0.8, risk_budget={a: i + 1.0 for i, a in enumerate(ASSETS)}
    ),
    "MaximumDiversification": lambda: op.MaximumDiversification(),
    "DistributionallyRobustCVaR": lambda: op.DistributionallyRobustCVaR(cvar_beta=0.8, wasserstein_ball_radius=0.01),
}
CLUSTERED = {
    "HRP": lambda: op.HierarchicalRiskParity(),
    "HRP-cdar": lambda: op.HierarchicalRiskParity(
        risk_measure=RM.CDAR, distance_estimator=di.KendallDistance(), max_weights=0.5,
        hierarchical_clustering_estimator=cl.HierarchicalClustering(linkage_method=cl.LinkageMethod.SINGLE),
    ),
    "HERC": lambda: op.HierarchicalEqualRiskContribution(),
    "HERC-cvar": lambda: op.HierarchicalEqualRiskContribution(
        risk_measure=RM.CVAR, hierarchical_clustering_estimator=cl.HierarchicalClustering(max_clusters=2), min_weights=0.05
    ),
    "NCO": lambda: op.NestedClustersOptimization(
        cv=sks.KFold(2), clustering_estimator=cl.HierarchicalClustering(max_clusters=2)
    ),
    "NCO-kmeans": lambda: op.NestedClustersOptimization(
        inner_estimator=op.RiskBudgeting(), outer_estimator=op.EqualWeighted(), cv="ignore",
        clustering_estimator=skcl.KMeans(n_clusters=2, n_init=3, random_state=0),
    ),
    "NCO-cpcv": lambda: op.NestedClustersOptimization(
        inner_estimator=op.InverseVolatility(),
        outer_estimator=op.MeanRisk(),
        clustering_estimator=cl.HierarchicalClustering(max_clusters=2),
        cv=CombinatorialPurgedCV(n_folds=4, n_test_folds=2),
    ),
    "Stacking": lambda: op.StackingOptimization(
        estimators=[("mr", op.MeanRisk()), ("iv", op.InverseVolatility()), ("hrp", op.HierarchicalRiskParity())],
        final_estimator=op.RiskBudgeting(), cv=sks.KFold(2),
    ),
    "Stacking-prefit-free": lambda: op.StackingOptimization(
        estimators=[("eq", op.EqualWeighted()), ("iv", op.InverseVolatility())], cv="ignore"
    ),
    "Pipeline": lambda: Pipeline(
        [("sel", ps.SelectKExtremes(k=3)), ("opt", op.MeanRisk(min_weights=0.05))]
    ).set_output(transform="pandas"),
}
NAIVE = {
    "EqualWeighted": lambda: op.EqualWeighted(),
    "InverseVolatility": lambda: op.InverseVolatility(),
    "InverseVolatility-ew": lambda: op.InverseVolatility(
        prior_estimator=pr.EmpiricalPrior(covariance_estimator=mo.EWCovariance())
    ),
}
OPTIMIZERS = {**CONVEX, **CLUSTERED, **NAIVE}
DISTRIBUTIONS = {
    "VineCopula": lambda: ds.VineCopula(max_depth=2, random_state=1),
    "VineCopula-central": lambda: ds.VineCopula(
        max_depth=2, central_assets=["A1"], marginal_candidates=[ds.Gaussian(), ds.StudentT()], log_transform=True, random_state=1
    ),
}
NEEDS_FACTORS = {"FactorModel", "FactorModel-bl", "MeanRisk-factor"}
ALL = {
    **COVARIANCES, **MUS, **PRIORS, **DISTANCES, **UNCERTAINTY, **SELECTORS, **OPTIMIZERS, **DISTRIBUTIONS,
    "LoadingMatrixRegression": lambda: pr.LoadingMatrixRegression(linear_regressor=Ridge()),
    "ImpliedCovariance": lambda: mo.ImpliedCovariance(window_size=5),
}
NEEDS_FACTORS |= {"LoadingMatrixRegression"}


def fit(name, model, D):
    X, Y, vol = D
    if name == "ImpliedCovariance":
        return model.fit(X, implied_vol=vol)
    if name in NEEDS_FACTORS:
        return model.fit(X, Y)
    return model.fit(X)


def plain(v, depth=0):
    """Observable content of a fitted attribute as nested plain values."""
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return v.to_numpy()
    if isinstance(v, (np.ndarray, str, bytes, int, float, bool, np.generic)) or v is None:
        return v
    if depth > 8:
        return "..."
    if isinstance(v, skb.BaseEstimator):
        return outputs(v, depth + 1)
    if isinstance(v, dict):
        return {str(k): plain(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x, depth + 1) for x in v]
    if hasattr(v, "__dataclass_fields__"):
        return {f: plain(getattr(v, f), depth + 1) for f in v.__dataclass_fields__}
    return type(v).__name__


def outputs(model, depth=0):
    """Every public fitted attribute (name ends with an underscore), recursively."""
    if isinstance(model, Pipeline):
        return [outputs(s, depth + 1) for _, s in model.steps]
    out = {"class": type(model).__name__}
    for k, v in vars(model).items():
        if k.endswith("_") and not k.startswith("_"):
            out[k] = plain(v, depth)
    return out


def params(model):
    """Every init parameter, recursively."""
    return {k: plain(v) if not isinstance(v, skb.BaseEstimator) else type(v).__name__
            for k, v in model.get_params(deep=True).items()}  # fmt: skip
