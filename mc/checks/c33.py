"""Unusable data and contradictory settings are refused, matching data is carried through."""

import inspect

import numpy as np
import pandas as pd
import sklearn.base as skb
from skfolio import Population, Portfolio
from skfolio import distance as di
from skfolio import distribution as ds
from skfolio import moments as mo
from skfolio import optimization as op
from skfolio import pre_selection as ps
from skfolio import prior as pr
from skfolio import uncertainty_set as us
from skfolio.measures import ExtraRiskMeasure, PerfMeasure, RiskMeasure
from skfolio.model_selection import CombinatorialPurgedCV, WalkForward, cross_val_predict

from mc import catalog as cat

PROPERTY = "C33"
BOUNDS = {
    "quick": "every catalogued estimator x {NaN, +inf, -inf} in each column at the first, middle and last row x "
    "7 malformed shapes; the same for factors and implied volatilities; fitted estimators on 8 kinds of mismatching "
    "data; 4 array forms; 150+ contradictory or ill-shaped settings; every nested-estimator slot x 8 wrong objects",
    "thorough": "the same with unusable values in every cell",
}
NAN, INF = np.nan, np.inf
RM, OF = RiskMeasure, op.ObjectiveFunction
_CACHE = {}


def data():
    if "D" not in _CACHE:
        _CACHE["D"] = cat.data()
    return _CACHE["D"]


def refused(f):
    try:
        f()
    except Exception:
        return True
    return False


# ---- bad data --------------------------------------------------------------------------
def cells(X, tier):
    n, k = X.shape
    rows = range(n) if tier == "thorough" else (0, n // 2, n - 1)
    for i in rows:
        for j in range(k):
            for v in (NAN, INF, -INF):
                A = X.copy()
                A.iloc[i, j] = v
                yield (i, j, v), A


def shapes(X):
    text = X.astype(object)
    text.iloc[2, 1] = "x"
    yield "series", X.iloc[:, 0]
    yield "1d", X.iloc[:, 0].to_numpy()
    yield "3d", X.to_numpy()[None]
    yield "text", text
    yield "no-rows", X.iloc[:0]
    yield "no-columns", X.iloc[:, :0]
    yield "none", None


def do_fit(ctx, name, tier):
    X, Y, V = data()
    for kind, A in [*cells(X, tier), *shapes(X)]:
        if name == "SelectComplete" and isinstance(kind, tuple) and np.isnan(kind[2]):
            continue  # made for missing values
        ctx.step()
        ctx.expect(
            refused(lambda: cat.fit(name, cat.ALL[name](), (A, Y, V))), "data", lambda: f"{name}.fit accepts {kind}"
        )
        ctx.state(name, "fit", str(kind))
    if name in cat.NEEDS_FACTORS:
        more = pd.concat([Y, Y.iloc[:1]])
        for kind, B in [*cells(Y, tier), *shapes(Y), ("shorter", Y.iloc[:-1]), ("longer", more)]:
            if kind in ("series", "1d"):
                continue  # a single factor
            ctx.step()
            ctx.expect(
                refused(lambda: cat.fit(name, cat.ALL[name](), (X, B, V))), "factors", lambda: f"{name}.fit accepts {kind}"
            )
            ctx.state(name, "factors", str(kind))
    if name == "ImpliedCovariance":
        bad = [("none", None), ("shorter", V.iloc[:-1]), ("narrower", V.iloc[:, :-1]), ("1d", V.iloc[:, 0].to_numpy())]
        for kind, B in [*cells(V, tier), *bad]:
            ctx.step()
            ctx.expect(refused(lambda: cat.ALL[name]().fit(X, implied_vol=B)), "volatility", lambda: f"accepts {kind}")
            ctx.state(name, "vol", str(kind))
    ctx.trace()
    ctx.outcome("fit")


# ---- data which do not match the fitted ones --------------------------------------------
METHODS = ("predict", "transform", "score", "score_samples")


def mismatches(X):
    nan = X.copy()
    nan.iloc[5, 1] = NAN
    yield "fewer", X.iloc[:, :-1]
    yield "more", X.assign(Q=X.iloc[:, 0])
    yield "fewer-array", X.to_numpy()[:, :-1]
    yield "more-array", np.hstack([X.to_numpy(), X.to_numpy()[:, :1]])
    yield "1d", X.iloc[:, 0].to_numpy()
    yield "nan", nan
    yield "nan-array", nan.to_numpy()
    for j in range(X.shape[1]):
        yield f"renamed {j}", X.rename(columns={X.columns[j]: "Q"})
    for j in range(X.shape[1] - 1):
        c = list(X.columns)
        c[j], c[j + 1] = c[j + 1], c[j]
        yield f"swapped {j}", X[c]
    yield "reversed", X.iloc[:, ::-1]


def do_use(ctx, name):
    D = X, _, _ = data()
    model = cat.fit(name, cat.ALL[name](), D)
    for method in METHODS:
        if not hasattr(model, method) or (method == "score" and isinstance(model, mo.BaseCovariance)):
            continue
        ctx.step()
        ctx.expect(
            refused(lambda: getattr(skb.clone(model), method)(X)), "unfitted", lambda: f"unfitted {name}.{method} answers"
        )
        getattr(model, method)(X)  # the matching data are accepted
        for kind, A in mismatches(X):
            if name == "SelectComplete" and kind.startswith("nan"):
                continue
            if not hasattr(model, "feature_names_in_") and kind.startswith(("renamed", "swapped", "reversed")):
                continue
            ctx.step()
            ctx.expect(
                refused(lambda: getattr(model, method)(A)), "mismatch", lambda: f"{name}.{method} accepts {kind} columns"
            )
            ctx.state(name, method, kind)
    if hasattr(model, "sample"):
        ctx.expect(refused(lambda: skb.clone(model).sample(3)), "unfitted", lambda: f"unfitted {name}.sample answers")
    ctx.trace()
    ctx.outcome("use")


# ---- forms of the same data -------------------------------------------------------------
# estimators whose settings use asset names need named columns
NAMED = {
    "BlackLitterman", "BlackLitterman-conf", "FactorModel-bl", "MeanRisk-cvar", "MeanRisk-semi", "MeanRisk-groups",
    "MeanRisk-bl", "RiskBudgeting-cvar", "VineCopula-central",
}  # fmt: skip
NOISY = {"VineCopula", "VineCopula-central", "SyntheticData"}


def _readonly(a):
    a = a.to_numpy().copy()
    a.flags.writeable = False
    return a


def _strided(a):
    b = np.zeros((2 * a.shape[0], 3 * a.shape[1]))
    b[::2, ::3] = a.to_numpy()
    return b[::2, ::3]


FORMS = {
    "array": lambda a: a.to_numpy(),
    "fortran": lambda a: np.asfortranarray(a.to_numpy()),
    "read-only": _readonly,
    "strided": _strided,
}


def numbers(v, path=""):
    """Every number of a nested observable, names left out."""
    if isinstance(v, dict):
        for k in sorted(v):
            if k != "feature_names_in_":
                yield from numbers(v[k], f"{path}.{k}")
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            yield from numbers(x, f"{path}.{i}")
    elif isinstance(v, np.ndarray) and v.dtype.kind in "fiub":
        yield path, v.astype(float)
    elif isinstance(v, (float, int, np.generic)):
        try:
            yield path, np.float64(v)
        except ValueError:
            pass


def do_forms(ctx, name):
    D = X, _, _ = data()
    model = cat.fit(name, cat.ALL[name](), D)
    weights = getattr(model, "weights_", None)
    want = dict(numbers(cat.outputs(model)))
    for form, make in FORMS.items():
        ctx.step()
        E = tuple(make(a) for a in D)
        if name in NAMED:
            ctx.expect(
                refused(lambda: cat.fit(name, cat.ALL[name](), E)), "names", lambda: f"{name} needs names, {form} has none"
            )
            continue
        other = cat.fit(name, cat.ALL[name](), E)
        if weights is not None:
            ctx.expect(np.allclose(weights, other.weights_, atol=2e-5), "form-weights", lambda: (name, form))
        elif not isinstance(model, op.BaseOptimization):
            got = dict(numbers(cat.outputs(other)))
            ctx.expect(got.keys() == want.keys(), "form-outputs", lambda: (name, form, got.keys() ^ want.keys()))
            for k, v in want.items():
                ctx.expect(
                    v.shape == got[k].shape and np.allclose(v, got[k], rtol=1e-6, atol=1e-7, equal_nan=True),
                    "form-values", lambda: f"{name} {form} {k}: {v} and {got[k]}",
                )  # fmt: skip
        ctx.state(name, form)
    if isinstance(model, op.BaseOptimization) or name == "Pipeline":
        new = X.iloc[3:17]
        p = model.predict(new)
        q = p if name in NAMED else model.predict(new.to_numpy())
        for a, b in zip(*([z] if isinstance(z, Portfolio) else z for z in (p, q)), strict=True):
            ctx.step()
            ctx.expect(np.allclose(a.returns, b.returns, atol=1e-12), "predict-form", lambda: name)
            ctx.expect(np.array_equal(a.observations, new.index), "observations", lambda: name)
            ctx.expect(len(b.observations) == len(new), "observations", lambda: name)
            if name != "Pipeline":
                ctx.expect(list(a.assets) == list(X.columns), "asset-names", lambda: (name, a.assets))
        ctx.expect(isinstance(p, Population) == (np.ndim(weights) == 2), "kind", lambda: (name, type(p)))
    ctx.trace()
    ctx.outcome("forms")


# ---- settings ---------------------------------------------------------------------------
VECTORS = {
    "short": [0.1] * 4, "long": [0.1] * 6, "2d": [[0.1] * 5], "nan-in-vector": [0.1, NAN, 0.1, 0.1, 0.1], "nan": NAN,
    "text": "x", "texts": ["a"] * 5,
}  # fmt: skip
PER_ASSET = (
    "min_weights", "max_weights", "transaction_costs", "management_fees", "previous_weights", "risk_budget",
    "threshold_long", "threshold_short",
)  # fmt: skip
OPTS = {
    c.__name__: c
    for c in (
        op.MeanRisk, op.RiskBudgeting, op.MaximumDiversification, op.DistributionallyRobustCVaR,
        op.HierarchicalRiskParity, op.HierarchicalEqualRiskContribution,
    )
}  # fmt: skip


def per_asset_settings():
    for n, c in OPTS.items():
        for p in PER_ASSET:
            if p in c().get_params():
                for k, v in VECTORS.items():
                    kw = {p: v}
                    if p == "previous_weights":
                        kw["transaction_costs"] = 0.001
                    if p.startswith("threshold"):
                        kw = {"threshold_long": 0.1, "solver": "SCIP", **kw}
                    if p == "threshold_short":
                        kw["min_weights"] = -1
                    yield f"{n} {p} {k}", c, kw


ONES = np.ones
BAD = [
    # bounds which cannot be met
    (op.MeanRisk, dict(min_weights=0.3, max_weights=0.2)),
    (op.MeanRisk, dict(min_weights=0.3)),
    (op.MeanRisk, dict(max_weights=0.1)),
    (op.MeanRisk, dict(max_weights=[0.1, 0.1, 0.1, 0.1, 0.5])),
    (op.MeanRisk, dict(min_return=10.0)),
    (op.MeanRisk, dict(max_variance=1e-12)),
    (op.MeanRisk, dict(max_cvar=1e-9)),
    (op.MeanRisk, dict(budget=None, min_budget=2, max_budget=1)),
    (op.MeanRisk, dict(linear_constraints=["A0 >= 0.8", "A1 >= 0.8"])),
    (op.MeanRisk, dict(cardinality=0, solver="SCIP")),
    (op.MeanRisk, dict(max_turnover=0.01, previous_weights=[0.9, 0, 0, 0, 0])),
    (op.MaximumDiversification, dict(min_weights=0.4)),
    (op.DistributionallyRobustCVaR, dict(max_weights=0.1)),
    # two answers to the same question
    (op.MeanRisk, dict(min_budget=0.5)),
    (op.MeanRisk, dict(max_budget=1.5)),
    (pr.EmpiricalPrior, dict(is_log_normal=True)),
    (pr.EmpiricalPrior, dict(investment_horizon=10)),
    # settings which need another one
    (op.MeanRisk, dict(min_weights=None, cardinality=2, solver="SCIP")),
    (op.MeanRisk, dict(max_weights=None, cardinality=2, solver="SCIP")),
    (op.MeanRisk, dict(min_weights=0.1, cardinality=2, solver="SCIP")),
    (op.MeanRisk, dict(cardinality=2)),
    (op.MeanRisk, dict(threshold_long=0.2)),
    (op.MeanRisk, dict(group_cardinalities={"G1": 1}, solver="SCIP")),
    (op.MeanRisk, dict(threshold_short=-0.1, solver="SCIP", min_weights=-1)),
    (op.MeanRisk, dict(threshold_long=0.1, solver="SCIP", min_weights=-1)),
    (op.MeanRisk, dict(max_turnover=0.1)),
    (op.MeanRisk, dict(max_tracking_error=0.01)),
    (op.MeanRisk, dict(efficient_frontier_size=3, objective_function=OF.MAXIMIZE_RATIO)),
    (op.MeanRisk, dict(efficient_frontier_size=3, objective_function=OF.MAXIMIZE_RETURN)),
    (op.MeanRisk, dict(efficient_frontier_size=3, objective_function=OF.MAXIMIZE_UTILITY)),
    # values outside their domain
    (op.MeanRisk, dict(efficient_frontier_size=1)),
    (op.MeanRisk, dict(efficient_frontier_size=0)),
    (op.MeanRisk, dict(max_long=0)),
    (op.MeanRisk, dict(max_long=-1)),
    (op.MeanRisk, dict(max_short=0, min_weights=-1)),
    (op.MeanRisk, dict(max_short=-0.5, min_weights=-1)),
    (op.MeanRisk, dict(max_variance=-1.0)),
    (op.MeanRisk, dict(budget=NAN)),
    (op.MeanRisk, dict(min_return=NAN)),
    (op.MeanRisk, dict(min_return=[0.0, NAN])),
    (op.MeanRisk, dict(min_return=[0.0, 0.0001], max_variance=[1.0])),
    (op.MeanRisk, dict(solver="NOPE")),
    (op.MeanRisk, dict(risk_measure="CVaR")),
    (op.MeanRisk, dict(risk_measure=PerfMeasure.MEAN)),
    (op.MeanRisk, dict(risk_measure=ExtraRiskMeasure.SKEW)),
    (op.MeanRisk, dict(objective_function="MINIMIZE")),
    (op.MeanRisk, dict(l1_coef=-1)),
    (op.MeanRisk, dict(l2_coef=-1)),
    (op.MeanRisk, dict(risk_aversion=-1, objective_function=OF.MAXIMIZE_UTILITY)),
    (op.MeanRisk, dict(add_constraints=3)),
    (op.MeanRisk, dict(add_constraints=lambda a, b, c: [])),
    (op.MeanRisk, dict(add_objective=lambda w: 1 / 0)),
    (op.MeanRisk, dict(overwrite_expected_return=5)),
    *((op.MeanRisk, {"risk_measure": r, b: v})
      for r, b in ((RM.CVAR, "cvar_beta"), (RM.EVAR, "evar_beta"), (RM.CDAR, "cdar_beta"), (RM.EDAR, "edar_beta"))
      for v in (1.0, 1.5)),
    (op.DistributionallyRobustCVaR, dict(cvar_beta=1.0)),
    (op.DistributionallyRobustCVaR, dict(cvar_beta=1.5)),
    (op.DistributionallyRobustCVaR, dict(wasserstein_ball_radius=-1)),
    (op.RiskBudgeting, dict(risk_measure="x")),
    (op.RiskBudgeting, dict(risk_measure=PerfMeasure.MEAN)),
    (op.RiskBudgeting, dict(min_weights=-0.1)),
    (op.RiskBudgeting, dict(min_weights=[0, 0, 0, 0, -0.1])),
    (op.RiskBudgeting, dict(risk_budget=[1, 1, 1, 1, -1])),
    *((c, kw)
      for c in (op.HierarchicalRiskParity, op.HierarchicalEqualRiskContribution)
      for kw in (
          dict(min_weights=-0.1), dict(min_weights=[0, 0, -0.1, 0, 0]), dict(min_weights=0.3), dict(max_weights=0.1),
          dict(max_weights=1.2), dict(max_weights=[1, 1, 1.1, 1, 1]), dict(max_weights=[0.2, 0.2, 0.2, 0.2, 0.1]),
          dict(min_weights=[0.3, 0.3, 0.3, 0.2, 0]), dict(min_weights=0.15, max_weights=[0.1, 1, 1, 1, 1]),
          dict(risk_measure="x"), dict(risk_measure=PerfMeasure.MEAN), dict(risk_measure=ExtraRiskMeasure.SKEW),
          dict(risk_measure=ExtraRiskMeasure.KURTOSIS),
      )),
    (mo.EWMu, dict(alpha=0)), (mo.EWMu, dict(alpha=1.5)), (mo.EWMu, dict(alpha=-0.5)),
    (mo.EWCovariance, dict(alpha=0)), (mo.EWCovariance, dict(alpha=1.5)), (mo.EWCovariance, dict(alpha=-0.5)),
    (mo.GerberCovariance, dict(threshold=-0.5)), (mo.GerberCovariance, dict(threshold=0)),
    (mo.GerberCovariance, dict(threshold=1)), (mo.GerberCovariance, dict(threshold=1.5)),
    (mo.ShrunkCovariance, dict(shrinkage=1.5)), (mo.ShrunkCovariance, dict(shrinkage=-0.5)),
    (mo.ShrunkMu, dict(method="x")),
    (mo.EquilibriumMu, dict(weights=[1, 2])),
    (mo.DetoneCovariance, dict(n_markets=6)),
    (di.MutualInformation, dict(n_bins_method="x")),
    (ps.DropCorrelated, dict(threshold=2)), (ps.DropCorrelated, dict(threshold=-2)),
    (ps.SelectKExtremes, dict(k=0)), (ps.SelectKExtremes, dict(k=-1)),
    (ps.DropZeroVariance, dict(threshold=-1)),
    # constraints and views
    (op.MeanRisk, dict(linear_constraints=["A0 <= "])),
    (op.MeanRisk, dict(linear_constraints=["A0 0.5"])),
    (op.MeanRisk, dict(linear_constraints="A0 <= 0.5")),
    (op.MeanRisk, dict(left_inequality=ONES((1, 4)), right_inequality=ONES(1))),
    (op.MeanRisk, dict(left_inequality=ONES((2, 5)), right_inequality=ONES(1))),
    (op.MeanRisk, dict(left_inequality=ONES((1, 5)), right_inequality=ONES(2))),
    (op.MeanRisk, dict(left_inequality=ONES(5), right_inequality=ONES(1))),
    (op.MeanRisk, dict(left_inequality=ONES((1, 5)), right_inequality=ONES((1, 1)))),
    (op.MeanRisk, dict(groups=[["a", "b"]], linear_constraints=["a <= 0.5"])),
    (pr.BlackLitterman, dict(views=[])),
    (pr.BlackLitterman, dict(views=["Q == 0.1"])),
    (pr.BlackLitterman, dict(views=["A0 <= 0.1"])),
    (pr.BlackLitterman, dict(views=["A0 == 0.1", "A1 >= 0.1"])),
    (pr.BlackLitterman, dict(views="A0 == 0.1")),
    (pr.BlackLitterman, dict(views=["A0 == 0.1"], view_confidences=[1.5])),
    (pr.BlackLitterman, dict(views=["A0 == 0.1"], view_confidences=[-0.5])),
    (pr.BlackLitterman, dict(views=["A0 == 0.1", "A1 == 0.1"], view_confidences=[0.5, 1.5])),
    (pr.BlackLitterman, dict(views=["A0 == 0.1", "A1 == 0.1"], view_confidences=[0.5, 0.5, 0.5])),
    # distributions
    (ds.VineCopula, dict(max_depth=0)), (ds.VineCopula, dict(max_depth=1)),
    (ds.VineCopula, dict(central_assets=[9])), (ds.VineCopula, dict(central_assets=[0, 5])),
    (ds.VineCopula, dict(copula_candidates=[])), (ds.VineCopula, dict(marginal_candidates=[])),
    (ds.VineCopula, dict(copula_candidates=[ds.Gaussian()])),
    (ds.VineCopula, dict(marginal_candidates=[ds.GaussianCopula()])),
    (ds.VineCopula, dict(fit_marginals=False)), (ds.VineCopula, dict(log_transform=[True])),
    (pr.SyntheticData, dict(distribution_estimator=mo.EmpiricalMu())),
    # ensembles
    (op.StackingOptimization, dict(estimators=[])),
    (op.StackingOptimization, dict(estimators=None)),
    (op.StackingOptimization, dict(estimators=[("a", op.EqualWeighted()), ("a", op.InverseVolatility())])),
    (op.StackingOptimization, dict(estimators=[("cv", op.EqualWeighted()), ("b", op.InverseVolatility())])),
    (op.StackingOptimization, dict(estimators=[("a__b", op.EqualWeighted()), ("c", op.InverseVolatility())])),
    (op.StackingOptimization, dict(estimators=[("a", mo.EmpiricalMu()), ("c", op.InverseVolatility())])),
    (op.StackingOptimization, dict(estimators=[("a", op.EqualWeighted())], cv="prefit")),
]  # fmt: skip


def _named(i):
    c, kw = BAD[i]
    return f"{c.__name__}({kw})"


def do_per_asset(ctx, cls):
    X, _, _ = data()
    for name, c, kw in per_asset_settings():
        if c.__name__ == cls:
            ctx.step()
            ctx.expect(refused(lambda: c(**kw).fit(X)), "setting", lambda: f"{name} accepted")
            ctx.state(name)
    # a mapping needs named columns
    for p in PER_ASSET[:6]:
        if p in OPTS[cls]().get_params():
            kw = {p: {"A0": 0.1}}
            if p == "previous_weights":
                kw["transaction_costs"] = 0.001
            ctx.expect(
                refused(lambda: OPTS[cls](**kw).fit(X.to_numpy())), "mapping", lambda: f"{cls} {p} without names"
            )
    ctx.trace()
    ctx.outcome("per-asset")


def do_setting(ctx, i):
    c, kw = BAD[i]
    ctx.step()
    ctx.expect(refused(lambda: c(**kw).fit(data()[0])), "setting", lambda: f"{_named(i)} accepted")
    ctx.state("setting", i)
    ctx.trace()
    ctx.outcome("setting")


# ---- nested estimators ------------------------------------------------------------------
WRONG = {
    "optimization": lambda: op.EqualWeighted(),
    "mu": lambda: mo.EmpiricalMu(),
    "covariance": lambda: mo.LedoitWolf(),
    "distance": lambda: di.PearsonDistance(),
    "uncertainty": lambda: us.EmpiricalMuUncertaintySet(),
    "prior": lambda: pr.EmpiricalPrior(),
    "number": lambda: 3,
    "text": lambda: "x",
}
RIGHT = {
    "prior_estimator": "prior", "factor_prior_estimator": "prior", "distance_estimator": "distance",
    "mu_uncertainty_set_estimator": "uncertainty", "covariance_uncertainty_set_estimator": None,
    "inner_estimator": "optimization", "outer_estimator": "optimization", "final_estimator": "optimization",
    "mu_estimator": "mu", "covariance_estimator": "covariance", "prior_covariance_estimator": "covariance",
    "clustering_estimator": None, "hierarchical_clustering_estimator": None, "distribution_estimator": None,
    "loading_matrix_estimator": None,
}  # fmt: skip


def slots():
    for mod in (op, pr, mo, di, us):
        for n in mod.__all__:
            c = getattr(mod, n)
            if inspect.isclass(c) and hasattr(c, "fit") and not inspect.isabstract(c):
                for p in inspect.signature(c).parameters:
                    if p.endswith("_estimator"):
                        yield mod.__name__, n, p


def do_nested(ctx, mod, n, p):
    import importlib

    X, Y, V = data()
    c = getattr(importlib.import_module(mod), n)
    for k, make in WRONG.items():
        if RIGHT.get(p) == k:
            continue
        kw = {p: make()}
        if n == "BlackLitterman":
            kw["views"] = ["A0 == 0.1"]
        if n == "StackingOptimization":
            kw["estimators"] = [("a", op.EqualWeighted()), ("b", op.InverseVolatility())]

        def go(kw=kw):
            m = c(**kw)
            if n == "ImpliedCovariance":
                return m.fit(X, implied_vol=V)
            return m.fit(X, Y) if n == "FactorModel" else m.fit(X)

        ctx.step()
        ctx.expect(refused(go), "nested", lambda: f"{n}({p}={k}) accepted")
        ctx.state(n, p, k)
    ctx.trace()
    ctx.outcome("nested")


# ---- portfolios, splitters, distributions --------------------------------------------------
def do_portfolio(ctx, tier):
    X, _, _ = data()
    A, w = X.to_numpy(), np.full(5, 0.2)
    bad = {
        "short": lambda: Portfolio(X, [0.5, 0.5]),
        "long": lambda: Portfolio(X, [0.1] * 6),
        "nan weight": lambda: Portfolio(X, [0.2, NAN, 0.2, 0.2, 0.2]),
        "1d": lambda: Portfolio(A[:, 0], w),
        "3d": lambda: Portfolio(A[None], w),
        "2d weights": lambda: Portfolio(X, [w]),
        "text weights": lambda: Portfolio(X, "x"),
        "no data": lambda: Portfolio(None, w),
        "no weights": lambda: Portfolio(X, None),
        "unknown setting": lambda: Portfolio(X, w, foo=1),
        "mapping without names": lambda: Portfolio(A, {"A0": 1.0}),
    }
    for p in ("previous_weights", "transaction_costs", "management_fees"):
        extra = {"transaction_costs": 0.01} if p == "previous_weights" else {}
        for k, v in {**VECTORS, "mapping": {"A0": 0.1}}.items():
            if k not in ("nan", "text"):
                bad[f"{p} {k}"] = lambda p=p, k=k, v=v, extra=extra: Portfolio(A if k == "mapping" else X, w, **extra, **{p: v})
    for k, f in bad.items():
        ctx.step()
        ctx.expect(refused(f), "portfolio", lambda: f"Portfolio with {k} accepted")
        ctx.state("portfolio", k)
    for kind, B in cells(X, "thorough"):
        if np.isnan(kind[2]):
            for v in (w, np.where(np.arange(5) == kind[1], 0.0, 0.25)):  # held or not
                ctx.step()
                ctx.expect(refused(lambda: Portfolio(B, v)), "portfolio-nan", lambda: f"NaN at {kind} accepted")
    ctx.trace()
    ctx.outcome("portfolio")


def do_split(ctx):
    X, Y, _ = data()
    A = X.to_numpy()
    eq = op.EqualWeighted()
    bad = {
        "freq without dates": lambda: list(WalkForward(1, 1, freq="MS").split(A)),
        "unknown freq": lambda: list(WalkForward(1, 1, freq="zz").split(X)),
        "offset without freq": lambda: list(WalkForward(1, pd.DateOffset(months=1)).split(X)),
        "fractional": lambda: list(WalkForward(1.5, 2).split(X)),
        "two folds": lambda: CombinatorialPurgedCV(n_folds=2, n_test_folds=1),
        "all test": lambda: CombinatorialPurgedCV(n_folds=4, n_test_folds=4),
        "more test": lambda: CombinatorialPurgedCV(n_folds=4, n_test_folds=5),
        "one test": lambda: CombinatorialPurgedCV(n_folds=4, n_test_folds=1),
        "no test": lambda: CombinatorialPurgedCV(n_folds=4, n_test_folds=0),
        "negative purge": lambda: list(CombinatorialPurgedCV(4, 2, purged_size=-1).split(X)),
        "negative embargo": lambda: list(CombinatorialPurgedCV(4, 2, embargo_size=-1).split(X)),
        "more folds than rows": lambda: list(CombinatorialPurgedCV(41, 2).split(X)),
        "purge beyond": lambda: list(CombinatorialPurgedCV(4, 2, purged_size=200).split(X)),
        "unknown method": lambda: cross_val_predict(eq, X, method="x"),
        "shorter factors": lambda: cross_val_predict(eq, X, y=Y.iloc[:-1]),
        "unusable cv": lambda: cross_val_predict(eq, X, cv=7.5),
        "unknown portfolio setting": lambda: cross_val_predict(eq, X, portfolio_params={"foo": 1}),
    }
    for k, f in bad.items():
        ctx.step()
        ctx.expect(refused(f), "split", lambda: f"{k} accepted")
        ctx.state("split", k)
    ctx.trace()
    ctx.outcome("split")


COPULAS = ("GaussianCopula", "StudentTCopula", "ClaytonCopula", "GumbelCopula", "JoeCopula", "IndependentCopula")
MARGINS = ("Gaussian", "StudentT", "JohnsonSU", "NormalInverseGaussian")
U = (np.arange(80).reshape(40, 2) * 37 % 81 + 1) / 82


def do_copula(ctx, name):
    c = getattr(ds, name)
    fitted = c().fit(U)
    bad = {
        "three columns": np.c_[U, U[:, 0]],
        "one column": U[:, :1],
        "negative": U - 0.5,
        "above one": U + 0.5,
        "1d": U[:, 0],
        "nan": np.where(U > 0.9, NAN, U),
    }
    for k, V in bad.items():
        ctx.step()
        ctx.expect(refused(lambda: c().fit(V)), "copula", lambda: f"{name}.fit accepts {k}")
        for method in ("score_samples", "score", "cdf", "partial_derivative", "inverse_partial_derivative"):
            ctx.step()
            ctx.expect(refused(lambda: getattr(fitted, method)(V)), "copula", lambda: f"{name}.{method} accepts {k}")
        ctx.state(name, k)
    if name != "IndependentCopula":
        for method in ("score_samples", "score", "cdf", "partial_derivative", "inverse_partial_derivative"):
            ctx.expect(refused(lambda: getattr(c(), method)(U)), "unfitted", lambda: f"unfitted {name}.{method} answers")
        ctx.expect(refused(lambda: c().sample(3)), "unfitted", lambda: f"unfitted {name}.sample answers")
    ctx.trace()
    ctx.outcome("copula")


def do_margin(ctx, name):
    c = getattr(ds, name)
    x = data()[0].to_numpy()[:, :1]
    fitted = c().fit(x)
    bad = {"two columns": U, "1d": x[:, 0], "nan": np.where(x > np.median(x), NAN, x), "inf": np.where(x > 0, INF, x)}
    for k, V in bad.items():
        ctx.step()
        ctx.expect(refused(lambda: c().fit(V)), "margin", lambda: f"{name}.fit accepts {k}")
        for method in ("score_samples", "score"):
            ctx.step()
            ctx.expect(refused(lambda: getattr(fitted, method)(V)), "margin", lambda: f"{name}.{method} accepts {k}")
        ctx.state(name, k)
    for method, arg in (("score_samples", x), ("score", x), ("cdf", x), ("ppf", U[:, 0]), ("sample", 3)):
        ctx.expect(refused(lambda: getattr(c(), method)(arg)), "unfitted", lambda: f"unfitted {name}.{method} answers")
    ctx.trace()
    ctx.outcome("margin")


def cases(tier):
    for name in cat.ALL:
        yield ["fit", name, tier]
        yield ["use", name]
        if name not in NOISY:
            yield ["forms", name]
    for n in OPTS:
        yield ["per_asset", n]
    for i in range(len(BAD)):
        yield ["setting", i]
    for s in slots():
        yield ["nested", *s]
    yield ["portfolio", tier]
    yield ["split"]
    for n in COPULAS:
        yield ["copula", n]
    for n in MARGINS:
        yield ["margin", n]


def run_case(case, ctx):
    globals()["do_" + case[0]](ctx, *case[1:])
