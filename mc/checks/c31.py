"""Metadata reaches every nested estimator that asked for it and no other."""

import functools
import itertools
import warnings

import numpy as np
import pandas as pd
import sklearn as sk
import sklearn.base as skb

from mc.lib import frame, returns

PROPERTY = "C31"
BOUNDS = {
    "quick": "23 composite estimators x all fillings of their slots (direct, or one further level) x all assignments of {requested, refused, unset, alias} to up to 3 recording estimators x 3 sets of passed names; row and column alignment under 4 splitters, NCO and stacking, names or none",
    "thorough": "as quick with all fillings of two further levels",
}
LOG = []
REQ = ["yes", "no", "unset", "alias"]
PASSED = [["tag"], ["other"], ["tag", "other"]]


# ------------------------------------------------------------------ recorders
def _note(self, X, tag):
    LOG.append((self.label, np.asarray(X), None if tag is None else np.asarray(tag)))


@functools.lru_cache
def _R():
    """Recording estimators, one per kind of slot."""
    import scipy.cluster.hierarchy as sch
    import sklearn.linear_model as skl

    from skfolio.cluster import HierarchicalClustering
    from skfolio.distance import BaseDistance
    from skfolio.moments import BaseCovariance, BaseMu
    from skfolio.optimization import BaseOptimization
    from skfolio.prior import BaseLoadingMatrix, BasePrior, PriorModel
    from skfolio.uncertainty_set import (
        BaseCovarianceUncertaintySet,
        BaseMuUncertaintySet,
        UncertaintySet,
    )

    class Mu(BaseMu):
        def __init__(self, label="mu"):
            self.label = label

        def fit(self, X, y=None, tag=None):
            _note(self, X, tag)
            self.n_features_in_ = np.asarray(X).shape[1]
            self.mu_ = np.asarray(X).mean(axis=0) + 0.01
            return self

    class Cov(BaseCovariance):
        def __init__(self, label="cov", nearest=False):
            super().__init__(nearest=nearest)
            self.label = label

        def fit(self, X, y=None, tag=None):
            _note(self, X, tag)
            X = np.asarray(X)
            self._set_covariance(np.cov(X.T) + 1e-5 * np.eye(X.shape[1]))
            return self

    class Prior(BasePrior):
        def __init__(self, label="prior"):
            self.label = label

        def fit(self, X, y=None, tag=None):
            _note(self, X, tag)
            X = np.asarray(X)
            c = np.cov(X.T) + 1e-5 * np.eye(X.shape[1])
            self.prior_model_ = PriorModel(
                mu=X.mean(axis=0) + 0.01, covariance=c, returns=X, cholesky=np.linalg.cholesky(c)
            )
            return self

    class Dist(BaseDistance):
        def __init__(self, label="dist"):
            self.label = label

        def fit(self, X, y=None, tag=None):
            _note(self, X, tag)
            c = np.corrcoef(np.asarray(X).T)
            self.codependence_ = c
            self.distance_ = np.sqrt(0.5 * np.clip(1 - c, 0, 2))
            return self

    class Clu(HierarchicalClustering):
        def __init__(self, label="clu", max_clusters=2):
            super().__init__(max_clusters=max_clusters)
            self.label = label

        def fit(self, X, y=None, tag=None):
            _note(self, X, tag)
            return super().fit(X, y)

    class Reg(skl.LinearRegression):
        def __init__(self, label="reg"):
            super().__init__(fit_intercept=False)
            self.label = label

        def fit(self, X, y, sample_weight=None, tag=None):
            _note(self, X, tag)
            return super().fit(X, y)

    class Load(BaseLoadingMatrix):
        def __init__(self, label="load"):
            self.label = label

        def fit(self, X, y, tag=None):
            _note(self, X, tag)
            X, y = np.asarray(X), np.asarray(y)
            self.loading_matrix_ = np.linalg.lstsq(y, X, rcond=None)[0].T
            self.intercepts_ = np.zeros(X.shape[1])
            return self

    class Law(skb.BaseEstimator):
        def __init__(self, label="law"):
            self.label = label

        def fit(self, X, y=None, tag=None):
            _note(self, X, tag)
            self.X_ = np.asarray(X)
            return self

        def sample(self, n_samples=1, **kw):
            return np.resize(self.X_, (n_samples, self.X_.shape[1]))

    class Opt(BaseOptimization):
        def __init__(self, label="opt", portfolio_params=None):
            super().__init__(portfolio_params=portfolio_params)
            self.label = label

        def fit(self, X, y=None, tag=None):
            _note(self, X, tag)
            self.n_features_in_ = np.asarray(X).shape[1]
            w = np.arange(1.0, 1 + self.n_features_in_)
            self.weights_ = w / w.sum()
            return self

    def ball(n):
        return UncertaintySet(k=0.1, sigma=np.eye(n))

    class SetMu(BaseMuUncertaintySet):
        def __init__(self, label="smu", prior_estimator=None):
            super().__init__(prior_estimator=prior_estimator)
            self.label = label

        def get_metadata_routing(self):
            return skb.BaseEstimator.get_metadata_routing(self)

        def fit(self, X, y=None, tag=None):
            _note(self, X, tag)
            self.uncertainty_set_ = ball(np.asarray(X).shape[1])
            return self

    class SetCov(BaseCovarianceUncertaintySet):
        def __init__(self, label="scov", prior_estimator=None):
            super().__init__(prior_estimator=prior_estimator)
            self.label = label

        def get_metadata_routing(self):
            return skb.BaseEstimator.get_metadata_routing(self)

        def fit(self, X, y=None, tag=None):
            _note(self, X, tag)
            self.uncertainty_set_ = ball(np.asarray(X).shape[1] ** 2)
            return self

    return {
        "mu": Mu, "cov": Cov, "prior": Prior, "dist": Dist, "clu": Clu, "reg": Reg,
        "load": Load, "law": Law, "opt": Opt, "smu": SetMu, "scov": SetCov,
    }  # fmt: skip


# ------------------------------------------------------------ composite pieces
def _comp(first="A0"):
    """name -> (kind, {slot: kind}, builder)."""
    import skfolio.distance as di
    import skfolio.moments as mo
    import skfolio.optimization as op
    import skfolio.prior as pr
    import skfolio.uncertainty_set as us

    conv = {
        "MeanRiskMu": ({"prior_estimator": "prior", "mu_uncertainty_set_estimator": "smu"}, op.MeanRisk, {"objective_function": op.ObjectiveFunction.MAXIMIZE_UTILITY}),
        "MeanRiskCov": ({"prior_estimator": "prior", "covariance_uncertainty_set_estimator": "scov"}, op.MeanRisk, {}),
        "RiskBudgeting": ({"prior_estimator": "prior"}, op.RiskBudgeting, {}),
        "MaximumDiversification": ({"prior_estimator": "prior"}, op.MaximumDiversification, {}),
        "DistributionallyRobustCVaR": ({"prior_estimator": "prior"}, op.DistributionallyRobustCVaR, {}),
        "InverseVolatility": ({"prior_estimator": "prior"}, op.InverseVolatility, {}),
        "HRP": ({"prior_estimator": "prior", "distance_estimator": "dist", "hierarchical_clustering_estimator": "clu"}, op.HierarchicalRiskParity, {}),
        "HERC": ({"prior_estimator": "prior", "distance_estimator": "dist", "hierarchical_clustering_estimator": "clu"}, op.HierarchicalEqualRiskContribution, {}),
        "NCO": ({"distance_estimator": "dist", "clustering_estimator": "clu", "inner_estimator": "opt"}, op.NestedClustersOptimization, {"cv": "ignore", "outer_estimator": op.EqualWeighted()}),
        "NCOcv": ({"distance_estimator": "dist", "clustering_estimator": "clu", "inner_estimator": "opt"}, op.NestedClustersOptimization, {"cv": 3, "outer_estimator": op.EqualWeighted()}),
    }  # fmt: skip
    out = {k: ("opt", s, _kw(c, p)) for k, (s, c, p) in conv.items()}
    for cv in ("ignore", 3):
        out[f"Stacking-{cv}"] = (
            "opt",
            {"one": "opt", "two": "opt"},
            lambda cv=cv, **s: op.StackingOptimization(
                estimators=list(s.items()), final_estimator=op.EqualWeighted(), cv=cv
            ),
        )
    c = {"covariance_estimator": "cov"}
    p = {"prior_estimator": "prior"}
    out["EmpiricalPrior"] = ("prior", {"mu_estimator": "mu", **c}, _kw(pr.EmpiricalPrior, {}))
    out["EmpiricalPriorLog"] = (
        "prior",
        {"mu_estimator": "mu", **c},
        _kw(pr.EmpiricalPrior, {"is_log_normal": True, "investment_horizon": 2}),
    )
    out["BlackLitterman"] = ("prior", p, _kw(pr.BlackLitterman, {"views": [f"{first} == 0.01"], "prior_estimator": None}))
    out["SyntheticData"] = ("prior", {"distribution_estimator": "law"}, _kw(pr.SyntheticData, {"n_samples": 12}))
    out["CovarianceDistance"] = ("dist", c, _kw(di.CovarianceDistance, {}))
    out["ShrunkMu"] = ("mu", c, _kw(mo.ShrunkMu, {}))
    out["EquilibriumMu"] = ("mu", c, _kw(mo.EquilibriumMu, {}))
    out["DenoiseCovariance"] = ("cov", c, _kw(mo.DenoiseCovariance, {}))
    out["DetoneCovariance"] = ("cov", c, _kw(mo.DetoneCovariance, {}))
    out["ImpliedCovariance"] = ("cov", {"prior_covariance_estimator": "cov"}, _kw(mo.ImpliedCovariance, {"window_size": 3}))
    for k, n in (("smu", "Mu"), ("scov", "Covariance")):
        out[f"Empirical{n}"] = (k, p, _kw(getattr(us, f"Empirical{n}UncertaintySet"), {}))
        out[f"Bootstrap{n}"] = (k, p, _kw(getattr(us, f"Bootstrap{n}UncertaintySet"), {"n_bootstrap_samples": 8, "seed": 0}))
    out["FactorModel"] = (
        "fprior",
        {"factor_prior_estimator": "prior", "loading_matrix_estimator": "load"},
        _kw(pr.FactorModel, {}),
    )
    out["LoadingMatrixRegression"] = ("load", {"linear_regressor": "reg"}, _kw(pr.LoadingMatrixRegression, {}))
    return out


def _kw(cls, fixed):
    return lambda **s: cls(**{**fixed, **s})


TOPS = [
    "MeanRiskMu", "MeanRiskCov", "RiskBudgeting", "MaximumDiversification",
    "DistributionallyRobustCVaR", "InverseVolatility", "HRP", "HERC", "NCO", "NCOcv",
    "Stacking-ignore", "Stacking-3", "EmpiricalPrior", "EmpiricalPriorLog", "BlackLitterman",
    "SyntheticData", "CovarianceDistance", "ShrunkMu", "EquilibriumMu", "DenoiseCovariance",
    "DetoneCovariance", "ImpliedCovariance", "EmpiricalMu", "EmpiricalCovariance", "BootstrapMu",
    "BootstrapCovariance", "FactorModel", "LoadingMatrixRegression",
]  # fmt: skip
SLOTKINDS = {
    "MeanRiskMu": ["prior", "smu"], "MeanRiskCov": ["prior", "scov"], "RiskBudgeting": ["prior"],
    "MaximumDiversification": ["prior"], "DistributionallyRobustCVaR": ["prior"],
    "InverseVolatility": ["prior"], "HRP": ["prior", "dist", "clu"], "HERC": ["prior", "dist", "clu"],
    "NCO": ["dist", "clu", "opt"], "NCOcv": ["dist", "clu", "opt"], "Stacking-ignore": ["opt", "opt"],
    "Stacking-3": ["opt", "opt"], "EmpiricalPrior": ["mu", "cov"], "EmpiricalPriorLog": ["mu", "cov"],
    "BlackLitterman": ["prior"], "SyntheticData": ["law"], "CovarianceDistance": ["cov"],
    "ShrunkMu": ["cov"], "EquilibriumMu": ["cov"], "DenoiseCovariance": ["cov"],
    "DetoneCovariance": ["cov"], "ImpliedCovariance": ["cov"], "EmpiricalMu": ["prior"],
    "EmpiricalCovariance": ["prior"], "BootstrapMu": ["prior"], "BootstrapCovariance": ["prior"],
    "FactorModel": ["prior", "load"], "LoadingMatrixRegression": ["reg"],
}  # fmt: skip
INTO = {  # what may be put in a slot of a kind besides a recorder (None: left empty)
    "prior": ["EmpiricalPrior", "EmpiricalPriorLog", "BlackLitterman", "SyntheticData"],
    "mu": ["ShrunkMu", "EquilibriumMu"],
    "cov": ["DenoiseCovariance", "DetoneCovariance", "ImpliedCovariance"],
    "dist": ["CovarianceDistance"],
    "opt": ["InverseVolatility", "HRP", "RiskBudgeting"],
    "smu": ["EmpiricalMu", "BootstrapMu"],
    "scov": ["EmpiricalCovariance", "BootstrapCovariance"],
    "load": ["LoadingMatrixRegression"],
}


def _fillings(kind, depth):
    """Trees that fill a slot: None (left empty), "*" (recorder), [name, fillings...]."""
    yield "*"
    if depth > 0:
        for name in INTO.get(kind, []):
            for f in itertools.product(*(_fillings(k, depth - 1) for k in SLOTKINDS[name])):
                yield [name, *f]


def _leaves(t):
    if t is None:
        return 0
    return 1 if t == "*" else sum(_leaves(s) for s in t[1:])


def cases(tier):
    deep = 1 if tier == "quick" else 2
    for top in TOPS:
        kinds = SLOTKINDS[top]
        for f in itertools.product(*([None, *_fillings(k, deep)] for k in kinds)):
            n = sum(map(_leaves, f))
            if not 1 <= n <= 3:
                continue
            # empty slots use the defaults, whose cost is high for some
            if None in f and ("NCO" in top or "Stacking" in top) and tier == "quick":
                continue
            if "Stacking" in top and None in f:
                continue
            if sum(isinstance(x, list) for x in f) > 1 and tier == "quick":
                continue
            yield ["route", top, list(f), tier != "quick" or n < 3]
    for how in ("kfold", "walk", "purged", "combinatorial"):
        for top in ("EmpiricalPrior", "HRP", "MeanRiskMu", "Stacking-3", "Stacking-ignore", "NCO", "NCOcv"):
            for named in (True, False):
                yield ["rows", how, top, named]
    for top in ("NCO", "NCOcv", "Stacking-3", "Stacking-ignore"):
        for named in (True, False):
            for inner in ("opt", "HRP", "MeanRisk"):
                yield ["nested", top, named, inner]
    for inner in ("opt", "MeanRisk", "Stacking-ignore"):
        for split in (True, False):
            yield ["search", inner, split]
    for where in ("regression", "stacking", "nco"):
        yield ["alias", where]
    for named in (True, False):
        for where in ("alone", "MeanRisk", "HRP", "NCO", "Stacking", "nested"):
            yield ["implied", where, named]


def run_case(case, ctx):
    with warnings.catch_warnings(), sk.config_context(enable_metadata_routing=True):
        warnings.simplefilter("ignore")
        LOG.clear()
        globals()["do_" + case[0]](ctx, *case[1:])
    ctx.trace()
    ctx.outcome(case[0])


@functools.lru_cache
def _data(n=30, d=4):
    X = frame(returns(515, n, d + 1, scale=0.02))
    X.columns = [*[f"A{i}" for i in range(d)], "F"]
    y = X[["F"]].copy()
    y["G"] = X["A0"] - X["A1"]
    return X[[f"A{i}" for i in range(d)]], y


def _request(est, req):
    if req == "yes":
        est.set_fit_request(tag=True)
    elif req == "no":
        est.set_fit_request(tag=False)
    elif req == "alias":
        est.set_fit_request(tag="other")
    return est


def _build(name, fill, reqs, comp, path=""):
    kind, slots, make = comp[name]
    kw = {}
    for (slot, k), f in zip(slots.items(), fill, strict=True):
        label = f"{path}{slot}"
        if f is None:
            continue
        if f == "*":
            kw[slot] = _request(_R()[k](label=label), next(reqs))
            _build.labels.append(label)
        else:
            kw[slot] = _build(f[0], f[1:], reqs, comp, label + ">")
    return make(**kw)


def _by_slot(fill, reqs):
    it = iter(reqs)
    out = []
    for f in fill:
        part = [next(it) for _ in range(_leaves(f))]
        out.append(part[0] if f == "*" else None)
    return out


def _uses(tree, name):
    return tree == name or (isinstance(tree, list) and any(_uses(t, name) for t in tree))


def do_route(ctx, top, fill, wide):
    comp = _comp("F" if top == "FactorModel" else "A0")
    n = sum(map(_leaves, fill))
    X, y = _data()
    needs_y = top in ("FactorModel", "LoadingMatrixRegression")
    vol = _uses([top, *fill], "ImpliedCovariance")
    reg = _uses([top, *fill], "LoadingMatrixRegression")
    tag = X.to_numpy() + 5
    other = X.to_numpy() - 7
    if needs_y:
        tag, other = y.to_numpy() + 5, y.to_numpy() - 7
    sets = PASSED if wide else PASSED[-1:]
    for reqs in itertools.product(REQ, repeat=n):
        for passed in sets:
            if reg and "alias" in reqs:
                continue  # scikit-learn's MultiOutputRegressor re-reads the alias itself
            direct = [r for r, f in zip(_by_slot(fill, reqs), fill, strict=True) if f == "*"]
            if top in ("NCOcv", "Stacking-3") and "alias" in direct:
                continue  # a known finding, see do_alias
            _build.labels = []
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                est = _build(top, fill, iter(reqs), comp)
            want = dict(zip(_build.labels, reqs, strict=True))
            params = {k: {"tag": tag, "other": other}[k] for k in passed}
            known = {"tag"} if "yes" in reqs or "unset" in reqs else set()
            if "alias" in reqs:
                known |= {"other"}
            refuse = ("unset" in reqs and "tag" in passed) or not set(passed) <= known
            if vol:
                params["implied_vol"] = np.abs(X.to_numpy()) + 0.1
                _ask_vol(est)
            LOG.clear()
            ctx.state("route", top, str(fill), *reqs, *passed)
            where = f"{top} with slots {fill}, requests {want}, passing {passed}"
            try:
                est.fit(X, *([y] if needs_y else []), **params)
                err = None
            except Exception as e:
                err = e
            if refuse:
                ctx.expect(
                    isinstance(err, (TypeError, ValueError)) and not isinstance(err, AttributeError),
                    "not-refused",
                    lambda: f"{where}: metadata nobody asked for was accepted ({err!r})",
                )
                continue
            ctx.expect(err is None, "refused", lambda: f"{where}: {type(err).__name__}: {err}")
            seen = {}
            for label, _, got in LOG:
                seen.setdefault(label, []).append(got)
            for label, r in want.items():
                ctx.expect(label in seen, "unused", lambda: f"{where}: {label} never fitted")
                v = {"yes": params.get("tag"), "alias": params.get("other")}.get(r)
                for g in seen[label]:
                    ctx.step(1)
                    if v is None:
                        ctx.expect(g is None, "uninvited", lambda: f"{where}: {label} received metadata")
                    else:
                        ctx.expect(
                            g is not None, "lost", lambda: f"{where}: {label} did not receive its metadata"
                        )
                        ctx.expect(
                            _part(g, v), "altered", lambda: f"{where}: {label} received other values"
                        )


def _part(g, v):
    """Whether g holds only values of v, all of them when of the same shape."""
    return np.array_equal(g, v) if g.shape == v.shape else bool(np.isin(g, v).all())


def _ask_vol(est):
    from skfolio.moments import ImpliedCovariance

    if isinstance(est, ImpliedCovariance):
        est.set_fit_request(implied_vol=True)
    for v in est.get_params(deep=True).values():
        if isinstance(v, ImpliedCovariance):
            v.set_fit_request(implied_vol=True)


def _splitter(how):
    import sklearn.model_selection as sks

    import skfolio.model_selection as ms

    return {
        "kfold": sks.KFold(3),
        "walk": ms.WalkForward(test_size=7, train_size=12),
        "purged": ms.CombinatorialPurgedCV(n_folds=5, n_test_folds=2, purged_size=1, embargo_size=1),
        "combinatorial": ms.CombinatorialPurgedCV(n_folds=4, n_test_folds=2),
    }[how]


def _aligned(ctx, where, expected=None, columns=True):
    """Every recorder that asked received the rows (and columns) of its own data."""
    ctx.expect(len(LOG) > 0, "unused", f"{where}: no nested estimator fitted")
    for label, Xr, g in LOG:
        ctx.step(1)
        ctx.expect(g is not None, "lost", lambda: f"{where}: {label} did not receive its metadata")
        ctx.expect(
            g.shape == Xr.shape and np.allclose(g, Xr + 5, atol=1e-12),
            "misaligned",
            lambda: f"{where}: {label} fitted on {Xr.shape} rows x columns received metadata {g.shape} of other rows or columns",
        )


def do_rows(ctx, how, top, named):
    from skfolio.model_selection import cross_val_predict
    from skfolio.optimization import InverseVolatility

    X, _ = _data()
    X = X if named else X.to_numpy()
    tag = X + 5
    comp = _comp()
    _build.labels = []
    fill = ["*"] * len(SLOTKINDS[top])
    # the clustering slot sees distances, not returns: it does not ask
    reqs = ["no" if k == "clu" else "yes" for k in SLOTKINDS[top]]
    est = _build(top, fill, iter(reqs), comp)
    if top == "EmpiricalPrior":
        est = InverseVolatility(prior_estimator=est)
    cv = _splitter(how)
    LOG.clear()
    cross_val_predict(est, X, cv=cv, params={"tag": tag})
    clu = [x for x in LOG if x[0].endswith("clustering_estimator")]
    for label, _, g in clu:
        ctx.expect(g is None, "uninvited", f"{label} received metadata")
    LOG[:] = [x for x in LOG if not x[0].endswith("clustering_estimator")]
    where = f"cross_val_predict of {top} over {how} (names={named})"
    _aligned(ctx, where)
    # whole training sets are seen by the outermost fits
    got = {tuple(np.round(x[1][:, 0], 12)) for x in LOG}
    Xa = np.asarray(X)
    for train, _ in cv.split(Xa):
        ctx.state("rows", how, top, named, len(train))
        if "NCO" not in top:
            ctx.expect(
                tuple(np.round(Xa[train][:, 0], 12)) in got, "rows", f"{where}: training rows {train} not seen"
            )


def _inner(kind):
    from skfolio.optimization import HierarchicalRiskParity, MeanRisk
    from skfolio.prior import EmpiricalPrior

    R = _R()
    if kind == "opt":
        return R["opt"](label="inner").set_fit_request(tag=True)
    if kind == "HRP":
        return HierarchicalRiskParity(
            prior_estimator=R["prior"](label="prior").set_fit_request(tag=True)
        )
    return MeanRisk(
        prior_estimator=EmpiricalPrior(covariance_estimator=R["cov"](label="cov").set_fit_request(tag=True))
    )


def do_nested(ctx, top, named, inner):
    import skfolio.optimization as op

    X, _ = _data(36, 6)
    X = X if named else X.to_numpy()
    est = _inner(inner)
    cv = 3 if top.endswith(("cv", "3")) else "ignore"
    if top.startswith("NCO"):
        from skfolio.cluster import HierarchicalClustering

        m = op.NestedClustersOptimization(
            inner_estimator=est,
            outer_estimator=op.EqualWeighted(),
            clustering_estimator=HierarchicalClustering(max_clusters=2),
            cv=cv,
        )
    else:
        m = op.StackingOptimization(
            [("a", est), ("b", op.EqualWeighted())], final_estimator=op.EqualWeighted(), cv=cv
        )
    ctx.state("nested", top, named, inner)
    LOG.clear()
    where = f"{top} of {inner} (names={named})"
    try:
        m.fit(X, tag=X + 5)
    except Exception as e:
        ctx.fail("nested-refused", f"{where}: {type(e).__name__}: {e}")
    _aligned(ctx, where)


def do_search(ctx, inner, split):
    """Grid searches and train/test searches hand the rows on as well."""
    import sklearn.model_selection as sks

    import skfolio.optimization as op
    from skfolio.model_selection import WalkForward

    X, _ = _data()
    est = _inner("opt") if inner == "opt" else _inner("MeanRisk")
    grid = {"portfolio_params": [{"name": "a"}, {"name": "b"}]}
    if inner == "Stacking-ignore":
        est = op.StackingOptimization([("a", est)], final_estimator=op.EqualWeighted(), cv="ignore")
    cv = sks.KFold(3) if split else WalkForward(test_size=7, train_size=12)
    LOG.clear()
    sks.GridSearchCV(est, grid, cv=cv).fit(X, tag=X + 5)
    ctx.state("search", inner, split)
    _aligned(ctx, f"GridSearchCV of {inner}")


def do_alias(ctx, where):
    """An estimator that asks under another name, cross-validated or multi-output."""
    import skfolio.optimization as op
    from skfolio.prior import LoadingMatrixRegression

    X, y = _data()
    other = X + 5
    R = _R()
    est = R["reg" if where == "regression" else "opt"]().set_fit_request(tag="other")
    if where == "regression":
        m, args = LoadingMatrixRegression(linear_regressor=est), (y,)
    elif where == "stacking":
        m = op.StackingOptimization([("a", est)], final_estimator=op.EqualWeighted(), cv=3)
        args = ()
    else:
        m = op.NestedClustersOptimization(inner_estimator=est, outer_estimator=op.EqualWeighted(), cv=3)
        args = ()
    LOG.clear()
    try:
        m.fit(X, *args, other=other)
    except Exception as e:
        ctx.fail("alias-twice", f"{where}: {type(e).__name__}: {e}")
    for label, _, g in LOG:
        ctx.expect(g is not None, "lost", f"{where}: {label} did not receive its metadata")


def do_implied(ctx, where, named):
    """The library's own consumer reads the implied volatilities it asked for."""
    import skfolio.optimization as op
    from skfolio.model_selection import cross_val_predict
    from skfolio.moments import ImpliedCovariance
    from skfolio.prior import EmpiricalPrior

    X, _ = _data(60, 4)
    vol = pd.DataFrame(
        0.1 + np.abs(returns(99, 60, 4, scale=0.05)), index=X.index, columns=X.columns
    )
    if not named:
        X, vol = X.to_numpy(), vol.to_numpy()

    def cov(req=True):
        return ImpliedCovariance(
            window_size=5, volatility_risk_premium_adj=np.ones(4) if where in ("alone", "MeanRisk") else None
        ).set_fit_request(implied_vol=req)

    def prior(req=True):
        return EmpiricalPrior(covariance_estimator=cov(req))

    if where == "alone":
        c = cov()
        c.fit(X, implied_vol=vol)
        want = np.asarray(vol)[-1] / np.sqrt(252)
        ctx.expect(
            np.allclose(np.sqrt(np.diag(c.covariance_)), want), "implied", "volatilities do not follow implied_vol"
        )
        return
    a = {
        "MeanRisk": lambda r: op.MeanRisk(prior_estimator=prior(r)),
        "HRP": lambda r: op.HierarchicalRiskParity(prior_estimator=prior(r)),
        "NCO": lambda r: op.NestedClustersOptimization(
            inner_estimator=op.InverseVolatility(prior_estimator=prior(r)), outer_estimator=op.EqualWeighted(), cv="ignore"
        ),
        "Stacking": lambda r: op.StackingOptimization(
            [("a", op.InverseVolatility(prior_estimator=prior(r)))], final_estimator=op.EqualWeighted(), cv="ignore"
        ),
        "nested": lambda r: op.NestedClustersOptimization(
            inner_estimator=op.InverseVolatility(prior_estimator=prior(r)), outer_estimator=op.EqualWeighted(), cv=3
        ),
    }[where]
    ctx.state("implied", where, named)
    w1 = a(True).fit(X, implied_vol=vol).weights_
    w2 = a("iv").fit(X, iv=vol).weights_
    ctx.expect(np.allclose(w1, w2, atol=1e-6), "implied-alias", f"{where}: alias gives {w2}, name {w1}")
    if where in ("MeanRisk", "HRP"):
        p = cross_val_predict(a(True), X, cv=3, params={"implied_vol": vol})
        ref = []
        import sklearn.model_selection as sks

        for tr, _ in sks.KFold(3).split(X):
            Xt = X.iloc[tr] if named else X[tr]
            vt = vol.iloc[tr] if named else vol[tr]
            ref.append(a(True).fit(Xt, implied_vol=vt).weights_)
        for q, r in zip(p.portfolios, ref, strict=True):
            ctx.step(1)
            ctx.expect(np.allclose(q.weights, r, atol=1e-5), "implied-cv", f"{where}: {q.weights} for {r}")
