"""C18: hierarchical, nested, stacked and naive allocations are valid and composed correctly."""

import itertools
import math

import cvxpy as cp
import numpy as np
import pandas as pd
import scipy.cluster.hierarchy as sch
import sklearn.base as skb
import sklearn.model_selection as sks
from skfolio import cluster as cl
from skfolio import distance as di
from skfolio import moments as mo
from skfolio import optimization as op
from skfolio import prior as pr
from skfolio.measures import ExtraRiskMeasure, PerfMeasure, RatioMeasure
from skfolio.measures import RiskMeasure as RM
from skfolio.model_selection import CombinatorialPurgedCV, WalkForward

from mc import refmeasures, vecmeasures
from mc.lib import returns

PROPERTY = "C18"
BOUNDS = {
    "quick": "hierarchical models on 2..6 assets x 3 data sets x 7 linkages x 3 distances without bounds, x 19 risk measures, with and without "
    "costs; all lower x upper bound vectors on a grid of 4 x 4 values for 3 assets (2 data sets) and 2 x 3 for 4 assets; nested clusters for all 15 "
    "partitions of 4 assets x 9 cross-validations x 5 inner/outer pairs; stacking of all ordered pairs and singles of 4 models x 9 "
    "cross-validations x 3 final models; naive models on 6 priors",
    "thorough": "as quick on 8 data sets, bounds on 3 values each for 4 assets, all 52 partitions of 5 assets",
}


def data(seed, k, n=36):
    X = returns(seed, n, k, scale=0.04, drift=0.002)
    for j in range(1, k, 2):  # pairs of related assets
        X[:, j] = 0.6 * X[:, j - 1] + 0.5 * X[:, j]
    return X


def frame(X, cols=None):
    return pd.DataFrame(X, columns=cols or [f"N{9 - i}" for i in range(X.shape[1])], index=pd.date_range("2020-01-01", periods=len(X)))


def factors(X, seed):
    V = X.to_numpy()
    mix = np.array([[0.5, 0.2, 0.4, 0.1, 0.3], [0.1, 0.6, -0.3, 0.5, 0.2]])[:, : V.shape[1]]
    return pd.DataFrame(V @ mix.T + returns(seed, len(X), 2, scale=0.01), index=X.index, columns=["F0", "F1"])


RISKS = {m: m.value for m in RM if m.value in vecmeasures.RISKS}
EXTRA = {
    ExtraRiskMeasure.VALUE_AT_RISK: "value_at_risk",
    ExtraRiskMeasure.DRAWDOWN_AT_RISK: "drawdown_at_risk",
    ExtraRiskMeasure.ENTROPIC_RISK_MEASURE: "entropic_risk_measure",
    ExtraRiskMeasure.FOURTH_CENTRAL_MOMENT: "fourth_central_moment",
    ExtraRiskMeasure.FOURTH_LOWER_PARTIAL_MOMENT: "fourth_lower_partial_moment",
}
MEASURES = {m.name: m for m in [*RISKS, *EXTRA]}
LINKAGES = [m.name for m in cl.LinkageMethod]
DISTANCES = {
    "pearson": lambda: di.PearsonDistance(),
    "kendall": lambda: di.KendallDistance(absolute=True),
    "covariance": lambda: di.CovarianceDistance(covariance_estimator=mo.LedoitWolf()),
}


def risk(measure, X, w, cov, cost):
    """Value (or interval of accepted values) of the risk of one portfolio."""
    r = X @ w - cost(w)
    match measure:
        case RM.VARIANCE:
            return (w @ cov @ w,) * 2
        case RM.STANDARD_DEVIATION:
            return (math.sqrt(w @ cov @ w),) * 2
        case ExtraRiskMeasure.VALUE_AT_RISK:
            return refmeasures.var_interval(list(r), 0.95)
        case ExtraRiskMeasure.DRAWDOWN_AT_RISK:
            return refmeasures.var_interval(list(vecmeasures.drawdowns(r[:, None])[:, 0]), 0.95)
        case ExtraRiskMeasure.ENTROPIC_RISK_MEASURE:
            return (refmeasures.entropic(list(r), 1, 0.95),) * 2
        case ExtraRiskMeasure.FOURTH_CENTRAL_MOMENT:
            return (refmeasures.central(list(r), 4),) * 2
        case ExtraRiskMeasure.FOURTH_LOWER_PARTIAL_MOMENT:
            return (refmeasures.flpm4(list(r)),) * 2
    return (float(vecmeasures.measure(measure.value, r[:, None], 0.95)[0]),) * 2


class Reference:
    """Cluster risks of one data set under one measure."""

    def __init__(self, measure, X, cov, cost):
        self.m, self.X, self.cov, self.cost = measure, X, cov, cost
        self.unit = [self.at(w) for w in np.eye(X.shape[1])]

    def at(self, w):
        a, b = risk(self.m, self.X, w, self.cov, self.cost)
        return (a + b) / 2

    def cluster(self, ids):
        w = np.zeros(self.X.shape[1])
        w[ids] = [1 / self.unit[i] for i in ids]
        return self.at(w / w.sum()), w / w.sum()


def hrp(ref, order):
    w = np.ones(len(order))
    splits = []

    def go(ids):
        if len(ids) < 2:
            return
        left, right = ids[: len(ids) // 2], ids[len(ids) // 2 :]
        rl, rr = ref.cluster(left)[0], ref.cluster(right)[0]
        splits.append((left, right))
        for i in left:
            w[i] *= rr / (rl + rr)
        for i in right:
            w[i] *= rl / (rl + rr)
        go(left)
        go(right)

    go(list(order))
    return w, splits


def herc(ref, linkage, labels):
    n = len(labels)
    members = [np.flatnonzero(labels == c).tolist() for c in range(max(labels) + 1)]
    risks = [ref.cluster(m)[0] for m in members]
    factor = [1.0] * len(members)

    def go(node):
        leaves = set(node.pre_order())
        inside = [c for c, m in enumerate(members) if set(m) <= leaves]
        if len(inside) < 2:
            return
        sides = []
        for child in (node.get_left(), node.get_right()):
            got = set(child.pre_order())
            sides.append([c for c in inside if set(members[c]) <= got])
        rl, rr = (sum(risks[c] for c in s) for s in sides)
        for c in sides[0]:
            factor[c] *= rr / (rl + rr)
        for c in sides[1]:
            factor[c] *= rl / (rl + rr)
        go(node.get_left())
        go(node.get_right())

    go(sch.to_tree(linkage))
    w = np.zeros(n)
    for c, m in enumerate(members):
        w += factor[c] * ref.cluster(m)[1]
    return w


def closest(w0, lo, hi):
    """Minimiser of sum((w / w0 - 1)^2) over the box and the budget, by bisection on the multiplier."""

    def at(t):
        return np.clip(w0 + t * w0**2, lo, hi)

    a, b = -1e9, 1e9
    for _ in range(300):
        t = (a + b) / 2
        if at(t).sum() < 1:
            a = t
        else:
            b = t
    return at((a + b) / 2)


def partitions(n):
    """All partitions of n items as restricted growth strings."""

    def go(prefix, top):
        if len(prefix) == n:
            yield list(prefix)
            return
        for c in range(top + 2):
            yield from go([*prefix, c], max(top, c))

    yield from go([0], 0)


class Fixed(skb.ClusterMixin, skb.BaseEstimator):
    """Clustering given in advance."""

    def __init__(self, labels=None):
        self.labels = labels

    def fit(self, X, y=None):
        self.labels_ = np.array(self.labels)
        return self


CVS = {
    "default": (None, lambda: [sks.KFold(5)]),
    "int3": (lambda: 3, lambda: [sks.KFold(3)]),
    "ignore": (lambda: "ignore", None),
    "kfold2": (lambda: sks.KFold(2), lambda: [sks.KFold(2)]),
    "kfold7": (lambda: sks.KFold(7), lambda: [sks.KFold(7)]),
    "walk": (lambda: WalkForward(train_size=12, test_size=5), lambda: [WalkForward(train_size=12, test_size=5)]),
    "walk-purged": (
        lambda: WalkForward(train_size=10, test_size=6, purged_size=2),
        lambda: [WalkForward(train_size=10, test_size=6, purged_size=2)],
    ),
    "cpcv": (lambda: CombinatorialPurgedCV(n_folds=4, n_test_folds=2), "cpcv"),
    "cpcv-embargo": (lambda: CombinatorialPurgedCV(n_folds=5, n_test_folds=2, purged_size=1, embargo_size=1), "cpcv"),
}
INNER = {
    "mr": lambda: op.MeanRisk(l2_coef=0.001),
    "iv": lambda: op.InverseVolatility(),
    "eq": lambda: op.EqualWeighted(),
    "hrp": lambda: op.HierarchicalRiskParity(),
    "ratio": lambda: op.MeanRisk(objective_function=op.ObjectiveFunction.MAXIMIZE_UTILITY, risk_aversion=5, l2_coef=0.001, min_weights=-0.5),
    "fees": lambda: op.MeanRisk(
        management_fees={f"N{9 - i}": 0.001 * (i + 1) for i in range(5)}, transaction_costs={"N9": 0.002, "N7": 0.003}, previous_weights={"N7": 0.5}
    ),
    "names": lambda: op.MeanRisk(min_weights={f"N{9 - i}": 0.1 + 0.1 * (i % 2) for i in range(5)}),
    "factor": lambda: op.MeanRisk(prior_estimator=pr.FactorModel(residual_variance=True)),
}
PAIRS = [("mr", "iv"), ("iv", "mr"), ("ratio", "eq"), ("fees", "iv"), ("names", "rb")]
OUTER = {**INNER, "rb": lambda: op.RiskBudgeting()}
PRIORS = {
    "empirical": lambda: pr.EmpiricalPrior(),
    "ew": lambda: pr.EmpiricalPrior(covariance_estimator=mo.EWCovariance(alpha=0.1)),
    "gerber": lambda: pr.EmpiricalPrior(covariance_estimator=mo.GerberCovariance()),
    "log": lambda: pr.EmpiricalPrior(is_log_normal=True, investment_horizon=5),
    "views": lambda: pr.BlackLitterman(views=["N9 == 0.01"]),
    "factor": lambda: pr.FactorModel(),
}


def cases(tier):
    seeds = (1, 2, 3) if tier == "quick" else range(1, 9)
    for seed in seeds:
        for k in range(2, 7):
            for link in LINKAGES:
                for d in DISTANCES:
                    for m in ("VARIANCE", "CVAR") if link != "WARD" or d != "pearson" else MEASURES:
                        for costs in (False, True) if m != "VARIANCE" else (False,):
                            yield ["plain", seed, k, link, d, m, costs]
                for mc in (1, 2, 3, 5):
                    yield ["clusters", seed, k, link, mc]
        grids = [(3, (0, 0.1, 0.3, 0.4), (0, 0.3, 0.5, 1)), (4, (0, 0.3), (0.1, 0.4, 1))]
        if tier != "quick":
            grids.append((4, (0, 0.15, 0.4), (0, 0.25, 0.5)))
        for k, lo, hi in grids if tier != "quick" else grids[: 3 - seed]:
            for a in itertools.product(lo, repeat=k):
                yield ["bounds", seed, k, list(a), list(hi)]
    for n in (6, 7, 20):
        yield ["equal-bounds", n]
    for k in (4,) if tier == "quick" else (4, 5):
        for part in partitions(k):
            for cv in CVS:
                yield ["nested", part, cv]
    for r in (1, 2) if tier == "quick" else (1, 2, 3):
        for names in itertools.permutations(["mr", "iv", "fees", "ratio"], r):
            for cv in [*CVS, "prefit"]:
                yield ["stacked", list(names), cv]
    for cv in CVS:
        yield ["targets", cv]
    for cv in ("cpcv", "cpcv-embargo"):
        for order in ORDERS:
            for q in (0.1, 0.25, 0.5, 0.75, 1.0):
                yield ["quantiles", cv, order, q]
    for p in PRIORS:
        for k in range(2, 6):
            yield ["naive", p, k]
    yield ["refused"]


def run_case(case, ctx):
    globals()["do_" + case[0].replace("-", "_")](ctx, *case[1:])
    ctx.trace()
    ctx.outcome(case[0])


def valid(ctx, w, n, what, lo=0.0, hi=1.0, tol=1e-6):
    ctx.expect(np.shape(w) == (n,) and np.all(np.isfinite(w)), "weights-undefined", f"{what}: {w}")
    ctx.expect(abs(w.sum() - 1) < tol, "weights-do-not-sum-to-one", f"{what}: {w} sums to {w.sum()}")
    ctx.expect(np.all(w >= np.asarray(lo) - tol) and np.all(w <= np.asarray(hi) + tol), "bounds-not-respected", f"{what}: {w} not in [{lo}, {hi}]")


def costs_of(k, on):
    if not on:
        return {}, lambda w: 0.0
    tc, prev, fees = np.array([0.001, 0.003, 0.0, 0.002, 0.0005, 0.001])[:k], np.array([0.4, 0.3, 0.1, 0.2, 0, 0])[:k], np.array([0, 0.001, 0.002, 0, 0, 0.001])[:k]
    return (
        dict(transaction_costs=tc, previous_weights=prev, management_fees=fees),
        lambda w: np.abs(w - prev) @ tc + w @ fees,
    )


def do_plain(ctx, seed, k, link, dist, measure, costs):
    X = data(seed, k)
    kw, cost = costs_of(k, costs)
    m = MEASURES[measure]
    tol = 2e-4 if measure in ("EVAR", "EDAR") else 1e-7
    ref = Reference(m, X, np.cov(X.T), cost)
    for named in (True, False):
        args = dict(
            risk_measure=m, distance_estimator=DISTANCES[dist](),
            hierarchical_clustering_estimator=cl.HierarchicalClustering(linkage_method=cl.LinkageMethod[link]), **kw,
        )  # fmt: skip
        Z = frame(X) if named else X
        a = op.HierarchicalRiskParity(**args).fit(Z)
        h = a.hierarchical_clustering_estimator_
        order = sch.leaves_list(sch.optimal_leaf_ordering(h.linkage_matrix_, h.condensed_distance_))
        want = hrp(ref, order)[0]
        ctx.state("hrp", seed, k, link, dist, measure, costs, named)
        valid(ctx, a.weights_, k, f"HRP {measure}")
        ctx.expect(np.allclose(a.weights_, want, atol=tol), "hrp-split", f"{measure} {link} {dist}: {a.weights_} but siblings in inverse proportion to risk give {want}")
        b = op.HierarchicalEqualRiskContribution(**args).fit(Z)
        h = b.hierarchical_clustering_estimator_
        want = herc(ref, h.linkage_matrix_, h.labels_)
        valid(ctx, b.weights_, k, f"HERC {measure}")
        ctx.expect(np.allclose(b.weights_, want, atol=tol), "herc-split", f"{measure} {link} {dist}: {b.weights_} but siblings in inverse proportion to risk give {want}")
        ctx.expect(np.allclose(h.condensed_distance_, squared(DISTANCES[dist]().fit(X).distance_)), "distance-used", f"{dist}")
        ctx.step(2)


def squared(d):
    return d[np.triu_indices(len(d), 1)]


def do_clusters(ctx, seed, k, link, mc):
    """The number of clusters only changes the equal risk contribution."""
    X = data(seed, k)
    ref = Reference(RM.SEMI_DEVIATION, X, np.cov(X.T), lambda w: 0.0)
    args = dict(
        risk_measure=RM.SEMI_DEVIATION,
        hierarchical_clustering_estimator=cl.HierarchicalClustering(max_clusters=mc, linkage_method=cl.LinkageMethod[link]),
    )
    b = op.HierarchicalEqualRiskContribution(**args).fit(frame(X))
    h = b.hierarchical_clustering_estimator_
    ctx.expect(max(h.labels_) < mc, "too-many-clusters", f"{h.labels_} for at most {mc}")
    want = herc(ref, h.linkage_matrix_, h.labels_)
    ctx.expect(np.allclose(b.weights_, want, atol=1e-7), "herc-split", f"{link} {mc}: {b.weights_} but {want}")
    a = op.HierarchicalRiskParity(**args).fit(frame(X))
    base = op.HierarchicalRiskParity(**{**args, "hierarchical_clustering_estimator": cl.HierarchicalClustering(linkage_method=cl.LinkageMethod[link])}).fit(frame(X))
    ctx.expect(np.allclose(a.weights_, base.weights_), "hrp-depends-on-cluster-count", f"{a.weights_} {base.weights_}")
    ctx.step(3)


def do_bounds(ctx, seed, k, lo, his):
    X = data(seed, k)
    lo = np.array(lo)
    ref = Reference(RM.VARIANCE, X, np.cov(X.T), lambda w: 0.0)
    free_a = op.HierarchicalRiskParity().fit(X)
    h = free_a.hierarchical_clustering_estimator_
    _, splits = hrp(ref, sch.leaves_list(sch.optimal_leaf_ordering(h.linkage_matrix_, h.condensed_distance_)))
    free_b = op.HierarchicalEqualRiskContribution().fit(X).weights_
    for i, hi in enumerate(itertools.product(his, repeat=k)):
        hi = np.array(hi)
        ctx.state(seed, k, lo.tolist(), hi.tolist())
        feasible = lo.sum() <= 1 + 1e-12 and hi.sum() >= 1 - 1e-12 and np.all(lo <= hi)
        for named in (i % 2 == 0,):
            cols = [f"N{9 - i}" for i in range(k)]
            Z = frame(X, cols) if named else X
            # assets left out of a mapping are bounded by zero and one
            args = dict(
                min_weights={c: v for c, v in zip(cols, lo, strict=True) if v != 0} if named else lo,
                max_weights={c: v for c, v in zip(cols, hi, strict=True) if v != 1} if named else hi,
            )
            for M, free in ((op.HierarchicalRiskParity, free_a.weights_), (op.HierarchicalEqualRiskContribution, free_b)):
                what = f"{M.__name__} {lo} {hi}"
                ctx.step()
                try:
                    w = M(**args).fit(Z).weights_
                except (ValueError, NameError, cp.SolverError) as e:
                    ctx.expect(not feasible, "feasible-bounds-refused", f"{what}: {e}")
                    continue
                ctx.expect(feasible, "infeasible-bounds-accepted", f"{what}: {w}")
                valid(ctx, w, k, what, lo, hi)
                if M is op.HierarchicalRiskParity:
                    slack = all(
                        lo[s].sum() - 1e-9 <= free[s].sum() <= hi[s].sum() + 1e-9 for pair in splits for s in pair
                    )
                    if slack:
                        ctx.expect(np.allclose(w, free, atol=1e-7), "loose-bounds-change-weights", f"{what}: {w} but {free} without bounds")
                else:
                    want = closest(free, lo, hi)
                    ctx.expect(np.allclose(w, want, atol=2e-4), "bounded-weights-not-closest", f"{what}: {w} but {want} is closer to {free}")


def do_equal_bounds(ctx, n):
    X = data(1, n)
    for M in (op.HierarchicalRiskParity, op.HierarchicalEqualRiskContribution):
        for kw in (dict(max_weights=1 / n), dict(min_weights=1 / n), dict(min_weights=1 / n, max_weights=1 / n)):
            w = M(**kw).fit(X).weights_
            ctx.state(n, M.__name__, str(kw))
            valid(ctx, w, n, f"{M.__name__} {kw}")
            ctx.expect(np.allclose(w, 1 / n, atol=1e-5), "bounds-not-respected", f"{kw}: {w}")
            ctx.step()


def split(cv, X, Y):
    return list(cv.split(X, Y))


ORDERS = {
    "sharpe": (RatioMeasure.SHARPE_RATIO, lambda r: r.mean() / r.std(ddof=1)),
    "mean": (PerfMeasure.MEAN, lambda r: r.mean()),
    "worst": (RM.WORST_REALIZATION, lambda r: -r.min()),
}


def out_of_sample(make, X, Y, ids, cv, order="sharpe", q=0.5):
    """Out-of-sample net returns of a model trained on columns `ids`, and the tested rows."""
    Z = X.iloc[:, ids]
    _, ref = CVS[cv]
    T = lambda v, rows: None if v is None else v.iloc[rows]  # noqa: E731
    if ref is None:
        return np.asarray(make().fit(Z, Y).predict(Z)), np.arange(len(X))
    if ref == "cpcv":
        c = CVS[cv][0]()
        pieces = {}
        for i, (train, tests) in enumerate(c.split(Z, Y)):
            model = make().fit(Z.iloc[train], T(Y, train))
            for t, rows in enumerate(tests):
                pieces[i, t] = model.predict(Z.iloc[rows])
        seen = {}
        paths = [np.full(len(X), np.nan) for _ in range(c.n_test_paths)]
        ids_ = c.get_path_ids()
        for i, (_, tests) in enumerate(c.split(Z, Y)):
            for t, rows in enumerate(tests):
                paths[ids_[i, t]][rows] = np.asarray(pieces[i, t])
                seen[i, t] = rows
        values = [ORDERS[order][1](r) for r in paths]
        order = np.argsort(values, kind="stable")
        return paths[order[max(0, int(np.round(len(paths) * q)) - 1)]], np.arange(len(X))
    rows, parts = [], []
    for train, test in split(ref()[0], Z, Y):
        parts.append(np.asarray(make().fit(Z.iloc[train], T(Y, train)).predict(Z.iloc[test])))
        rows.append(test)
    rows, parts = np.concatenate(rows), np.concatenate(parts)
    order = np.argsort(rows, kind="stable")
    return parts[order], rows[order]


def do_nested(ctx, part, cv):
    k = len(part)
    X = frame(data(1, k))
    F = factors(X, 77)
    groups = [[i for i in range(k) if part[i] == c] for c in range(max(part) + 1)]
    make_cv = CVS[cv][0]
    for inner, outer in [*PAIRS, ("factor", "iv")]:
        Y = F if inner == "factor" else None
        model = op.NestedClustersOptimization(
            inner_estimator=INNER[inner](), outer_estimator=OUTER[outer](), clustering_estimator=Fixed(part), cv=make_cv and make_cv()
        )
        model.fit(X, Y)
        ctx.step()
        ctx.state("nested", part, cv, inner, outer)
        W = np.zeros((len(groups), k))
        R = []
        for c, ids in enumerate(groups):
            if len(ids) == 1:
                W[c, ids[0]] = 1
                R.append(None)
                continue
            W[c, ids] = INNER[inner]().fit(X.iloc[:, ids], Y).weights_
            R.append(out_of_sample(INNER[inner], X, Y, ids, cv)[0])
        rows = tested_rows(cv, X)
        R = np.array([X.to_numpy()[rows, groups[c][0]] if r is None else r for c, r in enumerate(R)]).T
        ow = OUTER[outer]().fit(R).weights_
        want = ow @ W
        what = f"{inner} in {outer}, {groups}, {cv}"
        ctx.expect(np.allclose(model.weights_, want, atol=2e-4), "nested-composition", f"{what}: {model.weights_} but outer weights {ow} on inner weights {W.tolist()} give {want}")
        ctx.expect(np.allclose(model.outer_estimator_.weights_, ow, atol=2e-4), "outer-training", f"{what}: outer weights {model.outer_estimator_.weights_} but {ow} on out-of-sample returns")
        ctx.expect(len(model.inner_estimators_) == sum(len(g) > 1 for g in groups), "inner-models", what)
        if cv == "default":
            p = model.predict(X)
            ctx.expect(np.allclose(np.asarray(p), X.to_numpy() @ want, atol=1e-4), "nested-prediction", what)


def tested_rows(cv, X):
    _, ref = CVS[cv]
    if ref is None or ref == "cpcv":
        return np.arange(len(X))
    return np.sort(np.concatenate([t for _, t in ref()[0].split(X)]))


def do_stacked(ctx, names, cv):
    X = frame(data(2, 4))
    models = [(f"m{i}", INNER[n]()) for i, n in enumerate(names)]
    W = np.array([INNER[n]().fit(X).weights_ for n in names])
    if cv == "prefit":
        half = X.iloc[:20]
        models = [(n, m.fit(half)) for n, m in models]
        W = np.array([m.weights_ for _, m in models])
        R = np.array([np.asarray(m.predict(X)) for _, m in models]).T
    else:
        R = np.array([out_of_sample(INNER[n], X, None, list(range(4)), cv)[0] for n in names]).T
    for final in ("iv", "rb", "ratio"):
        arg = "prefit" if cv == "prefit" else CVS[cv][0] and CVS[cv][0]()
        model = op.StackingOptimization(estimators=models, final_estimator=OUTER[final](), cv=arg).fit(X)
        ctx.step()
        ctx.state("stacked", names, cv, final)
        ow = OUTER[final]().fit(R).weights_
        what = f"{names} under {final}, {cv}"
        ctx.expect(np.allclose(model.weights_, ow @ W, atol=2e-4), "stacked-composition", f"{what}: {model.weights_} but outer weights {ow} on inner weights {W.tolist()} give {ow @ W}")
        ctx.expect(np.allclose(model.final_estimator_.weights_, ow, atol=2e-4), "final-training", f"{what}: {model.final_estimator_.weights_} but {ow} on out-of-sample returns")
        ctx.expect(list(model.named_estimators_) == [n for n, _ in models], "stacked-names", what)


def do_targets(ctx, cv):
    """Factor returns reach the inner and the final models on the tested rows."""
    X = frame(data(3, 4))
    F = factors(X, 78)
    make_cv = CVS[cv][0]
    models = [("a", INNER["factor"]()), ("b", INNER["iv"]())]
    final = lambda: op.MeanRisk(prior_estimator=pr.FactorModel())  # noqa: E731
    model = op.StackingOptimization(estimators=models, final_estimator=final(), cv=make_cv and make_cv()).fit(X, F)
    W = np.array([INNER[n]().fit(X, F).weights_ for n in ("factor", "iv")])
    got = [out_of_sample(INNER[n], X, F, list(range(4)), cv) for n in ("factor", "iv")]
    rows = got[0][1]
    ow = final().fit(np.array([g[0] for g in got]).T, F.to_numpy()[rows]).weights_
    ctx.step()
    ctx.state("targets", cv)
    ctx.expect(np.allclose(model.weights_, ow @ W, atol=2e-4), "stacked-targets", f"{cv}: {model.weights_} but {ow @ W}")
    nested = op.NestedClustersOptimization(
        inner_estimator=INNER["factor"](), outer_estimator=final(), clustering_estimator=Fixed([0, 1, 1, 0]), cv=make_cv and make_cv()
    ).fit(X, F)
    R, W = [], np.zeros((2, 4))
    for c, ids in enumerate(([0, 3], [1, 2])):
        R.append(out_of_sample(INNER["factor"], X, F, ids, cv)[0])
        W[c, ids] = INNER["factor"]().fit(X.iloc[:, ids], F).weights_
    ow = final().fit(np.array(R).T, F.to_numpy()[rows]).weights_
    ctx.expect(np.allclose(nested.weights_, ow @ W, atol=2e-4), "nested-targets", f"{cv}: {nested.weights_} but {ow @ W}")


def do_quantiles(ctx, cv, order, q):
    """Which of the combinatorial paths trains the outer model."""
    X = frame(data(5, 4))
    kw = dict(cv=CVS[cv][0](), quantile=q, quantile_measure=ORDERS[order][0])
    names = ("mr", "iv", "ratio")
    W = np.array([INNER[n]().fit(X).weights_ for n in names])
    R = np.array([out_of_sample(INNER[n], X, None, [0, 1, 2, 3], cv, order, q)[0] for n in names]).T
    ow = OUTER["iv"]().fit(R).weights_
    m = op.StackingOptimization(estimators=[(n, INNER[n]()) for n in names], final_estimator=OUTER["iv"](), **kw).fit(X)
    ctx.expect(np.allclose(m.weights_, ow @ W, atol=2e-4), "stacked-quantile", f"{cv} {order} {q}: {m.weights_} but {ow @ W}")
    W, R = np.zeros((2, 4)), []
    for c, ids in enumerate(([0, 3], [1, 2])):
        R.append(out_of_sample(INNER["mr"], X, None, ids, cv, order, q)[0])
        W[c, ids] = INNER["mr"]().fit(X.iloc[:, ids]).weights_
    ow = OUTER["iv"]().fit(np.array(R).T).weights_
    m = op.NestedClustersOptimization(
        inner_estimator=INNER["mr"](), outer_estimator=OUTER["iv"](), clustering_estimator=Fixed([0, 1, 1, 0]), **kw
    ).fit(X)
    ctx.expect(np.allclose(m.weights_, ow @ W, atol=2e-4), "nested-quantile", f"{cv} {order} {q}: {m.weights_} but {ow @ W}")
    ctx.state("quantiles", cv, order, q)
    ctx.step(2)


def do_naive(ctx, prior, k):
    X = frame(data(4, k))
    F = factors(X, 79)
    p = PRIORS[prior]().fit(X, F).prior_model_
    s = 1 / np.sqrt(np.diag(p.covariance))
    w = op.InverseVolatility(prior_estimator=PRIORS[prior]()).fit(X, F).weights_
    ctx.expect(np.allclose(w, s / s.sum(), rtol=1e-9), "inverse-volatility", f"{prior}: {w} but {s / s.sum()}")
    w = op.EqualWeighted().fit(X).weights_
    ctx.expect(np.allclose(w, 1 / k, rtol=1e-12), "equal-weighted", f"{w}")
    for _ in range(5):
        w = op.Random().fit(X).weights_
        valid(ctx, w, k, "Random", tol=1e-9)
    # hierarchical models take their risk from the prior
    for M in (op.HierarchicalRiskParity, op.HierarchicalEqualRiskContribution):
        m = M(prior_estimator=PRIORS[prior]()).fit(X, F)
        ref = Reference(RM.VARIANCE, np.asarray(p.returns), p.covariance, lambda w: 0.0)
        h = m.hierarchical_clustering_estimator_
        if M is op.HierarchicalRiskParity:
            want = hrp(ref, sch.leaves_list(sch.optimal_leaf_ordering(h.linkage_matrix_, h.condensed_distance_)))[0]
        else:
            want = herc(ref, h.linkage_matrix_, h.labels_)
        ctx.expect(np.allclose(m.weights_, want, atol=1e-7), "prior-used", f"{M.__name__} {prior}: {m.weights_} but {want}")
    ctx.state(prior, k)
    ctx.step(9)


def do_refused(ctx):
    X = data(1, 3)
    for M in (op.HierarchicalRiskParity, op.HierarchicalEqualRiskContribution):
        for kw in (
            dict(min_weights=-0.1), dict(max_weights=1.2), dict(max_weights=0.3), dict(min_weights=0.4), dict(min_weights=[0.5, 0.5, 0.1]),
            dict(max_weights=[0.3, 0.35, 0.34]), dict(min_weights=[0.35, 0.34, 0.32]), dict(max_weights=[0.3, 0.3, 0.399]),
            dict(min_weights=0.5, max_weights=0.4), dict(risk_measure=ExtraRiskMeasure.SKEW), dict(risk_measure=ExtraRiskMeasure.KURTOSIS),
            dict(risk_measure="variance"),
        ):  # fmt: skip
            ctx.step()
            ctx.state(M.__name__, str(kw))
            try:
                w = M(**kw).fit(X).weights_
            except (ValueError, TypeError, NameError, cp.SolverError):
                continue
            ctx.fail("infeasible-bounds-accepted", f"{M.__name__} {kw}: {w}")
