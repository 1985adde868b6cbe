"""C03: cross-validated prediction against independent refits, under all fold schedules."""

import copy
import itertools
import math

import joblib
import numpy as np
import pandas as pd
import sklearn.model_selection as sks
from joblib.parallel import ParallelBackendBase
from sklearn.base import clone
from sklearn.pipeline import Pipeline
from skfolio.model_selection import CombinatorialPurgedCV, WalkForward, cross_val_predict
from skfolio.optimization import (
    BaseOptimization,
    EqualWeighted,
    HierarchicalRiskParity,
    InverseVolatility,
    MeanRisk,
    StackingOptimization,
)
from skfolio.population import Population
from skfolio.portfolio import MultiPeriodPortfolio
from skfolio.pre_selection import SelectKExtremes

from mc.lib import close, frame, returns

PROPERTY = "C03"
BOUNDS = {
    "quick": "30 rows x 3 assets; walk-forward grid, k-fold 2..5, combinatorial "
    "3..5 folds, all orders of 3-4 explicit folds, all completion orders of up to 4 folds "
    "(and of 6 combinatorial folds for the probe model); 8 models; all shuffled or "
    "overlapping single-fold corruptions",
    "thorough": "as quick with 42 rows, 6 combinatorial folds, every model under every schedule",
}
ASSUMPTIONS = [
    "schedules are completion orders of whole folds (folds share only read-only data)",
]


class Probe(BaseOptimization):
    """Weights are an order-sensitive code of exactly the rows it was given."""

    def __init__(self, salt=0.0, portfolio_params=None):
        super().__init__(portfolio_params=portfolio_params)
        self.salt = salt

    def fit(self, X, y=None, extra=None):
        A = np.asarray(X, dtype=float)
        h = np.zeros(A.shape[1])
        for row in A:
            h = 0.75 * h + row
        w = np.abs(h) + 0.01 + self.salt
        if y is not None:
            w = w * (1.0 + np.abs(np.cumsum(np.asarray(y, dtype=float).ravel()))[-1] * np.arange(1, len(w) + 1))
        if extra is not None:
            w = w + np.abs(np.asarray(extra, dtype=float) @ np.arange(1, len(A) + 1)) * np.arange(len(w))
        self.weights_ = w / w.sum()
        self.n_features_in_ = A.shape[1]
        return self


def models():
    return {
        "probe": Probe(),
        "equal": EqualWeighted(),
        "invvol": InverseVolatility(),
        "meanrisk": MeanRisk(
            transaction_costs=0.01,
            management_fees=0.002,
            previous_weights=[0.5, 0.2, 0.3],
            risk_free_rate=0.0001,
        ),
        "hrp": HierarchicalRiskParity(portfolio_params=dict(name="mine", tag="t")),
        "pipe": Pipeline([("pre", SelectKExtremes(k=2)), ("opt", InverseVolatility())]).set_output(transform="pandas"),
        "pipe-probe": Pipeline([("pre", SelectKExtremes(k=2, highest=False)), ("opt", Probe(0.1))]).set_output(transform="pandas"),
        "stack": StackingOptimization(
            estimators=[("a", EqualWeighted()), ("b", InverseVolatility())],
            final_estimator=Probe(),
            cv=2,
        ),
    }


class OrderedBackend(ParallelBackendBase):
    """Executes the submitted folds in a chosen order once all are submitted."""

    supports_retrieve_callback = True
    supports_return_generator = True
    uses_threads = True
    supports_sharedmem = True

    def __init__(self, order=(), **kw):
        super().__init__(**kw)
        self.order = list(order)
        self.jobs = []

    def configure(self, n_jobs=1, parallel=None, **kw):
        self.parallel = parallel
        return self.effective_n_jobs(n_jobs)

    def effective_n_jobs(self, n_jobs):
        return 64

    def submit(self, func, callback=None):
        self.jobs.append((func, callback))
        if len(self.jobs) == len(self.order):
            jobs, self.jobs = self.jobs, []
            for k in self.order:
                f, cb = jobs[k]
                try:
                    out = (True, f())
                except BaseException as e:  # handed over like a worker's error
                    out = (False, e)
                cb(out)
        return len(self.jobs)

    apply_async = submit

    def retrieve_result_callback(self, out):
        ok, value = out
        if not ok:
            raise value
        return value

    def get_nested_backend(self):
        from joblib._parallel_backends import SequentialBackend

        return SequentialBackend(nesting_level=1), None


N = {"quick": 30, "thorough": 42}


def splitters(n, tier):
    out = {}
    for k in (2, 3, 4, 5):
        out[f"kfold{k}"] = lambda k=k: sks.KFold(k)
    out["int3"] = lambda: 3
    out["default"] = lambda: None
    for k in (2, 3, 4):
        out[f"tss{k}"] = lambda k=k: sks.TimeSeriesSplit(k)
    out["tss-gap"] = lambda: sks.TimeSeriesSplit(3, gap=1, test_size=2)
    for tr, te, pu, ex, rd in itertools.product(
        (4, 7, 12), (3, 5, 9), (0, 1, 2), (False, True), (False, True)
    ):
        out[f"wf-{tr}-{te}-{pu}-{ex:d}-{rd:d}"] = lambda a=(tr, te, pu, ex, rd): WalkForward(
            train_size=a[0], test_size=a[1], purged_size=a[2], expend_train=a[3], reduce_test=a[4]
        )
    for f in (3, 4, 5) + ((6,) if tier == "thorough" else ()):
        for t in range(2, f):
            for pu, em in ((0, 0), (1, 0), (0, 1)):
                if pu + em >= n // f - 1:
                    continue
                out[f"cpcv-{f}-{t}-{pu}-{em}"] = lambda a=(f, t, pu, em): CombinatorialPurgedCV(*a)
    # explicit lists of folds in every order
    for k in (3, 4):
        for perm in itertools.permutations(range(k)):
            out[f"list{k}-" + "".join(map(str, perm))] = lambda k=k, perm=perm: [
                list(sks.KFold(k).split(np.zeros(n)))[i] for i in perm
            ]
    return out


def cases(tier):
    n = N[tier]
    names = splitters(n, tier)
    dear = {"meanrisk", "stack", "hrp"}
    for m in models():
        for s in names:
            if tier == "quick" and m in dear and s.startswith("wf") and s[-1] == "0":
                continue
            yield ["folds", tier, m, s]
    for k in (2, 3, 4):
        for m in models():
            yield ["orders", tier, m, f"kfold{k}"]
    for s in ["cpcv-3-2-0-0", "cpcv-4-3-0-0", "wf-12-9-0-0-1", "tss3"]:
        for m in models():
            yield ["orders", tier, m, s]
    for first in range(6):
        yield ["orders6", tier, "probe", "cpcv-4-2-0-0", first]
    yield ["threads", tier]
    yield ["refused", tier]
    yield ["columns", tier]
    yield ["params", tier]


def data(tier, as_frame=True):
    n = N[tier]
    a = np.round(returns(5, n, 3), 5)
    y = np.round(returns(9, n, 2), 5)
    if not as_frame:
        return a, y
    return frame(a), frame(y, cols=["F0", "F1"])


def rows(a, idx):
    return a.iloc[idx] if hasattr(a, "iloc") else a[idx]


def snapshot(a):
    return np.array(a, copy=True)


def check_portfolio(ctx, got, want, X_test, what):
    ctx.step()
    ctx.expect(close(got.weights, want.weights), "fold-weights", lambda: (what, got.weights, want.weights))
    ctx.expect(close(got.returns, want.returns), "fold-returns", lambda: (what, got.returns, want.returns))
    ctx.expect(
        list(got.observations) == list(want.observations), "fold-observations", lambda: (what,)
    )
    ctx.expect(list(got.assets) == list(want.assets), "fold-assets", lambda: (what, got.assets))
    for attr in ("name", "tag", "transaction_costs", "management_fees", "risk_free_rate"):
        ctx.expect(getattr(got, attr) == getattr(want, attr), "fold-attribute", (what, attr))
    ctx.expect(
        len(got.returns) == len(X_test)
        and (not hasattr(X_test, "index") or list(got.observations) == list(X_test.index)),
        "fold-rows",
        what,
    )


def reference(model, X, y, splits, **fit):
    """For each split: (test rows, portfolio of a fresh model fitted on the train rows)."""
    out = []
    for train, tests in splits:
        est = clone(model)
        tr = list(map(int, train))
        kw = {k: np.asarray(v)[tr] for k, v in fit.items()}
        if y is None:
            est.fit(copy.deepcopy(rows(X, tr)), **kw)
        else:
            est.fit(copy.deepcopy(rows(X, tr)), copy.deepcopy(rows(y, tr)), **kw)
        for t in tests if isinstance(tests, list) else [tests]:
            t = list(map(int, t))
            out.append((t, est.predict(rows(X, t))))
    return out


def compare(ctx, pred, model, X, y, cv_factory, what, name=None, fit=None):
    cv = cv_factory()
    combi = isinstance(cv, CombinatorialPurgedCV)
    checked = cv if combi or hasattr(cv, "split") else sks.check_cv(cv)
    splits = list(checked.split(X, y)) if hasattr(checked, "split") else list(cv)
    ref = reference(model, X, y, splits, **(fit or {}))
    if combi:
        n_paths = math.comb(cv.n_folds, cv.n_test_folds) * cv.n_test_folds // cv.n_folds
        ctx.expect(isinstance(pred, Population) and len(pred) == n_paths, "paths", what)
        # every (split, block) prediction is used exactly once, each path covers all rows
        used = set()
        for i, path in enumerate(pred):
            ctx.expect(isinstance(path, MultiPeriodPortfolio), "path-type", what)
            ctx.expect(path.name == f"{name or 'path'}_{i}", "path-name", (what, path.name))
            at = 0
            for p in path.portfolios:
                hit = [
                    j
                    for j, (t, w) in enumerate(ref)
                    if j not in used
                    and t[0] == at
                    and close(p.weights, w.weights)
                    and len(w.returns) == len(p.returns)
                ]
                ctx.expect(hit, "path-fold", lambda: (what, i, at))
                used.add(hit[0])
                check_portfolio(ctx, p, ref[hit[0]][1], rows(X, ref[hit[0]][0]), what)
                at = ref[hit[0]][0][-1] + 1
            ctx.expect(at == len(X), "path-rows", (what, i, at))
            ctx.expect(
                close(path.returns, np.concatenate([p.returns for p in path.portfolios])),
                "path-returns",
                what,
            )
            ids = cv.get_path_ids()
            for (s, b), pid in np.ndenumerate(ids):
                if pid == i:
                    t, w = ref[s * cv.n_test_folds + b]
                    mine = [p for p in path.portfolios if close(p.returns, w.returns)]
                    ctx.expect(mine, "path-assignment", (what, i, s, b))
        ctx.expect(len(used) == len(ref), "path-coverage", what)
        ctx.trace(n_paths)
    else:
        ref = sorted(ref, key=lambda r: r[0][0])
        ctx.expect(isinstance(pred, MultiPeriodPortfolio), "type", what)
        ctx.expect(len(pred) == len(ref), "fold-count", (what, len(pred), len(ref)))
        for p, (t, w) in zip(pred.portfolios, ref, strict=True):
            check_portfolio(ctx, p, w, rows(X, t), what)
        ctx.expect(
            close(pred.returns, np.concatenate([w.returns for _, w in ref])), "returns", what
        )
        if name:
            ctx.expect(pred.name == name, "name", what)
        ctx.trace()
    ctx.state(what[1:], len(ref))


def params_text(model):
    out = []
    for k, v in sorted(model.get_params().items()):
        out.append((k, repr(v)))
    return out


def run_one(ctx, m, s, X, y, tier, backend=None, what=None):
    model = models()[m]
    factory = splitters(N[tier], tier)[s]
    before = (snapshot(X), None if y is None else snapshot(y), params_text(model))
    cv = factory()
    if backend is None:
        pred = cross_val_predict(model, X, y, cv=cv)
    else:
        with joblib.parallel_config(backend=backend, n_jobs=64):
            pred = cross_val_predict(model, X, y, cv=cv)
    compare(ctx, pred, model, X, y, factory, what)
    ctx.expect(np.array_equal(snapshot(X), before[0]), "data-changed", what)
    ctx.expect(y is None or np.array_equal(snapshot(y), before[1]), "factors-changed", what)
    ctx.expect(params_text(model) == before[2], "model-changed", what)
    ctx.expect(
        not [a for a in vars(model) if a.endswith("_") and not a.startswith("_")],
        "model-fitted",
        what,
    )


def run_case(case, ctx):
    kind, tier = case[0], case[1]
    if kind == "folds":
        m, s = case[2:]
        for as_frame in (True, False):
            if not as_frame and m in ("hrp", "pipe-probe") and s.startswith("wf"):
                continue
            X, y = data(tier, as_frame)
            with_y = [None] if m not in ("probe", "stack") else [None, y]
            for yy in with_y:
                run_one(ctx, m, s, X, yy, tier, what=["folds", m, s, as_frame, yy is not None])
        ctx.outcome(f"folds-{s.split('-')[0]}")
    elif kind in ("orders", "orders6"):
        m, s = case[2:4]
        X, y = data(tier)
        n = len(X)
        cv = splitters(n, tier)[s]()
        n_splits = len(list(cv.split(X)))
        for order in itertools.permutations(range(n_splits)):
            if kind == "orders6" and order[0] != case[4]:
                continue
            run_one(
                ctx, m, s, X, None, tier, OrderedBackend(order), ["orders", m, s, list(order)]
            )
        ctx.outcome(f"orders-{n_splits}")
    elif kind == "threads":
        X, y = data(tier)
        for m, s, jobs in itertools.product(models(), ("kfold4", "wf-4-3-0-0-1", "cpcv-4-2-0-0"), (2, 3)):
            model = models()[m]
            with joblib.parallel_config(backend="threading"):
                pred = cross_val_predict(model, X, cv=splitters(len(X), tier)[s](), n_jobs=jobs)
            compare(ctx, pred, model, X, None, splitters(len(X), tier)[s], ["threads", m, s, jobs])
        ctx.outcome("threads")
    elif kind == "columns":
        X, y = data(tier)
        for idx in itertools.chain(
            itertools.permutations(range(3), 2), itertools.permutations(range(3), 3)
        ):
            for yy in (None, y, y.iloc[:, 0], y.to_numpy()):
                for A in (X, X.to_numpy()):
                    for m in ("probe", "equal"):
                        sub = A.iloc[:, list(idx)] if hasattr(A, "iloc") else A[:, list(idx)]
                        pred = cross_val_predict(
                            models()[m], A, yy, cv=sks.KFold(3), column_indices=np.array(idx)
                        )
                        compare(
                            ctx, pred, models()[m], sub, yy, lambda: sks.KFold(3),
                            ["columns", m, list(idx), yy is None],
                        )  # fmt: skip
        ctx.outcome("columns")
    elif kind == "params":
        X, y = data(tier)
        extra = np.arange(len(X)) * 0.01 + 0.003
        for s in ("kfold3", "wf-7-5-1-1-1", "cpcv-4-2-0-0", "list3-201"):
            pp = dict(name="foo", annualized_factor=12, tag="z")
            keep = dict(pp)
            f = splitters(len(X), tier)[s]
            pred = cross_val_predict(
                Probe(), X, y, cv=f(), params={"extra": extra}, portfolio_params=pp
            )
            compare(ctx, pred, Probe(), X, y, f, ["params", s], name="foo", fit={"extra": extra})
            ctx.expect(pp == keep, "portfolio-params-changed", pp)
            for p in pred if isinstance(pred, Population) else [pred]:
                ctx.expect(p.annualized_factor == 12 and p.tag == "z", "portfolio-params", s)
        ctx.outcome("params")
    elif kind == "refused":
        X, y = data(tier)
        n = len(X)
        base = [(list(a), list(b)) for a, b in sks.KFold(3).split(np.zeros(n))]
        bad = []
        for f, side in itertools.product(range(3), range(2)):
            b = [[list(a), list(c)] for a, c in base]
            b[f][side] = b[f][side][::-1]
            bad.append(("reversed", f, side, b))
            b = [[list(a), list(c)] for a, c in base]
            b[f][side][0], b[f][side][1] = b[f][side][1], b[f][side][0]
            bad.append(("swapped", f, side, b))
        for f, g in itertools.permutations(range(3), 2):
            b = [[list(a), list(c)] for a, c in base]
            b[f][1] = sorted(set(b[f][1]) | {b[g][1][0]})
            bad.append(("overlap", f, g, b))
        for kind2, f, g, b in bad:
            ctx.step()
            b = [(np.array(a), np.array(c)) for a, c in b]
            try:
                cross_val_predict(EqualWeighted(), X, cv=b)
            except ValueError:
                ctx.state(kind2, f, g)
                continue
            ctx.fail("not-refused", (kind2, f, g))
        for cv in (sks.KFold(3, shuffle=True, random_state=0), sks.ShuffleSplit(2, random_state=0)):
            try:
                cross_val_predict(EqualWeighted(), X, cv=cv)
            except ValueError:
                continue
            ctx.fail("not-refused", str(cv))
        ctx.trace()
        ctx.outcome("refused")
