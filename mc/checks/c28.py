"""A list of targets gives the same portfolios as solving each target alone."""

import functools
import itertools
import warnings

import numpy as np
import pandas as pd
from skfolio.uncertainty_set import EmpiricalMuUncertaintySet

from mc.lib import names, returns

PROPERTY = "C28"
BOUNDS = {
    "quick": "every ordered list of up to 3 targets out of 3 feasible and 1 infeasible for the minimum return and each of 15 risk limits, 4 objectives, pairs of limits, all pairs of list lengths up to 4; frontiers of size 2-6 for 15 risk measures, 5 return matrices and 7 constraint sets",
    "thorough": "as quick with lists of up to 4 targets for every objective and frontiers of size up to 10",
}
OBJ = ["MINIMIZE_RISK", "MAXIMIZE_RETURN", "MAXIMIZE_UTILITY", "MAXIMIZE_RATIO"]
RISKS = [
    "VARIANCE", "STANDARD_DEVIATION", "SEMI_VARIANCE", "SEMI_DEVIATION",
    "MEAN_ABSOLUTE_DEVIATION", "FIRST_LOWER_PARTIAL_MOMENT", "CVAR", "EVAR",
    "WORST_REALIZATION", "CDAR", "MAX_DRAWDOWN", "AVERAGE_DRAWDOWN", "EDAR",
    "ULCER_INDEX", "GINI_MEAN_DIFFERENCE",
]  # fmt: skip
BETAS = dict(cvar_beta=0.8, evar_beta=0.7, cdar_beta=0.75, edar_beta=0.65)
LEVELS = ["a", "b", "c", "x"]  # tight, middle, loose, impossible
CONS = {
    "none": {},
    "max": dict(max_weights=0.6),
    "short": dict(min_weights=-0.4, max_weights=0.9),
    "min": dict(min_weights=[0.1, 0.0, 0.2]),
    "costs": dict(transaction_costs=[0.004, 0.001, 0.002], previous_weights=[0.5, 0.2, 0.3], management_fees=0.0004),
    "l2": dict(l2_coef=0.0005),
    "robust": dict(mu_uncertainty_set_estimator=EmpiricalMuUncertaintySet(confidence_level=0.3)),
}  # fmt: skip


def cases(tier):
    n = 3 if tier == "quick" else 4
    for obj in OBJ:
        for limit in ["min_return", *(f"max_{r.lower()}" for r in RISKS)]:
            if tier == "quick" and obj != "MINIMIZE_RISK" and limit not in (
                "min_return", "max_variance", "max_standard_deviation", "max_cvar", "max_cdar", "max_semi_variance",
            ):  # fmt: skip
                continue
            for first in LEVELS:
                yield ["lists", obj, limit, first, n]
    for obj in OBJ:
        for pair in (
            ("min_return", "max_cvar"),
            ("min_return", "max_variance"),
            ("max_cdar", "max_mean_absolute_deviation"),
        ):
            yield ["zip", obj, *pair]
            yield ["lengths", obj, *pair]
    for r in RISKS:
        for k in range(5):
            for c in CONS if k == 0 else ["none", "max"]:
                yield ["frontier", r, k, c, 6 if tier == "quick" else 10]
    yield ["badfrontier"]
    yield ["forms"]
    for obj in OBJ:
        yield ["failure", obj]


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + case[0]](ctx, *case[1:])
    ctx.trace()
    ctx.outcome(case[0])


@functools.lru_cache
def _data(k=0):
    n = 14
    x = returns(31 + k, n, 3, scale=0.08)
    x[0] = np.abs(x[0])
    x += 0.006 - x.mean(axis=0) * 0.3
    if k == 1:  # the safest asset also earns the most
        x[:, 0] = 0.03 + 0.02 * x[:, 0]
        x[[2, 5, 6, 10], 0] = [-0.004, -0.006, -0.003, -0.007]
    if k == 2:  # minimum risk has a negative return
        x[:, 0] = -0.002 + 0.1 * x[:, 0]
        x[:, 0] -= x[:, 0].mean() + 0.002
    if k == 3:  # two assets earn the same
        x[:, 1] += x[:, 0].mean() - x[:, 1].mean()
    if k == 4:  # large returns
        x = x * 3 + 0.01
    return pd.DataFrame(
        x, index=pd.date_range("2021-01-04", periods=n, freq="B"), columns=names(3)
    )


def _model(risk="VARIANCE", obj="MINIMIZE_RISK", **kw):
    from skfolio import RiskMeasure
    from skfolio.optimization import MeanRisk, ObjectiveFunction

    return MeanRisk(
        risk_measure=RiskMeasure[risk],
        objective_function=ObjectiveFunction[obj],
        **BETAS,
        **kw,
    )


def _fit(risk, obj, k=0, **kw):
    """A fitted model, relaxing the solver when it stops short of its tolerance."""
    import cvxpy as cp

    for params in (None, dict(tol_gap_abs=1e-7, tol_gap_rel=1e-7)):
        try:
            return _model(risk, obj, solver_params=params, **kw).fit(_data(k))
        except cp.SolverError:
            pass
    return None


@functools.lru_cache(maxsize=4000)
def _alone(risk, obj, items, k=0):
    m = _fit(risk, obj, k, **dict(items))
    return None if m is None else (m.weights_, dict(m.problem_values_))


@functools.lru_cache
def _levels(limit):
    """Tight, middle, loose and impossible values of a limit."""
    X = _data()
    if limit == "min_return":
        top = X.mean().max()
        low = _alone("VARIANCE", "MINIMIZE_RISK", ())[1]["expected_return"]
        return {
            "a": low + 0.8 * (top - low),
            "b": low + 0.5 * (top - low),
            "c": low + 0.2 * (top - low),
            "x": top * 1.5 + 0.01,
        }
    r = limit[4:].upper()
    low = float(_alone(r, "MINIMIZE_RISK", ())[1]["risk"])
    top = float(_alone(r, "MAXIMIZE_RETURN", ())[1]["risk"])
    return {
        "a": low + 0.2 * (top - low),
        "b": low + 0.4 * (top - low),
        "c": low + 0.7 * (top - low),
        "x": low * 0.5,
    }


def _risk_for(limit):
    return "VARIANCE" if limit != "max_variance" else "CVAR"


def _close(ctx, got, values, ref, what, key):
    """Same optimum: unique weights, or equal value where optima are not unique."""
    w, pv = ref
    a, b = values["objective"], pv["objective"]
    ctx.expect(
        abs(a - b) <= 2e-4 * max(abs(b), 1e-2),
        key,
        lambda: f"{what}: value {a} not {b} as alone (weights {got}, alone {w})",
    )
    ctx.expect(
        bool(np.all(np.abs(got - w) <= 0.02)) or key == "loose",
        key,
        lambda: f"{what}: weights {got}, alone {w}",
    )


def _compare(ctx, risk, obj, param_rows, lists, what, **extra):
    """Solve the lists together and each row alone."""
    import cvxpy as cp

    refs = [_alone(risk, obj, tuple(sorted(r.items()))) for r in param_rows]
    good = [r for r in refs if r is not None]
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        m = _model(risk, obj, raise_on_failure=False, **lists, **extra).fit(_data())
    fails = [w for w in rec if "failed" in str(w.message)]
    n = len(param_rows)
    ctx.step(n)
    W = np.asarray(m.weights_)
    if n == 1:
        if good:
            _close(ctx, W.reshape(-1), _first(m.problem_values_), good[0], what, "same")
        return
    ctx.expect(
        W.ndim == 2 and W.shape == (len(good), 3) and len(m.problem_values_) == len(good),
        "count",
        lambda: f"{what}: {W.shape[0] if W.ndim else 0} portfolios for {len(good)} reachable targets of {n}",
    )
    ctx.expect(
        len(fails) == n - len(good),
        "reported",
        lambda: f"{what}: {len(fails)} failures reported for {n - len(good)}",
    )
    for i, ref in enumerate(good):
        _close(ctx, W[i], m.problem_values_[i], ref, f"{what}, portfolio {i}", "same")
    pop = m.predict(_data())
    ctx.expect(
        len(pop) == len(good)
        and all(np.array_equal(p.weights, W[i]) for i, p in enumerate(pop)),
        "predict",
        lambda: f"{what}: predicted portfolios do not follow the weights",
    )
    strict = _model(risk, obj, **lists, **extra)
    try:
        strict.fit(_data())
        raised = False
    except cp.SolverError:
        raised = True
    ctx.expect(
        raised == (len(good) < n),
        "raise",
        lambda: f"{what}: {'refused' if raised else 'accepted'} with {n - len(good)} impossible targets",
    )


def _first(pv):
    return pv[0] if isinstance(pv, list) else pv


def do_lists(ctx, obj, limit, first, n):
    risk = _risk_for(limit)
    lev = _levels(limit)
    for size in range(1, n + 1):
        for rest in itertools.product(LEVELS, repeat=size - 1):
            seq = [first, *rest]
            if size == n and n > 3 and len(set(seq)) < 2:
                continue
            vals = [lev[s] for s in seq]
            _compare(
                ctx,
                risk,
                obj,
                [{limit: v} for v in vals],
                {limit: vals},
                f"{obj} {risk} with {limit} {seq}",
            )
            ctx.state(obj, limit, tuple(seq))


def do_zip(ctx, obj, a, b):
    la, lb = _levels(a), _levels(b)
    risk = "STANDARD_DEVIATION"
    for sa in itertools.permutations("bcx", 2):
        for sb in itertools.product("bcx", repeat=2):
            rows = [{a: la[i], b: lb[j]} for i, j in zip(sa, sb)]
            lists = {a: [la[i] for i in sa], b: [lb[j] for j in sb]}
            _compare(ctx, risk, obj, rows, lists, f"{obj} {a} {sa} with {b} {sb}")
            ctx.state(obj, a, b, sa, sb)
    # a number goes with every element of a list
    for sb in itertools.product("bcx", repeat=2):
        rows = [{a: la["c"], b: lb[j]} for j in sb]
        _compare(
            ctx, risk, obj, rows, {a: la["c"], b: [lb[j] for j in sb]}, f"{obj} {a} c with {b} {sb}"
        )


def do_lengths(ctx, obj, a, b):
    la, lb = _levels(a), _levels(b)
    for n, m in itertools.product(range(5), repeat=2):
        if n == m and n:
            continue
        va = [la["bcbc"[i]] for i in range(n)]
        vb = [lb["cbcb"[i]] for i in range(m)]
        for raising in (True, False):
            try:
                _model("STANDARD_DEVIATION", obj, raise_on_failure=raising, **{a: va, b: vb}).fit(_data())
                ctx.fail("lengths", f"{a} of length {n} with {b} of length {m} accepted")
            except ValueError:
                pass
        ctx.state(obj, a, b, n, m)


def do_forms(ctx):
    lev = _levels("min_return")
    vals = [lev[s] for s in "cab"]
    ref = _model(min_return=vals).fit(_data()).weights_
    for form in (tuple(vals), np.array(vals), [np.float64(v) for v in vals]):
        W = _model(min_return=form).fit(_data()).weights_
        ctx.expect(
            np.allclose(W, ref, atol=1e-8), "forms", lambda: f"{type(form)}: {W} not {ref}"
        )
        ctx.state(type(form).__name__)
    # fitting again, and after another list, gives the same
    m = _model(min_return=vals)
    m.fit(_data())
    m.set_params(min_return=lev["b"]).fit(_data())
    one = m.weights_
    ctx.expect(
        one.shape == (3,) and np.allclose(one, ref[2], atol=1e-4),
        "refit",
        lambda: f"one target after a list: {one}, in the list {ref[2]}",
    )
    m.set_params(min_return=vals).fit(_data())
    ctx.expect(np.allclose(m.weights_, ref, atol=1e-8), "refit", "list after one target differs")


def do_failure(ctx, obj):
    """A single impossible target."""
    import cvxpy as cp

    for limit in ("min_return", "max_cvar", "max_standard_deviation"):
        x = _levels(limit)["x"]
        try:
            _model("SEMI_DEVIATION", obj, **{limit: x}).fit(_data())
            ctx.fail("raise", f"{obj} {limit}={x} accepted")
        except cp.SolverError:
            pass
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            m = _model("SEMI_DEVIATION", obj, raise_on_failure=False, **{limit: x})
            try:
                m.fit(_data())
            except cp.SolverError:
                pass
        ctx.expect(
            any("failed" in str(w.message) for w in rec),
            "reported",
            lambda: f"{obj} {limit}={x}: failure not reported",
        )
        w = getattr(m, "weights_", None)
        ctx.expect(
            w is None or np.size(w) == 0 or bool(np.all(np.isnan(w))),
            "left-over",
            lambda: f"{obj} {limit}={x}: weights {w} in spite of the failure",
        )
        # stale weights of an earlier fit do not survive a failure
        m = _model("SEMI_DEVIATION", obj, raise_on_failure=False).fit(_data())
        try:
            m.set_params(**{limit: x}).fit(_data())
        except cp.SolverError:
            pass
        w = getattr(m, "weights_", None)
        ctx.expect(
            w is None or np.size(w) == 0 or bool(np.all(np.isnan(w))),
            "left-over",
            lambda: f"{obj} {limit}={x}: weights {w} of the earlier fit kept",
        )
        ctx.state(obj, limit)


def do_frontier(ctx, risk, k, cons, top):
    import cvxpy as cp

    X = _data(k)
    kw = CONS[cons]
    items = tuple(kw.items())

    def alone(obj, **more):
        m = _fit(risk, obj, k, **kw, **more)
        return None if m is None else (m.weights_, m.problem_values_)

    lo, hi = alone("MINIMIZE_RISK"), alone("MAXIMIZE_RETURN")
    if lo is None or hi is None:
        return
    rlo, rhi = float(lo[1]["expected_return"]), float(hi[1]["expected_return"])
    assert items is not None
    for size in range(2, top + 1):
        what = f"frontier of {size}, {risk}, data {k}, {cons}"
        try:
            m = _model(risk, efficient_frontier_size=size, **kw).fit(X)
        except cp.SolverError:
            if rhi - rlo <= 1e-6 * abs(rhi) or alone("MINIMIZE_RISK", min_return=rhi) is not None:
                try:
                    tol = dict(tol_gap_abs=1e-7, tol_gap_rel=1e-7)
                    m = _model(risk, efficient_frontier_size=size, solver_params=tol, **kw).fit(X)
                except cp.SolverError as e:
                    ctx.fail("frontier-refused", f"{what}: {e}")
            else:
                continue
        W, pv = m.weights_, m.problem_values_
        ctx.expect(
            W.shape == (size, 3) and len(pv) == size and len(m.predict(X)) == size,
            "frontier-size",
            lambda: f"{what}: {W.shape}",
        )
        ret = np.array([float(v["expected_return"]) for v in pv])
        rsk = np.array([float(v["risk"]) for v in pv])
        tol_r, tol_k = 1e-5 * abs(rhi) + 1e-7, 2e-4 * np.abs(rsk).max() + 1e-8
        ctx.expect(
            bool(np.all(np.diff(ret) >= -tol_r)) and bool(np.all(np.diff(rsk) >= -tol_k)),
            "monotone",
            lambda: f"{what}: returns {ret}, risks {rsk}",
        )
        start = max(rlo, 0)
        ctx.expect(
            start - tol_r <= ret[0] <= max(1.02 * start, 1e-6) + 1e-4 * abs(rhi - rlo),
            "start",
            lambda: f"{what}: starts at return {ret[0]}, minimum risk has {rlo}",
        )
        ctx.expect(
            abs(ret[-1] - rhi) <= 1e-4 * abs(rhi),
            "end",
            lambda: f"{what}: ends at return {ret[-1]}, largest is {rhi}",
        )
        steps = np.diff(ret)
        ctx.expect(
            steps.max() - steps.min() <= 1e-3 * max(rhi - rlo, abs(rhi) * 0.02),
            "spacing",
            lambda: f"{what}: returns {ret} not evenly spread",
        )
        for i in range(size):
            ref = alone("MINIMIZE_RISK", min_return=min(ret[i], rhi * (1 - 1e-7)))
            if ref is None:
                continue
            a, b = float(pv[i]["objective"]), float(ref[1]["objective"])
            ctx.expect(
                a <= b + 1e-3 * abs(b) + 1e-7,
                "dominated",
                lambda: f"{what}: portfolio {i} with return {ret[i]} has risk {a}, {b} is possible",
            )
        ctx.state(risk, k, cons, size)
        ctx.step(size)


def do_badfrontier(ctx):
    X = -np.abs(_data()) - 0.001
    for size in (2, 3):
        try:
            _model(efficient_frontier_size=size).fit(X)
            ctx.fail("negative", "frontier of losing assets accepted")
        except ValueError:
            pass
    for size in (-1, 0, 1):
        try:
            _model(efficient_frontier_size=size).fit(_data())
            ctx.fail("bad-size", f"frontier of size {size} accepted")
        except ValueError:
            pass
        ctx.state(size)
    for obj in OBJ[1:]:
        try:
            _model(obj=obj, efficient_frontier_size=3).fit(_data())
            ctx.fail("bad-objective", f"frontier with {obj} accepted")
        except ValueError:
            pass
