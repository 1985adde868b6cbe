"""C34: restating the same problem in other units, scales, solvers or redundant words changes nothing."""

import itertools
import warnings

import cvxpy as cp
import numpy as np
from skfolio import RiskMeasure
from skfolio import optimization as op
from skfolio.optimization import ObjectiveFunction as OF

from mc import vecmeasures as vm
from mc.lib import frame, returns

PROPERTY = "C34"
BOUNDS = {
    "quick": "4 assets x 24 observations; 15 risk measures x 4 objectives x 6 feasible regions, each restated in 14 ways (units of the "
    "returns, scale of objective and constraints, solver, order and repetition of observations, shifted returns, redundant constraints, "
    "scaled budget); risk budgeting, maximum diversification and robust CVaR restated likewise; unreachable requests x reporting modes",
    "thorough": "as quick on 3 data sets",
}
K, N = 4, 24
OBJ = ("MINIMIZE_RISK", "MAXIMIZE_RETURN", "MAXIMIZE_UTILITY", "MAXIMIZE_RATIO")
SQUARED = ("variance", "semi_variance")
DRAWDOWN = ("max_drawdown", "average_drawdown", "cdar", "edar", "ulcer_index")
LINEAR = ("mean_absolute_deviation", "first_lower_partial_moment", "worst_realization", "cvar", "max_drawdown", "average_drawdown", "cdar")
CASH = ("worst_realization", "cvar", "evar")  # move one for one with a sure return
BETAS = dict(cvar_beta=0.8, evar_beta=0.8, cdar_beta=0.8, edar_beta=0.8)
REGIONS = {
    "simplex": {},
    "bounds": dict(min_weights=[0.05, 0, 0.1, 0], max_weights=0.45),
    "short": dict(min_weights=-0.5, max_weights=0.9, max_short=0.4),
    "linear": dict(linear_constraints=["A0 + A1 >= 0.5 * A2 + 0.2", "A3 <= 0.4", "A2 == 0.5 * A1 + 0.06"]),
    "costs": dict(transaction_costs=[0.002, 0.001, 0, 0.003], management_fees=[0.0002, 0.0001, 0.0003, 0], previous_weights=[0.4, 0.3, 0.2, 0.1]),
    "min_return": dict(min_return="@"),
    "loose-budget": dict(budget=None, min_budget=0.6, max_budget=1.2),
}


def data(seed):
    X = returns(seed, N, K)
    return X + 0.004 * np.array([1.0, 0.6, 0.9, 0.3])


def restatements(rm, o, region):
    yield "percent"
    yield "tenth"
    yield "objective x50"
    yield "constraints x20"
    yield "both /5"
    yield "constraints /10"
    if rm in LINEAR:
        yield "other solver"
    if rm not in DRAWDOWN:
        yield "rows reversed"
        yield "rows repeated"
    if region not in ("loose-budget",) and rm not in DRAWDOWN and (o in ("MINIMIZE_RISK", "MAXIMIZE_RATIO") or rm not in CASH):
        if not (rm in CASH and o == "MAXIMIZE_RATIO"):
            yield "sure return added"
    yield "redundant inequality"
    yield "redundant strings"
    yield "redundant limits"
    if region in ("simplex",) and o != "MAXIMIZE_RATIO":
        yield "budget"


def cases(tier):
    for seed in (4,) if tier == "quick" else (4, 7, 9):
        for rm, o, region in itertools.product(vm.RISKS, OBJ, REGIONS):
            yield ["restate", seed, rm, o, region]
        for model in MODELS:
            yield ["model", seed, model]
    for model in FAILING:
        yield ["failing", model]


def degree(rm):
    return 2 if rm in SQUARED else 1


def scaled(p, c, rm, o):
    """Settings of the same problem when the returns are multiplied by c."""
    q = dict(p)
    for k in ("transaction_costs", "management_fees", "min_return", "risk_free_rate", "min_acceptable_return"):
        if q.get(k) is not None:
            q[k] = c * np.asarray(q[k]) if not np.isscalar(q[k]) else c * q[k]
    if rm in SQUARED:
        q["risk_aversion"] = q["risk_aversion"] / c
    return q


def net(X, p, w):
    r = X @ w
    if p.get("transaction_costs") is not None:
        r = r - np.abs(w - np.asarray(p["previous_weights"])) @ np.asarray(p["transaction_costs"])
        r = r - w @ np.asarray(p["management_fees"])
    return r


def value(X, p, rm, o, w):
    """Objective to maximise."""
    r = net(X, p, w)
    ret = r.mean()
    base = r
    if rm == "evar" and p.get("transaction_costs") is not None:  # documented: costs left out
        base = net(X, {**p, "transaction_costs": np.zeros(K)}, w)
    risk = float(vm.measure(rm, base[:, None], beta=p.get(vm.BETA.get(rm)))[0])
    if o == "MINIMIZE_RISK":
        return -risk
    if o == "MAXIMIZE_RETURN":
        return ret
    if o == "MAXIMIZE_UTILITY":
        return ret - p["risk_aversion"] * risk
    return ret / max(np.sqrt(risk) if rm in SQUARED else risk, 1e-12)


def solve(model, X):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return model.fit(X)
        except cp.SolverError:
            if model.solver != "CLARABEL":
                raise
            return model.set_params(solver_params=dict(tol_gap_abs=1e-7, tol_gap_rel=1e-7)).fit(X)


def feasible(p, w, X):
    """Largest violation of the requested constraints."""
    bad = []
    if p.get("budget", 1.0) is not None:
        bad.append(abs(w.sum() - p.get("budget", 1.0)))
    else:
        bad += [p["min_budget"] - w.sum(), w.sum() - p["max_budget"]]
    bad.append(np.max(np.asarray(p.get("min_weights", 0.0)) - w))
    bad.append(np.max(w - np.asarray(p.get("max_weights", 1.0))))
    if "max_short" in p:
        bad.append(np.maximum(-w, 0).sum() - p["max_short"])
    if "linear_constraints" in p:
        bad += [0.5 * w[2] + 0.2 - w[0] - w[1], w[3] - 0.4, abs(w[2] - 0.5 * w[1] - 0.06)]
    if p.get("min_return") is not None:
        bad.append((p["min_return"] - net(X, p, w).mean()) / 0.02)
    return max(bad)


def do_restate(ctx, seed, rm, o, region):
    X = data(seed)
    p = dict(BETAS, risk_aversion=2.0, **REGIONS[region])
    if "min_return" in p:
        m = X.mean(axis=0)
        p["min_return"] = float(0.4 * m.min() + 0.6 * m.max())
    args = dict(risk_measure=RiskMeasure(rm), objective_function=getattr(OF, o))

    def fit(X, **kw):
        m = solve(op.MeanRisk(**args, **kw), frame(X))
        return m.weights_, m.problem_values_

    w0, said0 = fit(X, **p)
    v0 = value(X, p, rm, o, w0)
    corners = [value(X, p, rm, o, w) for w in np.vstack([np.eye(K), np.full((1, K), 1 / K)])]
    tol = 2e-3 * max(np.ptp(corners), abs(v0) * 0.05)
    for how in restatements(rm, o, region):
        ctx.state(seed, rm, o, region, how)
        ctx.step()
        Z, q, back = X, dict(p), 1.0
        match how:
            case "percent":
                Z, q = 100 * X, scaled(p, 100, rm, o)
            case "tenth":
                Z, q = 0.1 * X, scaled(p, 0.1, rm, o)
            case "objective x50":
                q["scale_objective"] = 50
            case "constraints x20":
                q["scale_constraints"] = 20
            case "constraints /10":
                q["scale_constraints"] = 0.1
            case "both /5":
                q["scale_objective"] = q["scale_constraints"] = 0.2
            case "other solver":
                q["solver"] = "SCIPY"
            case "rows reversed":
                Z = X[::-1]
            case "rows repeated":
                Z = np.repeat(X, 2, axis=0)
            case "sure return added":
                Z = X + 0.003
                if o == "MAXIMIZE_RATIO":
                    q["risk_free_rate"] = 0.003
                if "min_return" in q:
                    q["min_return"] += 0.003
            case "redundant inequality":
                q["left_inequality"] = np.vstack([np.ones(K), -np.eye(K)])
                q["right_inequality"] = np.array([2.5, *[1.5] * K])
            case "redundant strings":
                q["groups"] = {"A0": ["g", "u"], "A1": ["g", "u"], "A2": ["h", "u"], "A3": ["h", "u"]}
                q["linear_constraints"] = [*p.get("linear_constraints", []), "g <= 1.9", "A0 >= -1.5", "u <= 2", "h + 2 * A1 >= -3"]
            case "redundant limits":
                if region not in ("short",):
                    q["max_short"] = 0.7
                    q["max_long"] = 1.9
                    q["min_weights"] = p.get("min_weights", 0.0) if not np.isscalar(p.get("min_weights", 0.0)) else [p.get("min_weights", 0.0)] * K
                else:
                    q["max_long"] = 1.9
                q["max_standard_deviation"] = 5.0
                q["max_cvar"] = 5.0
                q["max_turnover"], q["previous_weights"] = 3.0, p.get("previous_weights", [0.25] * K)
            case "budget":
                q["budget"], q["max_weights"], back = 0.5, 0.5, 2.0
                if rm in SQUARED and o == "MAXIMIZE_UTILITY":
                    q["risk_aversion"] *= 2
        what = f"{rm} {o} {region} restated by {how}"
        w, said = fit(Z, **q)
        w = w * back
        ctx.expect(feasible(p, w, X) <= 2e-4, "infeasible", lambda: f"{what}: {w} breaks a constraint by {feasible(p, w, X)}")
        v = value(X, p, rm, o, w)
        ctx.expect(abs(v - v0) <= tol, "answer-changes", lambda: f"{what}: {w.tolist()} worth {v}, {w0.tolist()} worth {v0} without")
        scale_free = o == "MAXIMIZE_RATIO" and region == "loose-budget"  # any size of the portfolio is as good
        if not scale_free and how.startswith(("objective", "constraints", "both", "other", "rows rev", "redundant")):
            for k in ("objective", "expected_return", "risk"):
                # when only the return is maximised nothing presses the risk expression down to the risk
                if k in said0 and not (k == "risk" and o == "MAXIMIZE_RETURN"):
                    near = abs(said[k] - said0[k]) <= 5e-3 * max(abs(said0[k]), np.abs(X).max() if k != "risk" or rm not in SQUARED else 1e-4)
                    ctx.expect(k in said and near, "reported-value-changes", lambda: f"{what}: {k} is {said.get(k)} but {said0[k]} without")
        if rm in ("variance", "standard_deviation") and o in ("MINIMIZE_RISK", "MAXIMIZE_UTILITY"):
            ctx.expect(np.allclose(w, w0, atol=2e-2), "answer-changes", lambda: f"{what}: {w.tolist()} but {w0.tolist()} without")


# models with a unique answer: name -> (make(settings by restatement), accepted restatements)
MODELS = {
    "budgeting-variance": lambda **kw: op.RiskBudgeting(risk_measure=RiskMeasure.VARIANCE, risk_budget=[0.1, 0.2, 0.3, 0.4], **kw),
    "budgeting-deviation": lambda **kw: op.RiskBudgeting(risk_measure=RiskMeasure.STANDARD_DEVIATION, risk_budget=[0.1, 0.2, 0.3, 0.4], **kw),
    "budgeting-semi": lambda **kw: op.RiskBudgeting(risk_measure=RiskMeasure.SEMI_DEVIATION, **kw),
    "budgeting-mad": lambda **kw: op.RiskBudgeting(risk_measure=RiskMeasure.MEAN_ABSOLUTE_DEVIATION, **kw),
    "budgeting-cvar": lambda **kw: op.RiskBudgeting(risk_measure=RiskMeasure.CVAR, cvar_beta=0.8, **kw),
    "diversification": lambda **kw: op.MaximumDiversification(**kw),
    "diversification-bounds": lambda **kw: op.MaximumDiversification(max_weights=0.4, **kw),
    "robust-cvar": lambda **kw: op.DistributionallyRobustCVaR(cvar_beta=0.8, wasserstein_ball_radius=0.0002, **kw),
}


def do_model(ctx, seed, name):
    X = data(seed)
    make = MODELS[name]
    w0 = solve(make(), frame(X)).weights_
    ways = {
        "rows reversed": (X[::-1], {}),
        "objective x50": (X, dict(scale_objective=50)),
        "constraints x20": (X, dict(scale_constraints=20)),
        "constraints /10": (X, dict(scale_constraints=0.1)),
        "both /5": (X, dict(scale_objective=0.2, scale_constraints=0.2)),
        "redundant inequality": (X, dict(left_inequality=-np.eye(K), right_inequality=np.ones(K))),
        "redundant strings": (X, dict(linear_constraints=["A0 <= 1.5", "A1 + A2 >= -3"])),
    }
    if name != "robust-cvar":  # whose returns are above -1 by definition
        ways["percent"] = 100 * X, {}
        ways["half"] = 0.5 * X, {}
    if not name.endswith(("cvar", "mad", "semi")):
        ways["rows repeated"] = np.repeat(X, 2, axis=0), {}
        ways["sure return added"] = X + 0.003, {}
    if name in ("budgeting-mad", "budgeting-semi"):
        ways["sure return added"] = X + 0.003, {}
    for how, (Z, kw) in ways.items():
        ctx.state(seed, name, how)
        ctx.step()
        w = solve(make(**kw), frame(Z)).weights_
        ctx.expect(np.allclose(w, w0, atol=2e-2), "answer-changes", lambda: f"{name} restated by {how}: {w.tolist()} but {w0.tolist()}")


FAILING = {
    "return": lambda **kw: op.MeanRisk(min_return=5.0, **kw),
    "variance": lambda **kw: op.MeanRisk(max_variance=1e-12, **kw),
    "strings": lambda **kw: op.MeanRisk(linear_constraints=["A0 >= 0.8", "A1 >= 0.8"], **kw),
    "inequality": lambda **kw: op.MeanRisk(left_inequality=np.ones((1, K)), right_inequality=np.array([0.5]), **kw),
    "bounds": lambda **kw: op.MeanRisk(max_weights=0.2, **kw),
    "ratio": lambda **kw: op.MeanRisk(objective_function=OF.MAXIMIZE_RATIO, max_standard_deviation=1e-7, **kw),
    "unbounded": lambda **kw: op.MeanRisk(objective_function=OF.MAXIMIZE_RETURN, min_weights=None, max_weights=None, **kw),
    "turnover": lambda **kw: op.MeanRisk(previous_weights=[1, 0, 0, 0], max_turnover=0.1, max_weights=0.5, **kw),
    "tracking": lambda **kw: op.MeanRisk(max_tracking_error=1e-6, max_weights=0.3, **kw),
    "diversification": lambda **kw: op.MaximumDiversification(max_weights=0.2, **kw),
    "budgeting": lambda **kw: op.RiskBudgeting(linear_constraints=["A0 >= 0.8", "A1 >= 0.8"], **kw),
    "robust-cvar": lambda **kw: op.DistributionallyRobustCVaR(max_weights=0.2, **kw),
}


def do_failing(ctx, name):
    """What cannot be met is always reported, and never as an allocation."""
    X = frame(data(4))
    y = X[["A0"]] if name == "tracking" else None
    for first in (False, True):
        for scale in (None, 10):
            ctx.state(name, first, scale)
            model = FAILING[name](scale_constraints=scale)
            if first:  # a success before does not hide the failure
                good = op.MeanRisk()
                w = good.fit(X).weights_
                if isinstance(model, op.MeanRisk):
                    model = good.set_params(**model.get_params())
                ctx.expect(abs(w.sum() - 1) < 1e-6, "baseline", str(w))
            ctx.step()
            try:
                model.fit(X, y)
            except (cp.SolverError, ValueError):
                ctx.outcome("raised")
            else:
                ctx.fail("failure-hidden", f"{name}: {model.weights_} returned for an impossible request")
            ctx.step()
            model.set_params(raise_on_failure=False)
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter("always")
                try:
                    model.fit(X, y)
                except (cp.SolverError, ValueError):
                    ctx.outcome("raised although asked to warn")
                    continue
            ctx.expect(any("failed" in str(s.message) for s in seen), "failure-silent", f"{name}: no warning among {[str(s.message) for s in seen]}")
            ctx.expect(not np.any(np.isfinite(np.asarray(model.weights_, dtype=float))), "failure-as-weights", f"{name}: {model.weights_}")
            try:
                pred = model.predict(X)
            except ValueError:
                ctx.outcome("prediction refused")
            else:
                ctx.expect(not np.any(np.isfinite(np.asarray(pred, dtype=float))), "failure-as-portfolio", f"{name}: {np.asarray(pred)}")


def run_case(case, ctx):
    globals()["do_" + case[0]](ctx, *case[1:])
    ctx.trace()
