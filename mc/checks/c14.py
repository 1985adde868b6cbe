"""C14: optimised weights satisfy every requested constraint, or the request is refused."""

import functools
import itertools

import cvxpy as cp
import numpy as np
import pandas as pd
import sklearn as sk
from skfolio import RiskMeasure
from skfolio import optimization as op
from skfolio import uncertainty_set as us
from skfolio.optimization import ObjectiveFunction as OF

from mc import vecmeasures as vm
from mc.lib import lcg, names, returns, simplex_grid

PROPERTY = "C14"
BOUNDS = {
    "quick": "3 assets x 14 observations; all 4 objectives x 15 risk measures x every single constraint (budgets, bounds, "
    "long/short, linear, group, inequality, turnover, tracking error, minimum return, each of the 15 risk limits) at two "
    "binding levels, with and without costs; all pairs of 16 constraints for 2 risk measures; cardinality, group "
    "cardinality and thresholds alone and with every other constraint; minimum returns for uncertain expected returns; 25 infeasible requests x 4 objectives; other "
    "convex models with every weight constraint",
    "thorough": "as quick on 3 data sets, all pairs for 6 risk measures",
}
K, N = 3, 14
A = names(K)
OBJ = ["MINIMIZE_RISK", "MAXIMIZE_RETURN", "MAXIMIZE_UTILITY", "MAXIMIZE_RATIO"]
BETAS = dict(cvar_beta=0.8, evar_beta=0.7, cdar_beta=0.75, edar_beta=0.65)
COSTS = dict(transaction_costs=[0.004, 0.001, 0.002], previous_weights=[0.5, 0.2, 0.3], management_fees=[0.0004, 0.0002, 0.0009])
NOCOSTS = {}


@functools.lru_cache
def data(seed):
    """Returns whose first row is positive: drawdowns from the start and from the first value agree."""
    x = returns(seed, N, K, scale=0.08)
    x[0] = np.abs(x[0])
    x += 0.006 - x.mean(axis=0) * 0.3
    g = lcg(seed + 90)
    y = x @ [0.5, 0.1, 0.4] + 0.016 * np.array([next(g) - 0.5 for _ in range(N)])
    index = pd.date_range("2021-01-04", periods=N, freq="B")
    return pd.DataFrame(x, index=index, columns=A), pd.Series(y, index=index, name="bench")


G2 = [["g", "g", "h"], ["x", "y", "y"]]
GMAP = {a: [r[i] for r in G2] for i, a in enumerate(A)}
SHORT = dict(min_weights=-0.6)
# name -> parameters of the model; "@name" values are levels resolved against the data
WEIGHTS = {
    "budget-half": dict(budget=0.5),
    "budget-two": dict(budget=1.6, max_weights=0.7),
    "budget-range": dict(budget=None, min_budget=0.3, max_budget=0.8),
    "budget-min": dict(budget=None, min_budget=0.6, max_weights=0.5),
    "budget-max": dict(budget=None, max_budget=0.7, min_weights=0.05),
    "min": dict(min_weights=[0.1, 0.35, 0.25]),
    "max": dict(max_weights=[0.45, 0.3, 0.4]),
    "min-max": dict(min_weights={"A0": 0.2, "A2": 0.1}, max_weights={"A1": 0.25, "A2": 0.6}),
    "short": dict(min_weights=[-0.5, 0.0, -0.2], max_weights=[1.0, 0.8, 0.9]),
    "max-long": dict(SHORT, max_long=1.15),
    "max-short": dict(SHORT, max_short=0.1),
    "long-short": dict(SHORT, max_long=1.2, max_short=0.3, max_weights=[0.7, 0.6, 0.65]),
    "linear": dict(linear_constraints=["A0 <= 0.3 * A1 + 0.1", "A2 >= 0.25"]),
    "linear-eq": dict(linear_constraints=["A0 + A1 == 0.55", "A1 == 2 * A0"]),
    "linear-ge": dict(linear_constraints=["A0 >= 2 * A1", "0.4 >= A2", "A1 >= 0.05"]),
    "groups": dict(groups=G2, linear_constraints=["g <= 0.45", "x >= 0.5 * h"]),
    "groups-map": dict(groups=GMAP, linear_constraints=["y == 0.6", "h <= 0.35"]),
    "inequality": dict(left_inequality=[[1, -1, 0], [0, 1, 2]], right_inequality=[0.1, 0.9]),
    "turnover": dict(previous_weights=[0.6, 0.3, 0.1], max_turnover=0.08),
    "turnover-map": dict(previous_weights={"A1": 0.9, "A2": 0.1}, max_turnover=0.12),
    "turnover-short": dict(SHORT, previous_weights=[-0.4, 0.8, 0.6], max_turnover=0.1),
}
LEVELS = {f"max_{r}": r for r in vm.RISKS}
DATA = {"min_return": None, "max_tracking_error": None, **LEVELS}
MIP = {
    "card-1": dict(cardinality=1),
    "card-2": dict(cardinality=2),
    "card-2-max": dict(cardinality=2, max_weights=[0.55, 0.6, 0.7]),
    "card-short": dict(cardinality=2, min_weights=-0.5, max_weights=1.2),
    "group-card": dict(groups=G2, group_cardinalities={"g": 1}),
    "group-card-2": dict(groups=G2, group_cardinalities={"y": 1, "g": 1}),
    "group-card-short": dict(groups=G2, group_cardinalities={"g": 1}, min_weights=-0.3),
    "card-group": dict(groups=G2, cardinality=2, group_cardinalities={"y": 1}, max_weights=0.8),
    "thr-long": dict(threshold_long=0.35),
    "thr-long-vec": dict(threshold_long=[0.3, 0.2, 0.5], max_weights=0.9),
    "thr-long-map": dict(threshold_long={"A1": 0.45}),
    "thr-short": dict(threshold_long=0.25, threshold_short=-0.2, min_weights=-0.5),
    "thr-short-vec": dict(threshold_long=[0.2, 0.4, 0.1], threshold_short=[-0.3, -0.1, -0.4], min_weights=-0.5, max_weights=1.1),
    "card-thr": dict(cardinality=2, threshold_long=[0.3, 0.3, 0.35]),
    "card-thr-short": dict(cardinality=2, threshold_long=0.3, threshold_short=-0.25, min_weights=-0.6, max_weights=1.6),
    "group-thr": dict(groups=G2, group_cardinalities={"y": 1}, threshold_long=0.3),
    "group-thr-short": dict(groups=G2, group_cardinalities={"g": 1}, threshold_long=0.3, threshold_short=-0.25, min_weights=-0.4),
}
MIP_RM = ["variance", "standard_deviation", "mean_absolute_deviation", "cvar", "worst_realization", "cdar"]
PAIRED = [
    ("w", "budget-range"), ("w", "min"), ("w", "max"), ("w", "max-long"), ("w", "max-short"), ("w", "linear"), ("w", "groups"),
    ("w", "inequality"), ("w", "turnover"), ("d", "min_return", 0.6), ("d", "max_tracking_error", 0.5), ("d", "max_variance", 0.5),
    ("d", "max_semi_variance", 0.5), ("d", "max_cvar", 0.5), ("d", "max_max_drawdown", 0.5), ("d", "max_mean_absolute_deviation", 0.5),
]  # fmt: skip
INFEASIBLE = {
    "min-sum": dict(min_weights=[0.5, 0.4, 0.3]),
    "max-sum": dict(max_weights=[0.3, 0.3, 0.3]),
    "min-over-max": dict(min_weights=[0.3, 0.0, 0.0], max_weights=[0.2, 1, 1]),
    "budget-range": dict(budget=None, min_budget=0.8, max_budget=0.3),
    "budget-big": dict(budget=3.5),
    "max-long": dict(SHORT, max_long=0.8),
    "max-long-budget": dict(budget=1.3, max_long=1.2),
    "short": dict(SHORT, max_weights=0.25, max_short=0.2),
    "linear": dict(linear_constraints=["A0 >= 0.6", "A0 <= 0.5"]),
    "linear-budget": dict(linear_constraints=["A0 + A1 + A2 <= 0.9"]),
    "linear-eq": dict(linear_constraints=["A0 == 1.2"]),
    "groups": dict(groups=G2, linear_constraints=["g <= 0.4", "h <= 0.5"]),
    "inequality": dict(left_inequality=[[1, 1, 1]], right_inequality=[0.9]),
    "turnover-sum": dict(previous_weights=[0.2, 0.2, 0.2], max_turnover=0.1),
    "turnover-bound": dict(previous_weights=[0.9, 0.1, 0.0], max_turnover=0.1, max_weights=0.6),
    "min_return": dict(min_return=0.5),
    "return-risk": dict(min_return="@0.01", max_variance="@0.05"),
    "max_tracking_error": dict(max_tracking_error="@-0.5"),
    "max_variance": dict(max_variance="@-0.5"),
    "max_semi_variance": dict(max_semi_variance="@-0.5"),
    "max_standard_deviation": dict(max_standard_deviation="@-0.5"),
    "max_cvar": dict(max_cvar="@-0.5"),
    "max_evar": dict(max_evar="@-0.5"),
    "max_mean_absolute_deviation": dict(max_mean_absolute_deviation="@-0.5"),
    "max_gini_mean_difference": dict(max_gini_mean_difference="@-0.5"),
}
MIP_INFEASIBLE = {
    "card": dict(cardinality=2, max_weights=0.45),
    "card-min": dict(cardinality=1, min_weights=[0.1, 0.1, 0.0]),
    "group": dict(groups=G2, group_cardinalities={"g": 1, "h": 1}, max_weights=0.4),
    "thr": dict(threshold_long=0.6, max_weights=0.8),
    "thr-max": dict(threshold_long=0.5, max_weights=0.45),
    "card-thr": dict(cardinality=2, threshold_long=0.55, max_weights=0.9),
}
OTHERS = {
    "maxdiv": (op.MaximumDiversification, {}),
    "robust-cvar": (op.DistributionallyRobustCVaR, dict(cvar_beta=0.8, wasserstein_ball_radius=0.01)),
    "risk-budget": (op.RiskBudgeting, {}),
    "risk-budget-cvar": (op.RiskBudgeting, dict(risk_measure=RiskMeasure.CVAR, cvar_beta=0.8)),
}


def cases(tier):
    seeds = (5,) if tier == "quick" else (5, 6, 8)
    for seed in seeds:
        for rm in vm.RISKS:
            for o in OBJ:
                for w in WEIGHTS:
                    yield ["one", seed, rm, o, 0, "w", w]
                for c in (0, 1):
                    for d in DATA:
                        for t in (0.25, 0.75):
                            yield ["one", seed, rm, o, c, "d", d, t]
        for rm in ("variance", "cvar") if tier == "quick" else ("variance", "cvar", "semi_deviation", "max_drawdown", "ulcer_index", "evar"):
            for o in OBJ:
                for i, j in itertools.combinations(range(len(PAIRED)), 2):
                    yield ["pair", seed, rm, o, i, j]
        for rm in MIP_RM:
            for o in OBJ:
                for m in MIP:
                    yield ["mip", seed, rm, o, m, None]
        for rm in ("variance", "cvar"):
            for o in OBJ:
                for m in MIP:
                    for i in range(len(PAIRED)):
                        if tier == "thorough" or (rm == "cvar" and o in ("MAXIMIZE_RATIO", "MAXIMIZE_RETURN")):
                            yield ["mip", seed, rm, o, m, i]
        for rm in ("variance", "cvar", "semi_deviation", "average_drawdown"):
            for o in OBJ:
                for i in INFEASIBLE:
                    yield ["infeasible", seed, rm, o, i]
        for o in OBJ:
            for i in MIP_INFEASIBLE:
                yield ["infeasible", seed, "cvar", o, i]
        for o in OTHERS:
            for w in WEIGHTS:
                yield ["other", seed, o, w]
        for rm in ("variance", "cvar", "max_drawdown"):
            for o in OBJ:
                for c in (0, 1):
                    for conf in (0.3, 0.7):
                        for t in (0.2, 0.6, 1.2):
                            yield ["robust", seed, rm, o, c, conf, t]


@functools.lru_cache
def grid(kind):
    if kind == "long":
        return np.array(list(simplex_grid(K, 40))).T
    m = np.arange(-12, 25) / 20
    if kind == "short":
        return np.array([[a, b, 1 - a - b] for a in m for b in m]).T
    return np.array([[a / 20, b / 20, c / 20] for a in range(21) for b in range(21) for c in range(21) if a + b + c <= 34]).T


def vec(v, default=0.0):
    """One value per asset of a setting in any form."""
    if v is None:
        return np.full(K, default)
    if isinstance(v, dict):
        return np.array([v.get(a, default) for a in A], dtype=float)
    return np.broadcast_to(np.asarray(v, dtype=float), (K,))


def net_returns(p, seed, W):
    x = data(seed)[0].to_numpy()
    cost = vec(p.get("transaction_costs")) @ np.abs(W - vec(p.get("previous_weights"))[:, None]) if p.get("transaction_costs") is not None else 0.0
    fee = vec(p.get("management_fees")) @ W
    return x @ W - cost - fee


def level(p, seed, name, W):
    """Quantity limited by the named setting, for each column of W."""
    if name == "max_tracking_error":
        x, y = data(seed)
        return np.sqrt(((x.to_numpy() @ W - y.to_numpy()[:, None]) ** 2).sum(axis=0) / (N - 1))
    r = net_returns(p, seed, W)
    if name == "min_return":
        return r.mean(axis=0)
    m = LEVELS[name]
    return vm.measure(m, r, beta=BETAS.get(vm.BETA.get(m)))


def side(text, groups):
    """Coefficients of one side of the simple relations used here."""
    a, const = np.zeros(K), 0.0
    for term in text.split("+"):
        parts = [q.strip() for q in term.split("*")]
        c, who = 1.0, None
        for q in parts:
            try:
                c *= float(q)
            except ValueError:
                who = q
        if who is None:
            const += c
        else:
            a += c * np.array([float(who == A[i] or any(g[i] == who for g in groups)) for i in range(K)])
    return a, const


def violation(p, seed, W):
    """{constraint: how much each column of W breaks it (negative: slack)}."""
    out = {}
    lo, hi = p.get("min_weights", 0.0), p.get("max_weights", 1.0)
    out["min_weights"] = (vec(lo, 0.0)[:, None] - W).max(axis=0)
    out["max_weights"] = (W - vec(hi, 1.0)[:, None]).max(axis=0)
    s = W.sum(axis=0)
    if p.get("budget", 1.0) is not None:
        out["budget"] = np.abs(s - p.get("budget", 1.0))
    if p.get("min_budget") is not None:
        out["min_budget"] = p["min_budget"] - s
    if p.get("max_budget") is not None:
        out["max_budget"] = s - p["max_budget"]
    if "max_long" in p:
        out["max_long"] = np.maximum(W, 0).sum(axis=0) - p["max_long"]
    if "max_short" in p:
        out["max_short"] = np.maximum(-W, 0).sum(axis=0) - p["max_short"]
    groups = p.get("groups", [])
    if isinstance(groups, dict):
        groups = [list(r) for r in zip(*[groups[a] for a in A], strict=True)]
    for i, e in enumerate(p.get("linear_constraints", [])):
        o = next(q for q in ("<=", ">=", "==") if q in e)
        (a, ca), (b, cb) = (side(t, groups) for t in e.split(o))
        d = (a - b) @ W + ca - cb
        out[f"linear-{i}"] = d if o == "<=" else -d if o == ">=" else np.abs(d)
    if "left_inequality" in p:
        out["inequality"] = (np.array(p["left_inequality"], float) @ W - np.array(p["right_inequality"])[:, None]).max(axis=0)
    if "max_turnover" in p:
        out["turnover"] = (np.abs(W - vec(p["previous_weights"])[:, None]) - p["max_turnover"]).max(axis=0)
    if "cardinality" in p:
        out["cardinality"] = (np.abs(W) > 1e-5).sum(axis=0) - p["cardinality"]
    for g, c in p.get("group_cardinalities", {}).items():
        member = np.array([any(r[i] == g for r in groups) for i in range(K)])
        out[f"group-cardinality-{g}"] = (np.abs(W[member]) > 1e-5).sum(axis=0) - c
    if "threshold_long" in p:
        t = vec(p["threshold_long"])[:, None]
        out["threshold_long"] = np.where(W > 1e-5, t - W, -1).max(axis=0)
    if "threshold_short" in p:
        t = vec(p["threshold_short"])[:, None]
        out["threshold_short"] = np.where(W < -1e-5, W - t, -1).max(axis=0)
    for d in DATA:
        if d in p:
            v = level(p, seed, d, W)
            out[d] = ((p[d] - v) if d == "min_return" else (v - p[d])) / max(abs(p[d]), 1e-6)
    return out


def worst(p, seed, W):
    return np.max(list(violation(p, seed, W).values()), axis=0)


def grids(p):
    kinds = ["long"]
    if np.any(vec(p.get("min_weights", 0.0)) < 0):
        kinds.append("short")
    if p.get("budget", 1.0) != 1.0:
        kinds = ["free"]
    return kinds


# equalities are rarely met by grid points: the slack asked of inequalities
def feasible(p, seed, slack=2e-3):
    """True when some grid point satisfies every request with some room to spare."""
    hard = {k: v for k, v in p.items() if k not in ("linear_constraints",)}
    for kind in grids(p):
        W = grid(kind)
        v = violation(p, seed, W)
        ok = np.ones(W.shape[1], bool)
        for name, q in v.items():
            if name == "budget":
                ok &= q <= 1e-9
            elif name.startswith(("linear", "min_w", "max_w", "cardinality", "group-card", "threshold", "budget")):
                ok &= q <= 1e-9
            else:
                ok &= q <= -slack
        if ok.any():
            return True
    return not hard


@functools.lru_cache(maxsize=None)
def base_solution(seed, rm, o, c):
    return solve(seed, rm, o, dict(COSTS if c else NOCOSTS)).weights_


def solve(seed, rm, o, p, **kw):
    x, y = data(seed)
    settings = dict(objective_function=getattr(OF, o), risk_measure=RiskMeasure(rm), risk_aversion=3.0, **BETAS, **p, **kw)
    y = y if "max_tracking_error" in p else None
    try:
        return op.MeanRisk(**settings).fit(x, y)
    except cp.SolverError:
        if "solver" in settings:
            raise
        # the default accuracy may be out of the solver's reach
        return op.MeanRisk(**settings, solver_params=dict(tol_gap_abs=1e-7, tol_gap_rel=1e-7)).fit(x, y)


def resolve(seed, rm, o, p, name, t):
    """The limit a fraction t of the way from the tightest possible one to the unconstrained optimum's."""
    W = grid("long")
    v = level(p, seed, name, W)
    here = float(level(p, seed, name, base_solution(seed, rm, o, int("transaction_costs" in p))[:, None])[0])
    best = float(v.max() if name == "min_return" else v.min())
    if t < 0:
        return best * (1 + t)
    if abs(here - best) < 0.02 * abs(best):
        here = float(v.min() if name == "min_return" else v.max())
        t *= 0.3
    return best + t * (here - best)


def relaxed(rm, p, name):
    """EVaR is documented to leave transaction costs out."""
    return "transaction_costs" in p and name == "max_evar"


def judge(ctx, case, p, seed, rm, o, w, slack=None):
    x, _ = data(seed)
    ctx.expect(w.shape == (K,) and np.isfinite(w).all(), "invalid-weights", lambda: str(w))
    W = w[:, None]
    for name, v in violation(p, seed, W).items():
        if relaxed(rm, p, name):
            continue
        tol = 2e-3 if name in DATA else 2e-5 if name in ("cardinality",) or name.startswith("group-card") else 2e-4
        ctx.step()
        ctx.expect(
            v[0] <= tol,
            f"{name}-violated",
            lambda: f"{case}: weights {w.tolist()} break {name} by {v[0]:.3g} with {p}",
        )


def run_case(case, ctx):
    kind, seed = case[0], case[1]
    ctx.state(*case)
    if kind == "other":
        return run_other(case, ctx)
    if kind == "robust":
        return run_robust(case, ctx)
    _, _, rm, o = case[:4]
    c = 0
    kw = {}
    if kind == "one":
        c = case[4]
        p = dict(COSTS if c else NOCOSTS)
        if case[5] == "w":
            p.update(WEIGHTS[case[6]])
        else:
            p[case[6]] = resolve(seed, rm, o, p, case[6], case[7])
    elif kind == "pair":
        p = {}
        for i in case[4:]:
            add(p, seed, rm, o, PAIRED[i])
    elif kind == "mip":
        p = dict(MIP[case[4]])
        kw["solver"] = "SCIP"
        if case[5] is not None:
            q = PAIRED[case[5]]
            clash = q[0] == "w" and set(WEIGHTS[q[1]]) & set(p) - {"groups", "linear_constraints"}
            if clash or q[1] == "min" or (q[1] in ("max-long", "max-short") and "threshold_long" in p and "threshold_short" not in p):
                ctx.outcome("mip-skip")
                return
            add(p, seed, rm, o, q)
    else:
        p = dict(INFEASIBLE.get(case[4]) or {})
        if not p:
            p = dict(MIP_INFEASIBLE[case[4]])
            kw["solver"] = "SCIP"
        for k, v in p.items():
            if isinstance(v, str):
                p[k] = resolve(seed, rm, o, {}, k, float(v[1:]))
    try:
        w = solve(seed, rm, o, p, **kw).weights_
    except Exception as e:
        ctx.step()
        ctx.trace()
        if kind == "infeasible":
            ctx.outcome("infeasible-refused")
            return
        ctx.outcome(f"{kind}-refused")
        ctx.expect(
            not feasible(p, seed), f"feasible-refused-{type(e).__name__}", lambda: f"{case}: {p} is feasible: {str(e)[:300]}"
        )
        return
    ctx.trace()
    ctx.outcome(f"{kind}-solved")
    ctx.expect(kind != "infeasible", "infeasible-accepted", lambda: f"{case}: {p} cannot be met but gave {w.tolist()}")
    judge(ctx, case, p, seed, rm, o, w)


def add(p, seed, rm, o, q):
    if q[0] == "w":
        extra = WEIGHTS[q[1]]
        for k, v in extra.items():
            if k == "linear_constraints":
                v = p.get(k, []) + v
                if isinstance(p.get("groups"), list):  # asset names are known only to mappings
                    p["groups"] = GMAP
            if k == "groups" and "linear_constraints" in p:
                v = GMAP
            if k == "min_weights" and k in p:
                v = np.maximum(vec(p[k]), vec(v)).tolist() if np.all(vec(v) >= 0) and np.all(vec(p[k]) >= 0) else vec(v).tolist()
            p[k] = v
    else:
        p[q[1]] = resolve(seed, rm, o, {}, q[1], q[2])


def run_other(case, ctx):
    _, seed, o, wname = case
    cls, base = OTHERS[o]
    p = dict(WEIGHTS[wname])
    x, y = data(seed)
    if not set(p) <= set(cls().get_params()):
        ctx.outcome("other-no-such-setting")
        return
    negative = np.any(vec(p.get("min_weights", 0.0)) < 0)
    try:
        w = cls(**base, **p).fit(x).weights_
    except Exception as e:
        ctx.outcome("other-refused")
        ctx.expect(
            negative or not feasible(p, seed),
            f"feasible-refused-{type(e).__name__}",
            lambda: f"{case}: {p} is feasible: {str(e)[:300]}",
        )
        return
    ctx.trace()
    ctx.outcome("other-solved")
    judge(ctx, case, p, seed, None, None, w)


def run_robust(case, ctx):
    """The minimum return holds for the worst expected returns of the uncertainty set."""
    _, seed, rm, o, c, conf, t = case
    x, _ = data(seed)
    p = dict(COSTS if c else NOCOSTS)
    e = us.EmpiricalMuUncertaintySet(confidence_level=conf)
    s = sk.clone(e).fit(x).uncertainty_set_
    root = np.linalg.cholesky(np.asarray(s.sigma) + 1e-18 * np.eye(K))

    def worst_return(W):
        return net_returns(p, seed, W).mean(axis=0) - s.k * np.sqrt(((root.T @ W) ** 2).sum(axis=0))

    v = worst_return(grid("long"))
    lo, hi = float(v.min()), float(v.max())
    p["min_return"] = lo + t * (hi - lo)
    ratio = o == "MAXIMIZE_RATIO"
    if ratio and hi <= 1e-4:
        ctx.outcome("no-positive-worst-case")
        return
    try:
        w = solve(seed, rm, o, p, mu_uncertainty_set_estimator=e).weights_
    except Exception as err:
        ctx.outcome("robust-refused")
        ctx.step()
        ctx.expect(t > 1, "feasible-refused-robust", lambda: f"{case}: worst-case return {p['min_return']} is feasible: {str(err)[:300]}")
        return
    ctx.outcome("robust-solved")
    ctx.expect(t < 1, "infeasible-accepted", lambda: f"{case}: worst-case return {p['min_return']} above {hi}")
    got = float(worst_return(w[:, None])[0])
    ctx.step()
    ctx.trace()
    ctx.expect(
        got >= p["min_return"] - 2e-3 * (hi - lo),
        "robust-min_return-violated",
        lambda: f"{case}: worst-case return {got} of {w.tolist()} below {p['min_return']}",
    )
