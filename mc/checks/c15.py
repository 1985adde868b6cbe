"""C15: no feasible portfolio beats the optimised one, and the reported values are its own."""

import functools
import itertools

import cvxpy as cp
import numpy as np
from skfolio import RiskMeasure
from skfolio import optimization as op
from skfolio import uncertainty_set as us
from skfolio.optimization import ObjectiveFunction as OF
from skfolio.prior import EmpiricalPrior

from mc import vecmeasures as vm
from mc.checks import c14
from mc.checks.c14 import BETAS, COSTS, K, N, OBJ, SHORT, WEIGHTS, data, grid, level, net_returns, resolve, vec, violation

PROPERTY = "C15"
BOUNDS = {
    "quick": "3 assets x 14 observations; 4 objectives x 15 risk measures x 10 feasible regions x (no costs, costs and fees) "
    "x regularisation, risk aversion, risk-free rate, acceptable return, confidence levels one or two at a time; maximum "
    "diversification and robust CVaR over radii, aversions and regions; each solution against all grid portfolios and "
    "three step lengths towards each of them",
    "thorough": "as quick on 3 data sets, each setting over 5 regions",
}
TOL = 2e-5
REGIONS = {
    "simplex": {},
    "bounds": dict(min_weights=[0.05, 0.0, 0.1], max_weights=[0.6, 0.5, 0.7]),
    "short": SHORT,
    "long-short": WEIGHTS["long-short"],
    "linear": WEIGHTS["linear"],
    "turnover": dict(previous_weights=[0.6, 0.3, 0.1], max_turnover=0.15),
    "budget": dict(budget=0.8),
    "min_return": dict(min_return="@0.5"),
    "max_cvar": dict(max_cvar="@0.5"),
    "max_variance": dict(max_variance="@0.5"),
}
CHANGES = {
    "plain": {},
    "l1": dict(l1_coef=0.01),
    "l2": dict(l2_coef=0.02),
    "l1l2": dict(l1_coef=0.005, l2_coef=0.01),
    "averse": dict(risk_aversion=0.3),
    "rf": dict(risk_free_rate=0.003),
    "betas": dict(cvar_beta=0.9, evar_beta=0.85, cdar_beta=0.6, edar_beta=0.8),
    "mar": dict(min_acceptable_return=0.004),
    "mar0": dict(min_acceptable_return=0),
    "mar-neg": dict(min_acceptable_return=-0.003),
    "cost-number": dict(transaction_costs=0.003, previous_weights={"A0": 0.7}, management_fees=0.0005),
}
USES_MAR = {"mean_absolute_deviation", "first_lower_partial_moment", "semi_variance", "semi_deviation"}


def relevant(ch, rm, o):
    if ch in ("averse",):
        return o == "MAXIMIZE_UTILITY"
    if ch == "rf":
        return o == "MAXIMIZE_RATIO" or rm == "first_lower_partial_moment"
    if ch == "betas":
        return rm in vm.BETA
    if ch.startswith("mar"):
        return rm in USES_MAR and o != "MAXIMIZE_RETURN"
    if ch in ("l2", "l1l2"):
        return o != "MAXIMIZE_RATIO"
    if ch == "l1":
        return o != "MAXIMIZE_RATIO" or rm not in ("variance", "semi_variance")
    return True


def cases(tier):
    seeds = (5,) if tier == "quick" else (5, 6, 8)
    for seed in seeds:
        for rm, o in itertools.product(vm.RISKS, OBJ):
            for region in REGIONS:
                for costs in (0, 1):
                    if costs and region == "turnover":
                        continue
                    yield ["mr", seed, rm, o, region, costs, "plain"]
            for ch in CHANGES:
                if ch != "plain" and relevant(ch, rm, o):
                    for region in ("simplex", "short") if tier == "quick" else ("simplex", "short", "bounds", "linear", "long-short"):
                        yield ["mr", seed, rm, o, region, 0, ch]
        for region in ("simplex", "bounds", "linear", "turnover", "short", "budget"):
            yield ["maxdiv", seed, region]
            for eps in (0.0, 0.01, 0.05, 0.3):
                for rho in (0.5, 1.0, 4.0):
                    for beta in (0.6, 0.85):
                        yield ["robust", seed, region, eps, rho, beta]
        for o in OBJ:
            for region in ("simplex", "bounds", "short"):
                for costs in (0, 1):
                    for conf in (0.5, 0.95):
                        for rm in ("variance", "cvar", "standard_deviation"):
                            yield ["robust-mu", seed, rm, o, region, costs, conf]
        for o in ("MINIMIZE_RISK", "MAXIMIZE_UTILITY"):
            for region in ("simplex", "bounds"):
                yield ["robust-cov", seed, o, region]
        for o in OBJ:
            for rm in ("variance", "cvar"):
                for what in ("objective", "return"):
                    yield ["custom", seed, rm, o, what]
    for rm in ("max_drawdown", "average_drawdown", "cdar", "edar", "ulcer_index"):
        yield ["first-loss", 5, rm]


def settings(seed, rm, o, region, costs, change=None):
    p = dict(BETAS, risk_aversion=3.0)
    if costs:
        p.update(COSTS)
    p.update(CHANGES[change or "plain"])
    q = dict(REGIONS[region])
    for k, v in q.items():
        if isinstance(v, str):
            q[k] = resolve(seed, rm, o, COSTS if costs else {}, k, float(v[1:]))
    p.update(q)
    return p


def candidates(p, seed, w, tol=1e-9):
    """Feasible grid portfolios and points on the way from w to each of them."""
    kind = "long"
    if np.any(vec(p.get("min_weights", 0.0)) < 0):
        kind = "short"
    G = grid(kind)
    if p.get("budget", 1.0) != 1.0:
        G = G * p["budget"]
    G = np.hstack([G, np.eye(K) * p.get("budget", 1.0)])
    W = np.hstack([w[:, None] + t * (G - w[:, None]) for t in (1.0, 0.2, 0.03, 0.004)])
    ok = np.ones(W.shape[1], bool)
    for v in violation(p, seed, W).values():
        ok &= v <= tol
    return W[:, ok]


def risk_of(p, seed, rm, W):
    r = net_returns(p, seed, W)
    if rm == "evar" and p.get("transaction_costs") is not None:  # documented: costs left out
        r = net_returns({**p, "transaction_costs": None}, seed, W)
    if p.get("min_acceptable_return") is not None and rm in USES_MAR:
        return vm.measure(rm, r, mar=p["min_acceptable_return"])
    return vm.measure(rm, r, beta=p.get(vm.BETA.get(rm)))


def expected_of(p, seed, W, extra=0.0):
    return net_returns(p, seed, W).mean(axis=0) - extra


def regular(p, W):
    return p.get("l1_coef", 0.0) * np.abs(W).sum(axis=0) + p.get("l2_coef", 0.0) * (W**2).sum(axis=0)


def objective(p, seed, rm, o, W, penalty=0.0, custom=0.0):
    """Value to maximise."""
    ret = expected_of(p, seed, W, penalty)
    risk = risk_of(p, seed, rm, W)
    reg = regular(p, W)
    if o == "MINIMIZE_RISK":
        return -(risk + reg + custom)
    if o == "MAXIMIZE_RETURN":
        return ret - reg + custom
    if o == "MAXIMIZE_UTILITY":
        return ret - p["risk_aversion"] * risk - reg + custom
    if rm in ("variance", "semi_variance"):
        risk = np.sqrt(risk)
    excess = ret - p.get("risk_free_rate", 0.0)
    return excess / np.maximum(risk + reg, 1e-12)


def scale_of(o, values):
    return max(float(np.ptp(values)), 0.02 * float(np.abs(values).max()), 1e-9)


def fit(model, seed, y=None):
    x, _ = data(seed)
    try:
        return model.fit(x, y)
    except cp.SolverError:
        return model.set_params(solver_params=dict(tol_gap_abs=1e-7, tol_gap_rel=1e-7)).fit(x, y)


def best(ctx, case, f, W, w):
    """f is the objective to maximise; no column of W may beat w."""
    values = f(W)
    here = float(f(w[:, None])[0])
    scale = scale_of(None, values)
    i = int(np.argmax(values))
    ctx.step(W.shape[1])
    ctx.expect(
        values[i] <= here + 1e-3 * scale,
        "not-optimal",
        lambda: f"{case}: weights {w.tolist()} reach {here:.8g} but {W[:, i].tolist()} reaches {values[i]:.8g}",
    )
    return here


def reported(ctx, case, name, got, want, scale=None):
    ctx.step()
    ctx.expect(
        abs(got - want) <= 1e-3 * max(abs(want), scale or 0) + 2e-6,
        f"reported-{name}",
        lambda: f"{case}: reported {name} {float(got):.8g}, the portfolio's is {want:.8g}",
    )


def run_case(case, ctx):
    ctx.state(*case)
    ctx.trace()
    globals()["run_" + case[0].replace("-", "_")](case, ctx)


def run_mr(case, ctx):
    _, seed, rm, o, region, costs, change = case
    p = settings(seed, rm, o, region, costs, change)
    model = fit(op.MeanRisk(objective_function=getattr(OF, o), risk_measure=RiskMeasure(rm), **p), seed)
    w = model.weights_
    W = candidates(p, seed, w)
    ctx.outcome(f"{o}-{'many' if W.shape[1] > 50 else 'few'}")
    if W.shape[1]:
        best(ctx, case, lambda V: objective(p, seed, rm, o, V), W, w)
    else:
        ctx.outcome("no-candidates")
    v = model.problem_values_
    one = w[:, None]
    reported(ctx, case, "expected_return", v["expected_return"], float(expected_of(p, seed, one)[0]), 1e-3)
    if o != "MAXIMIZE_RETURN":
        reported(ctx, case, "risk", v["risk"], float(risk_of(p, seed, rm, one)[0]))
    if o != "MAXIMIZE_RATIO":
        want = float(objective(p, seed, rm, o, one)[0])
        reported(ctx, case, "objective", v["objective"], -want if o == "MINIMIZE_RISK" else want, 1e-3)
    if o == "MAXIMIZE_RETURN" and f"max_{rm}" not in p:
        got, want = float(v["risk"]), float(risk_of(p, seed, rm, one)[0])
        ctx.expect(
            abs(got - want) <= 1e-3 * abs(want) + 2e-6,
            "loose-risk-maximize-return",
            lambda: f"{case}: reported risk {got:.6g}, the portfolio's is {want:.6g}",
        )


def run_maxdiv(case, ctx):
    _, seed, region = case
    p = dict(REGIONS[region])
    model = fit(op.MaximumDiversification(**p), seed)
    w = model.weights_
    x = data(seed)[0].to_numpy()
    cov = np.cov(x.T)

    def f(V):
        return np.sqrt(np.diag(cov)) @ V / np.sqrt(((cov @ V) * V).sum(axis=0))

    best(ctx, case, f, candidates(p, seed, w), w)


def robust_value(x, W, eps, rho, beta):
    """Worst-case mean-CVaR over the Wasserstein ball on returns above -1, for each column of W."""
    a = np.array([-1.0, -1 - rho / (1 - beta)])
    b = np.array([rho, rho * (1 - 1 / (1 - beta))])
    n = len(x)
    base = x @ W  # n, m

    def at(lam):
        pieces = []
        for k in range(2):
            gain = np.maximum(-a[k] * W - lam, 0)  # K, m
            pieces.append(a[k] * base + (1 + x) @ gain)
        # tau enters as b_k * tau: the minimum is where two pieces of one observation cross
        cross = (pieces[1] - pieces[0]) / (b[0] - b[1])
        vals = [
            lam * eps + np.maximum(pieces[0] + b[0] * cross[i], pieces[1] + b[1] * cross[i]).mean(axis=0) for i in range(n)
        ]
        return np.min(vals, axis=0)

    m = W.shape[1]
    # short positions have no bound on their loss: lambda must cover them
    lo = np.maximum((a[:, None, None] * W[None]).max(axis=(0, 1)), 0.0)
    hi = np.maximum((-a[1] * np.abs(W)).max(axis=0), lo) + 1e-9
    g = (np.sqrt(5) - 1) / 2
    start = lo.copy()
    end = hi.copy()
    p, q = hi - g * (hi - lo), lo + g * (hi - lo)
    fp, fq = at(p), at(q)
    for _ in range(45):
        left = fp <= fq
        hi, lo = np.where(left, q, hi), np.where(left, lo, p)
        p, q = hi - g * (hi - lo), lo + g * (hi - lo)
        fp, fq = at(p), at(q)
    assert fp.shape == (m,)
    return np.minimum.reduce([fp, fq, at(start), at(end)])


def run_robust(case, ctx):
    _, seed, region, eps, rho, beta = case
    p = dict(REGIONS[region])
    if not set(p) <= set(op.DistributionallyRobustCVaR().get_params()):
        p = {k: v for k, v in p.items() if k in op.DistributionallyRobustCVaR().get_params() and k != "previous_weights"}
    model = fit(op.DistributionallyRobustCVaR(wasserstein_ball_radius=eps, risk_aversion=rho, cvar_beta=beta, **p), seed)
    w = model.weights_
    x = data(seed)[0].to_numpy()
    W = candidates(p, seed, w)
    here = best(ctx, case, lambda V: -robust_value(x, V, eps, rho, beta), W, w)
    reported(ctx, case, "objective", model.problem_values_["objective"], -here, 1e-3)


@functools.lru_cache
def mu_set(seed, conf):
    e = us.EmpiricalMuUncertaintySet(prior_estimator=EmpiricalPrior(), confidence_level=conf)
    return e.fit(data(seed)[0]).uncertainty_set_


def run_robust_mu(case, ctx):
    _, seed, rm, o, region, costs, conf = case
    p = settings(seed, rm, o, region, costs)
    x, _ = data(seed)
    s = mu_set(seed, conf)
    L = np.linalg.cholesky(np.asarray(s.sigma) + 1e-18 * np.eye(K))

    def penalty(V):
        return s.k * np.sqrt(((L.T @ V) ** 2).sum(axis=0))

    model = op.MeanRisk(
        objective_function=getattr(OF, o),
        risk_measure=RiskMeasure(rm),
        mu_uncertainty_set_estimator=us.EmpiricalMuUncertaintySet(confidence_level=conf),
        **p,
    )
    G = grid("long")
    if o == "MAXIMIZE_RATIO" and (expected_of(p, seed, G) - penalty(G)).max() <= 1e-4:
        ctx.outcome("no-positive-worst-case")
        return
    model = fit(model, seed)
    w = model.weights_
    W = candidates(p, seed, w)
    best(ctx, case, lambda V: objective(p, seed, rm, o, V, penalty=penalty(V)), W, w)
    one = w[:, None]
    v = model.problem_values_
    reported(ctx, case, "expected_return", v["expected_return"], float((expected_of(p, seed, one) - penalty(one))[0]), 1e-3)
    reported(ctx, case, "mu_uncertainty_set", v["mu_uncertainty_set"], float(penalty(one)[0]), 1e-3)


def run_robust_cov(case, ctx):
    _, seed, o, region = case
    p = settings(seed, "variance", o, region, 0)
    x, _ = data(seed)
    cov = np.cov(x.to_numpy().T)
    model = op.MeanRisk(
        objective_function=getattr(OF, o),
        risk_measure=RiskMeasure.VARIANCE,
        covariance_uncertainty_set_estimator=us.EmpiricalCovarianceUncertaintySet(),
        **p,
    )
    model = fit(model, seed)
    s = model.covariance_uncertainty_set_estimator_.uncertainty_set_
    root = np.real(np.linalg.cholesky(np.asarray(s.sigma) + 1e-18 * np.eye(K * K)))

    def upper(V):
        return np.array([c @ cov @ c + s.k * np.linalg.norm(root.T @ np.outer(c, c).ravel()) for c in V.T])

    w = model.weights_
    got = model.problem_values_["risk"]
    low, high = float(w @ cov @ w), float(upper(w[:, None])[0])
    ctx.step()
    ctx.expect(low * (1 - 1e-3) <= got <= high * (1 + 1e-3), "reported-worst-case", lambda: f"{case}: {got} not in [{low}, {high}]")
    ctx.expect(got >= low * 1.0001, "no-worst-case", lambda: f"{case}: worst-case variance {got} equals the variance")
    if abs(got - high) <= 1e-3 * high:
        W = candidates(p, seed, w)[:, ::7]
        # `upper` bounds the worst case from above: only a clear improvement counts
        if o == "MINIMIZE_RISK":
            best(ctx, case, lambda V: -upper(V), W, w)
        else:
            best(ctx, case, lambda V: expected_of(p, seed, V) - p["risk_aversion"] * upper(V), W, w)


def run_custom(case, ctx):
    _, seed, rm, o, what = case
    p = settings(seed, rm, o, "simplex", 0)
    c = np.array([0.03, -0.01, 0.02])
    sign = 1.0 if o in ("MAXIMIZE_RETURN", "MAXIMIZE_UTILITY") else -1.0
    if what == "objective":
        if o == "MAXIMIZE_RATIO":
            ctx.outcome("ratio-custom-skip")
            ctx.step()
            return
        # documented: the expression is added to the objective
        model = fit(
            op.MeanRisk(objective_function=getattr(OF, o), risk_measure=RiskMeasure(rm), add_objective=lambda w: c @ w, **p), seed
        )
        w = model.weights_
        W = candidates(p, seed, w)

        def f(V):
            return objective(p, seed, rm, o, V) + sign * (c @ V)

        best(ctx, case, f, W, w)
        return
    model = fit(
        op.MeanRisk(
            objective_function=getattr(OF, o), risk_measure=RiskMeasure(rm), overwrite_expected_return=lambda w: (c + 0.03) @ w, **p
        ),
        seed,
    )
    w = model.weights_
    mu = data(seed)[0].to_numpy().mean(axis=0)
    W = candidates(p, seed, w)
    best(ctx, case, lambda V: objective(p, seed, rm, o, V, penalty=(mu - c - 0.03) @ V), W, w)
    reported(ctx, case, "expected_return", model.problem_values_["expected_return"], float((c + 0.03) @ w), 1e-3)


def run_first_loss(case, ctx):
    """Data whose first observation is a loss."""
    _, seed, rm = case
    x = data(seed)[0].copy()
    x.iloc[0] = [-0.05, -0.07, -0.06]
    model = op.MeanRisk(risk_measure=RiskMeasure(rm), **BETAS).fit(x)
    got = model.problem_values_["risk"]
    want = float(vm.measure(rm, x.to_numpy() @ model.weights_[:, None], beta=BETAS.get(vm.BETA.get(rm)))[0])
    ctx.step()
    ctx.expect(
        abs(got - want) <= 1e-3 * want + 1e-6,
        "drawdown-of-first-loss",
        lambda: f"{case}: optimised {rm} {got:.6g}, the portfolio's is {want:.6g}",
    )


_ = (c14, N, level)
