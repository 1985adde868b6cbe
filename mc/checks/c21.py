"""C21: priors combine moments exactly as their formulas say."""

import itertools
import warnings

import numpy as np
import pandas as pd
import sklearn.base as skb
from skfolio import moments as mo
from skfolio import prior as pr
from skfolio.exceptions import GroupNotFoundError
from sklearn.linear_model import LassoCV, LinearRegression, Ridge

from mc.lib import close, frame, lcg, names, returns

PROPERTY = "C21"
BOUNDS = {
    "quick": "3 and 4 assets: all single views, all pairs and all independent triples of 11 views (absolute, relative, weighted, groups) x "
    "confidences x 3 taus x 4 prior estimators x 2 risk-free rates x 3 ways of giving groups; factor models of 1..5 assets x 1..3 factors x "
    "5 regressions x 6 factor priors x residuals x repair; log-normal x 5 horizons; synthetic data x sizes x constant columns; nesting",
    "thorough": "as quick with more data sets and all quadruples of views",
}
K = 4
# coefficients of the assets on the left of each view, and how it is written
VIEWS = [
    ([1, 0, 0, 0], "A0"),
    ([0, 1, 0, 0], "A1"),
    ([0, 0, 0, 1], "A3"),
    ([1, -1, 0, 0], "A0 - A1"),
    ([0, 0, 1, -1], "A2 - A3"),
    ([-1, 0, 1, 0], "A2 - A0"),
    ([2, 0, -0.5, 0], "2*A0 - 0.5 * A2"),
    ([0, 1, 1, 0], "A1 + A2"),
    ([0.5, 0.5, 0, 0], "Eq"),
    ([0.5, -0.5, 0.5, -0.5], "US - EU"),
    ([1 / 3, 1 / 3, -1, 1 / 3], "Not2 - A2"),
]
GROUPS = {
    "A0": ["Eq", "US", "Not2"],
    "A1": ["Eq", "EU", "Not2"],
    "A2": ["Bd", "US", "Only2"],
    "A3": ["Bd", "EU", "Not2"],
}
VALUES = (0.0012, -0.0005, 0.0031, 0.0)


def cases(tier):
    seeds = range(1, 4) if tier == "quick" else range(1, 8)
    n = len(VIEWS)
    for seed in seeds:
        for size in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for combo in itertools.combinations(range(n), size):
                if np.linalg.matrix_rank(np.array([VIEWS[i][0] for i in combo])) == size:
                    yield ["views", seed, list(combo)]
        yield ["bad", seed]
        for k in range(1, 6):
            for f in range(1, 4):
                for reg in range(5):
                    yield ["factor", seed, k, f, reg]
        for k in range(1, 5):
            yield ["empirical", seed, k]
            yield ["synthetic", seed, k]
        yield ["nested", seed]
    yield ["lognormal-mean"]


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + case[0].replace("-", "_")](ctx, *case[1:])
    ctx.trace()
    ctx.outcome(case[0])


def expect_model(ctx, key, got, mu, cov, rets, note, rtol=1e-8):
    ctx.step()
    k = len(mu)
    sd = np.sqrt(np.diag(cov))
    ctx.expect(
        got.mu.shape == (k,) and np.max(np.abs(got.mu - mu)) < rtol * (np.max(sd) + np.max(np.abs(mu))),
        f"{key}-mu",
        lambda: f"{note}: expected returns {got.mu} instead of {mu}",
    )
    ctx.expect(
        got.covariance.shape == (k, k) and np.max(np.abs(got.covariance - cov) / np.outer(sd, sd)) < max(rtol, 1e-7),
        f"{key}-covariance",
        lambda: f"{note}: covariance {got.covariance} instead of {cov}",
    )
    ctx.expect(
        got.returns.shape == rets.shape and close(got.returns, rets, 1e-9, 1e-12),
        f"{key}-returns",
        lambda: f"{note}: returns {got.returns[:2]}... instead of {rets[:2]}...",
    )
    if got.cholesky is not None:
        c = got.cholesky @ got.cholesky.T
        ctx.expect(
            got.cholesky.shape[0] == k and np.max(np.abs(c - cov) / np.outer(sd, sd)) < 1e-6,
            f"{key}-root",
            lambda: f"{note}: the square root gives {c} instead of {cov}",
        )


def sample_cov(x, ddof=1):
    z = x - x.mean(axis=0)
    return z.T @ z / (len(x) - ddof)


def data(seed, n, k):
    return returns(41 * seed + k, n, k)


# --- Black-Litterman ----------------------------------------------------------


def posterior(p, q, pi, sigma, tau, omega):
    """Distribution of the returns given noisy observations of the views, taken one at a time."""
    mean, cov = pi.copy(), tau * sigma.copy()
    for row, value, noise in zip(p, q, omega, strict=True):
        if np.isinf(noise):
            continue
        s = row @ cov @ row + noise
        gain = cov @ row / s
        mean = mean + gain * (value - row @ mean)
        cov = cov - np.outer(gain, row @ cov)
    return mean, sigma + cov


def shrink_lw(x):
    return mo.LedoitWolf().fit(x).covariance_


def bl_priors(x):
    k = x.shape[1]
    c = sample_cov(x)
    w = np.array([0.1 * (i + 1) for i in range(k)])
    return [
        (None, c @ np.ones(k) / k, c),
        (pr.EmpiricalPrior(), x.mean(axis=0), c),
        (pr.EmpiricalPrior(covariance_estimator=mo.LedoitWolf()), x.mean(axis=0), shrink_lw(x)),
        (pr.EmpiricalPrior(mu_estimator=mo.EquilibriumMu(risk_aversion=3, weights=w)), 3 * c @ w, c),
    ]


def do_views(ctx, seed, combo):
    x = data(seed, 14, K)
    df = frame(x)
    size = len(combo)
    p = np.array([VIEWS[i][0] for i in combo], dtype=float)
    uses_groups = any(i >= 8 for i in combo)
    shift = sum(combo)
    q = np.array([VALUES[(j + shift) % len(VALUES)] for j in range(size)])
    text = [f"{VIEWS[i][1]} = {float(v)!r}" for i, v in zip(combo, q, strict=True)]
    levels = [None, [0.0] * size, [1.0] * size, [0.25 + 0.5 * j / max(1, size - 1) for j in range(size)]]
    if size > 1:
        levels += [[0.0] + [0.7] * (size - 1), [1.0] + [0.4] * (size - 1), [0.4] * (size - 1) + [1.0]]
    for t, conf in enumerate(levels):
        for a, (prior, pi, sigma) in enumerate(bl_priors(x)):
            for b, tau in enumerate((0.05, 1.0, 0.01)):
                if size == 3 and (t + a + b + shift) % 4:
                    continue
                if size == 2 and (t + a + b + shift) % 2:
                    continue
                rf = (0, 0.0004)[(t + a + b) % 2]
                groups = GROUPS if uses_groups or (a + b) % 2 else None
                ctx.state((seed, tuple(combo), t, a, b))
                kw = {} if tau == 0.05 else {"tau": tau}
                if conf is not None:
                    kw["view_confidences"] = conf if a % 2 else np.array(conf)
                if rf:
                    kw["risk_free_rate"] = rf
                views = text if b % 2 else np.array(text)
                m = pr.BlackLitterman(views=views, groups=groups, prior_estimator=prior, **kw).fit(df)
                base = tau * np.array([r @ sigma @ r for r in p])
                if conf is None:
                    omega = base
                else:
                    omega = np.array([np.inf if c == 0 else o * (1 / c - 1) for c, o in zip(conf, base, strict=True)])
                mu, cov = posterior(p, q, pi, sigma, tau, omega)
                note = f"BlackLitterman({text}, confidences={conf}, tau={tau}, prior={prior}, rf={rf})"
                expect_model(ctx, "bl", m.prior_model_, mu + rf, cov, x, note, rtol=1e-6)
                ctx.expect(
                    close(m.picking_matrix_, p, 1e-9, 1e-12) and close(m.views_, q, 1e-9, 1e-12),
                    "bl-views",
                    lambda: f"{note}: picking matrix {m.picking_matrix_} and views {m.views_} instead of {p} {q}",
                )
                if conf is not None:
                    sure = [j for j in range(size) if conf[j] == 1.0]
                    got = p @ (m.prior_model_.mu - rf)
                    ctx.expect(
                        all(abs(got[j] - q[j]) < 1e-9 for j in sure), "bl-certain", lambda: f"{note}: certain views give {got} instead of {q}"
                    )
                    if not any(conf):
                        ctx.expect(
                            close(m.prior_model_.mu - rf, pi, 1e-7, 1e-10) and close(m.prior_model_.covariance, (1 + tau) * sigma, 1e-7, 1e-12),
                            "bl-ignored",
                            lambda: f"{note}: views without confidence changed {pi} into {m.prior_model_.mu - rf}",
                        )
    # asset names and groups given by position, on data without names
    if uses_groups or size == 1:
        rows = [names(K), *[list(r) for r in zip(*[GROUPS[a] for a in names(K)], strict=True)]]
        a, b = pr.BlackLitterman(views=text, groups=GROUPS).fit(df), pr.BlackLitterman(views=text, groups=rows).fit(x)
        ctx.step()
        ctx.expect(
            close(a.prior_model_.mu, b.prior_model_.mu) and close(a.prior_model_.covariance, b.prior_model_.covariance),
            "bl-groups-array",
            lambda: f"views {text}: {a.prior_model_.mu} with groups by name and {b.prior_model_.mu} by position",
        )
    # order of the views is irrelevant
    a = pr.BlackLitterman(views=text, groups=GROUPS).fit(df).prior_model_
    b = pr.BlackLitterman(views=text[::-1], groups=GROUPS).fit(df).prior_model_
    ctx.step()
    ctx.expect(close(a.mu, b.mu, 1e-7, 1e-12) and close(a.covariance, b.covariance, 1e-7, 1e-14), "bl-order", lambda: f"{text}: {a.mu} {b.mu}")


def do_bad(ctx, seed):
    x = data(seed, 14, K)
    df = frame(x)
    ctx.state(("bad", seed))
    for kw, xx in [
        ({"views": ["A0 = 0.01"], "view_confidences": [1.2]}, df),
        ({"views": ["A0 = 0.01"], "view_confidences": [-0.1]}, df),
        ({"views": ["A0 >= 0.01"]}, df),
        ({"views": ["A0 <= 0.01", "A1 = 0.2"]}, df),
        ({"views": ["Z = 0.01"]}, df),
        ({"views": ["A0 - Z = 0.01"], "groups": GROUPS}, df),
        ({"views": [["A0 = 0.01"]]}, df),
        ({"views": ["A0 = 0.01"]}, x),
        ({"views": ["A0 = 0.01", "A1 = 0.01"], "view_confidences": [0.1, 0.2, 0.3]}, df),
    ]:
        ctx.step()
        try:
            m = pr.BlackLitterman(**kw).fit(xx)
            ctx.expect(False, "bl-refused", f"BlackLitterman({kw}) accepted: {m.prior_model_.mu}")
        except (ValueError, GroupNotFoundError):
            ctx.outcome("refused")
    for kw in ({"is_log_normal": True}, {"investment_horizon": 12}):
        ctx.step()
        try:
            pr.EmpiricalPrior(**kw).fit(df)
            ctx.expect(False, "empirical-refused", f"EmpiricalPrior({kw}) accepted")
        except ValueError:
            ctx.outcome("refused")


# --- empirical ----------------------------------------------------------------


def do_empirical(ctx, seed, k):
    x = data(seed, 12, k)
    ctx.state((seed, k))
    w = np.linspace(0.2, 0.9, k)
    mus = [
        (None, lambda z: z.mean(axis=0)),
        (mo.EmpiricalMu(window_size=5), lambda z: z[-5:].mean(axis=0)),
        (mo.EquilibriumMu(weights=w, risk_aversion=2), lambda z: 2 * sample_cov(z) @ w),
        (mo.EWMu(alpha=0.3), lambda z: sum(0.7 ** (len(z) - 1 - t) * z[t] for t in range(len(z))) / sum(0.7**t for t in range(len(z)))),
    ]
    covs = [
        (None, sample_cov),
        (mo.EmpiricalCovariance(ddof=0), lambda z: sample_cov(z, 0)),
        (mo.EmpiricalCovariance(window_size=8), lambda z: sample_cov(z[-8:])),
        (mo.ShrunkCovariance(shrinkage=0.3), lambda z: 0.7 * sample_cov(z, 0) + 0.3 * np.trace(sample_cov(z, 0)) / k * np.eye(k)),
    ]
    for (m, fm), (c, fc) in itertools.product(mus, covs):
        for given in (x, frame(x)):
            p = pr.EmpiricalPrior(mu_estimator=m, covariance_estimator=c).fit(given)
            expect_model(ctx, "empirical", p.prior_model_, fm(x), fc(x), x, f"EmpiricalPrior({m}, {c})")
            ctx.expect(p.prior_model_.cholesky is None, "empirical-root", "an empirical prior reports a square root")
        for horizon in (1, 0.5, 12, 252, 30.5):
            given = frame(x) if horizon == 12 else x
            p = pr.EmpiricalPrior(mu_estimator=m, covariance_estimator=c, is_log_normal=True, investment_horizon=horizon).fit(given)
            z = np.log1p(x)
            # moments of the gross return over the horizon; see do_lognormal_mean
            lm, lc = horizon * fm(z), horizon * fc(z)
            gross = np.exp(lm + np.diag(lc) / 2)
            cov = np.array([[gross[a] * gross[b] * np.expm1(lc[a, b]) for b in range(k)] for a in range(k)])
            got = p.prior_model_
            ctx.step()
            note = f"EmpiricalPrior({m}, {c}, is_log_normal=True, investment_horizon={horizon})"
            ctx.expect(
                close(got.mu, gross, 1e-7, 0) or close(got.mu, gross - 1, 1e-7, 1e-10),
                "lognormal-mu",
                lambda: f"{note}: {got.mu} instead of {gross} (less one)",
            )
            ctx.expect(close(got.covariance, cov, 1e-6, 1e-12), "lognormal-covariance", lambda: f"{note}: {got.covariance} instead of {cov}")
            ctx.expect(close(got.returns, x), "lognormal-returns", lambda: f"{note}: returns changed")


def do_lognormal_mean(ctx):
    """The expected linear return over the horizon is the expected gross return less one."""
    x = data(1, 12, 3)
    ctx.state("lognormal-mean")
    p = pr.EmpiricalPrior(is_log_normal=True, investment_horizon=1).fit(x)
    z = np.log1p(x)
    want = np.exp(z.mean(axis=0) + np.diag(sample_cov(z)) / 2) - 1
    ctx.step()
    ctx.expect(close(p.prior_model_.mu, want, 1e-6, 1e-9), "lognormal-gross-mean", f"expected returns {p.prior_model_.mu} instead of {want}")


# --- factor models ------------------------------------------------------------


class FixedLoadings(pr.BaseLoadingMatrix):
    """Loadings decided by the test."""

    def __init__(self, loadings=None, constants=None):
        self.loadings = loadings
        self.constants = constants

    def fit(self, X, y):
        self.loading_matrix_ = np.array(self.loadings, dtype=float)
        self.intercepts_ = np.array(self.constants, dtype=float)
        return self


def regressions(k, f):
    g = lcg(k * 10 + f)
    b = [[round(2 * next(g) - 0.7, 3) for _ in range(f)] for _ in range(k)]
    a = [round(0.01 * next(g), 4) for _ in range(k)]
    return [
        (None, lambda: LassoCV(fit_intercept=False)),
        (pr.LoadingMatrixRegression(linear_regressor=LinearRegression()), LinearRegression),
        (pr.LoadingMatrixRegression(linear_regressor=LinearRegression(fit_intercept=False)), lambda: LinearRegression(fit_intercept=False)),
        (pr.LoadingMatrixRegression(linear_regressor=Ridge(alpha=1e-3), n_jobs=1), lambda: Ridge(alpha=1e-3)),
        (FixedLoadings(b, a), (np.array(b), np.array(a))),
    ]


class Resampled(skb.BaseEstimator):
    """Distribution whose sample the test knows."""

    def __init__(self, constant=(), shift=0.0):
        self.constant = constant
        self.shift = shift

    def fit(self, X, y=None):
        self.n_ = np.asarray(X).shape[1]
        return self

    def sample(self, n_samples=5, offset=0.0):
        s = returns(77 + n_samples, n_samples, self.n_) + self.shift + offset
        for j in self.constant:
            if j < self.n_:
                s[:, j] = 0.01 * (j + 1)
        return s


def factor_priors(z):
    f = z.shape[1]
    c = sample_cov(z)
    mean = z.mean(axis=0)
    view = f"A0 = {0.004}"
    w = np.ones(f) / f
    p = np.zeros((1, f))
    p[0, 0] = 1
    bl_mu, bl_cov = posterior(p, [0.004], c @ w, c, 0.05, [0.05 * c[0, 0]])
    s = returns(77 + 9, 9, f)
    return [
        (None, mean, c, z),
        (pr.EmpiricalPrior(mu_estimator=mo.EquilibriumMu(risk_aversion=2)), 2 * c @ w, c, z),
        (pr.EmpiricalPrior(covariance_estimator=mo.LedoitWolf()), mean, shrink_lw(z), z),
        (pr.EmpiricalPrior(covariance_estimator=mo.EmpiricalCovariance(ddof=0, window_size=7)), mean, sample_cov(z[-7:], 0), z),
        (pr.BlackLitterman(views=[view]), bl_mu, bl_cov, z),
        (pr.SyntheticData(distribution_estimator=Resampled(), n_samples=9), s.mean(axis=0), sample_cov(s), s),
    ]


def factor_data(seed, k, f, n=14):
    z = returns(900 + seed * 10 + f, n, f)
    g = lcg(5 + seed + k)
    load = np.array([[1.6 * next(g) - 0.3 for _ in range(f)] for _ in range(k)])
    return z @ load.T + 0.3 * data(seed, n, k) + 0.001, z


def do_factor(ctx, seed, k, f, reg):
    x, z = factor_data(seed, k, f)
    estimator, spec = regressions(k, f)[reg]
    if isinstance(spec, tuple):
        b, a = spec
    else:
        fits = [spec().fit(z, x[:, j]) for j in range(k)]
        b = np.array([m.coef_ for m in fits])
        a = np.array([float(m.intercept_) for m in fits])
    err = x - z @ b.T - a
    err = err - err.mean(axis=0)
    extra = np.diag(np.sum(err**2, axis=0) / (len(x) - 1))
    for i, (prior, mu, cov, rets) in enumerate(factor_priors(z)):
        for residual in (True, False):
            for higham in (False, True):
                if higham and (i + k + f) % 3:
                    continue
                ctx.state((seed, k, f, reg, i, residual, higham))
                want = b @ cov @ b.T + (extra if residual else 0)
                if np.any(np.diag(want) < 1e-12):
                    ctx.outcome("asset without factor variance")
                    continue
                kw = {} if residual else {"residual_variance": False}
                if higham:
                    kw["higham"] = True
                try:
                    m = pr.FactorModel(loading_matrix_estimator=estimator, factor_prior_estimator=prior, **kw).fit(frame(x), frame(z))
                except ValueError as e:
                    sd = np.sqrt(np.diag(want))
                    low = np.linalg.eigvalsh(want / np.outer(sd, sd))[0]
                    ctx.expect(higham and low < 1e-9 and "Unable" in str(e), "factor-refused", lambda: f"FactorModel({prior}, {kw}): {e}")
                    continue
                note = f"FactorModel(regression {reg}, {prior}, {kw}) of {k} assets and {f} factors"
                expect_model(ctx, "factor", m.prior_model_, b @ mu + a, want, rets @ b.T + a, note, rtol=1e-6)
                ctx.expect(m.prior_model_.cholesky is not None, "factor-root", lambda: f"{note}: no square root")
                ctx.expect(
                    close(m.loading_matrix_estimator_.loading_matrix_, b, 1e-8, 1e-12) and close(m.loading_matrix_estimator_.intercepts_, a, 1e-8, 1e-12),
                    "factor-loadings",
                    lambda: f"{note}: loadings {m.loading_matrix_estimator_.loading_matrix_} instead of {b}",
                )
    # data without names, and assets and factors in another order
    m1 = pr.FactorModel(loading_matrix_estimator=estimator).fit(x, z).prior_model_
    m2 = pr.FactorModel(loading_matrix_estimator=estimator).fit(frame(x), frame(z)).prior_model_
    ctx.step(2)
    ctx.expect(close(m1.mu, m2.mu) and close(m1.covariance, m2.covariance), "factor-names", f"{m1.mu} without names and {m2.mu} with")
    if reg == 1:
        m3 = pr.FactorModel(loading_matrix_estimator=estimator).fit(x[:, ::-1], z[:, ::-1]).prior_model_
        ctx.expect(close(m1.mu[::-1], m3.mu, 1e-7, 1e-10), "factor-order", f"{m1.mu} and, in reverse order, {m3.mu}")
    # loadings of the wrong shape are refused
    for bad_b, bad_a in [(b.T if k != f else b[:, :0], a), (b, np.ones(k + 1))]:
        ctx.step()
        try:
            pr.FactorModel(loading_matrix_estimator=FixedLoadings(bad_b.tolist(), list(bad_a))).fit(x, z)
            ctx.expect(False, "factor-shape", f"loadings of shape {np.shape(bad_b)} and {np.shape(bad_a)} constants accepted")
        except ValueError:
            ctx.outcome("refused")


# --- synthetic ----------------------------------------------------------------


class NoSample(skb.BaseEstimator):
    def fit(self, X, y=None):
        return self


class NoSize(NoSample):
    def sample(self, n=3):
        return np.ones((n, 2))


def do_synthetic(ctx, seed, k):
    x = data(seed, 12, k)
    for n in (6, 7, 20):
        for args in (None, {}, {"offset": 0.003 * seed}):
            for constant in [(), (0,), (k - 1,), (0, k - 1)]:
                ctx.state((seed, k, n, str(args), constant))
                m = pr.SyntheticData(distribution_estimator=Resampled(constant), n_samples=n, sample_args=args).fit(frame(x))
                got = m.prior_model_
                s = Resampled(constant).fit(x).sample(n, **(args or {}))
                note = f"SyntheticData({n} samples, {args}, constant columns {constant})"
                ctx.step()
                if constant:
                    ctx.expect(
                        got.returns.shape == s.shape and np.max(np.abs(got.returns - s)) < 2e-5,
                        "synthetic-noise",
                        lambda: f"{note}: returns {got.returns} instead of {s}",
                    )
                    free = [j for j in range(k) if j not in constant]
                    ctx.expect(close(got.returns[:, free], s[:, free]), "synthetic-others", lambda: f"{note}: other assets changed")
                    ctx.expect(bool(np.all(np.diag(got.covariance) > 0)), "synthetic-variance", lambda: f"{note}: {got.covariance}")
                    s = got.returns
                    if k > 1 and len(set(constant)) > 1:
                        # both columns receive noise and the covariance may need repair
                        ctx.expect(close(got.mu, s.mean(axis=0), 1e-8, 1e-12), "synthetic-mu", lambda: f"{note}: {got.mu}")
                        continue
                expect_model(ctx, "synthetic", got, s.mean(axis=0), sample_cov(s), s, note, rtol=1e-6)
    for bad in (NoSample(), NoSize()):
        ctx.step()
        try:
            pr.SyntheticData(distribution_estimator=bad).fit(frame(x))
            ctx.expect(False, "synthetic-refused", f"SyntheticData accepted {bad}")
        except ValueError:
            ctx.outcome("refused")


def do_nested(ctx, seed):
    x, z = factor_data(seed, 4, 2)
    fx, fz = frame(x), frame(z)
    ctx.state(("nested", seed))
    # views on assets on top of a factor model
    fits = [LassoCV(fit_intercept=False).fit(z, x[:, j]) for j in range(4)]
    b = np.array([m.coef_ for m in fits])
    err = x - z @ b.T
    err = err - err.mean(axis=0)
    sigma = b @ sample_cov(z) @ b.T + np.diag(np.sum(err**2, axis=0) / (len(x) - 1))
    pi = b @ z.mean(axis=0)
    for i, j in itertools.combinations(range(len(VIEWS)), 2):
        p = np.array([VIEWS[i][0], VIEWS[j][0]], dtype=float)
        q = np.array([0.002, -0.001])
        text = [f"{VIEWS[i][1]} = 0.002", f"{VIEWS[j][1]} = -0.001"]
        for conf in (None, [0.3, 0.9]):
            base = 0.05 * np.array([r @ sigma @ r for r in p])
            omega = base if conf is None else base * (1 / np.array(conf) - 1)
            mu, cov = posterior(p, q, pi, sigma, 0.05, omega)
            m = pr.BlackLitterman(views=text, groups=GROUPS, prior_estimator=pr.FactorModel(), view_confidences=conf).fit(fx, fz)
            expect_model(ctx, "nested-bl", m.prior_model_, mu, cov, z @ b.T, f"BlackLitterman({text}, FactorModel(), {conf})", rtol=1e-6)
    # two layers of views
    inner_p, inner_q = np.array([VIEWS[0][0]], dtype=float), [0.003]
    c = sample_cov(x)
    m1, c1 = posterior(inner_p, inner_q, c @ np.ones(4) / 4, c, 0.05, [0.05 * c[0, 0]])
    p2 = np.array([VIEWS[4][0]], dtype=float)
    m2, c2 = posterior(p2, [0.001], m1, c1, 0.2, [0.2 * (p2 @ c1 @ p2.T)[0, 0]])
    m = pr.BlackLitterman(views=["A2 - A3 = 0.001"], tau=0.2, prior_estimator=pr.BlackLitterman(views=["A0 = 0.003"])).fit(fx)
    expect_model(ctx, "nested-two", m.prior_model_, m2, c2, x, "BlackLitterman on BlackLitterman", rtol=1e-6)
    # views on synthetic data
    s = returns(77 + 25, 25, 4)
    c = sample_cov(s)
    mu, cov = posterior(p2, [0.001], s.mean(axis=0), c, 0.05, [0.05 * (p2 @ c @ p2.T)[0, 0]])
    m = pr.BlackLitterman(
        views=["A2 - A3 = 0.001"], prior_estimator=pr.SyntheticData(distribution_estimator=Resampled(), n_samples=25)
    ).fit(pd.DataFrame(x, columns=names(4)))
    expect_model(ctx, "nested-synthetic", m.prior_model_, mu, cov, s, "BlackLitterman on SyntheticData", rtol=1e-6)
