"""C20: covariance and expected return models match their definitions."""

import itertools
import math
import warnings

import numpy as np
import pandas as pd
import scipy.optimize as sco
from skfolio import moments as mo
from skfolio.exceptions import NonPositiveVarianceError
from skfolio.utils.stats import corr_to_cov, cov_nearest, cov_to_corr
from sklearn.linear_model import LinearRegression
from sklearn.neighbors import KernelDensity

from mc.lib import close, lcg, names, returns

PROPERTY = "C20"
BOUNDS = {
    "quick": "formulas: all pairs of columns of 3 rows over 4 values, all triples of 3 rows over 2 values and all pairs of 4 rows over 3 "
    "values x 5 window sizes, 3 degrees of freedom, 4 decay factors, 4 thresholds x 2 variants; continuous data sets of 1..8 assets and "
    "4..60 rows x all covariance and expected-return models and options; implied volatilities x windows x adjustments; "
    "nearest covariance: all 3-asset correlation matrices over 9 values x 3 volatility sets x 2 algorithms, all 4-asset ones over 3 values, all 5-asset ones over 2",
    "thorough": "as quick with all pairs of 4 rows over 4 values and more data sets",
}
VALUES = (-0.1, 0.03, 0.27, -0.04)
SHAPES = [(4, 1), (6, 2), (5, 3), (12, 3), (4, 5), (9, 5), (30, 5), (8, 8), (60, 8)]
RHO = (-1.0, -0.9, -0.5, -0.2, 0.0, 0.3, 0.6, 0.95, 1.0)
VOLS = ([0.01, 0.02, 0.005], [1.0, 1.0, 1.0], [0.3, 1e-3, 0.02])


def cases(tier):
    cols = list(itertools.product(VALUES, repeat=3))
    for i in range(len(cols)):
        yield ["pairs", 3, list(VALUES), i]
    for i in range(81):
        yield ["pairs", 4, list(VALUES[:3]), i]
    if tier != "quick":
        for i in range(256):
            yield ["pairs", 4, list(VALUES), i]
    for i in range(8):
        yield ["triples", i]
    seeds = range(1, 6) if tier == "quick" else range(1, 25)
    for seed in seeds:
        for n, k in SHAPES:
            for group in ("empirical", "weighted", "gerber", "shrunk", "denoise", "detone", "mu", "shrunkmu", "nested"):
                yield ["data", group, seed, n, k]
        for n, k, w in [(17, 3, 3), (31, 2, 5), (45, 3, 8), (120, 3, 20), (45, 5, 4)]:
            yield ["implied", seed, n, k, w]
        yield ["adjusted", seed]
    yield ["glasso"]
    for i in range(len(RHO)):
        for v in range(len(VOLS)):
            yield ["near3", i, v]
    for i in range(3):
        yield ["near4", i]
    for i in range(32):
        yield ["near5", i]
    yield ["refused"]
    yield ["bodnar"]


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + case[0]](ctx, *case[1:])
    ctx.trace()
    ctx.outcome(case[0])


# --- reference formulas -------------------------------------------------------


def ref_cov(x, w=None, correction=1):
    """Weighted covariance; with equal weights 1/(n - correction)."""
    n, k = x.shape
    if w is None:
        m = [math.fsum(x[:, j]) / n for j in range(k)]
        return np.array(
            [[math.fsum((x[t, a] - m[a]) * (x[t, b] - m[b]) for t in range(n)) / (n - correction) for b in range(k)] for a in range(k)]
        )
    w = np.asarray(w) / math.fsum(w)
    m = [math.fsum(w * x[:, j]) for j in range(k)]
    c = np.array([[math.fsum(w[t] * (x[t, a] - m[a]) * (x[t, b] - m[b]) for t in range(n)) for b in range(k)] for a in range(k)])
    return c / (1 - math.fsum(w * w))


def decay(n, alpha):
    return [(1 - alpha) ** (n - 1 - t) for t in range(n)]


def ref_gerber(x, threshold, psd):
    n, k = x.shape
    sd = np.sqrt(np.diag(ref_cov(x, correction=0)))
    # 1, -1 or 0 for a large rise, a large fall or neither
    s = [[1 if x[t, j] >= threshold * sd[j] else (-1 if x[t, j] <= -threshold * sd[j] else 0) for j in range(k)] for t in range(n)]
    out = np.empty((k, k))
    for a in range(k):
        for b in range(k):
            h = sum(s[t][a] * s[t][b] for t in range(n))
            if psd:
                den = sum(1 for t in range(n) if s[t][a] or s[t][b])
            else:
                den = math.sqrt(sum(1 for t in range(n) if s[t][a]) * sum(1 for t in range(n) if s[t][b]))
            out[a, b] = h / den * sd[a] * sd[b]
    return out


def margin(x, threshold):
    """Distance between the observations and the Gerber thresholds."""
    sd = np.sqrt(np.diag(ref_cov(x, correction=0)))
    return np.min(np.abs(np.abs(x) - threshold * sd)) / np.max(np.abs(x))


def correlation(c):
    sd = np.sqrt(np.diag(c))
    return c / np.outer(sd, sd), sd


def near_singular(c):
    corr, _ = correlation(c)
    return np.linalg.eigvalsh(corr)[0] < 1e-10


def well_formed(ctx, key, cov, k, note=""):
    ok = isinstance(cov, np.ndarray) and cov.shape == (k, k) and np.all(np.isfinite(cov)) 
    ok = ok and np.max(np.abs(cov - cov.T)) <= 1e-9 * np.min(np.diag(cov)) + 1e-9 * np.max(np.abs(cov))
    ctx.expect(ok, f"{key}-symmetric", lambda: f"{note}: not a finite symmetric matrix: {cov}")
    corr, _ = correlation(cov)
    low = np.linalg.eigvalsh((corr + corr.T) / 2)[0]
    ctx.expect(low > -1e-9, f"{key}-semidefinite", lambda: f"{note}: smallest eigenvalue {low} of the correlation")


def compare(ctx, key, make, x, ref, note="", rtol=1e-8):
    """Fit with and without repair and compare with the formula."""
    k = x.shape[1]
    note = f"{note} on {np.asarray(x).tolist()}"
    scale = np.sqrt(np.outer(np.diag(ref), np.diag(ref))) if np.all(np.diag(ref) > 0) else 1.0
    if np.any(np.diag(ref) < 1e-14):
        for nearest in (True, False):
            try:
                m = make(nearest=nearest).fit(x)
            except NonPositiveVarianceError:
                ctx.outcome("no variance refused")
                continue
            ctx.expect(False, f"{key}-novariance", f"{note}: accepted an asset without variance: {m.covariance_}")
        ctx.step(2)
        return
    raw = make(nearest=False).fit(x).covariance_
    ctx.step()
    ctx.expect(
        raw.shape == (k, k) and np.max(np.abs(raw - ref) / scale) < rtol, f"{key}-formula", lambda: f"{note}: {raw} instead of {ref}"
    )
    singular = near_singular(ref)
    for higham in (False, True):
        try:
            cov = make(nearest=True, higham=higham).fit(x).covariance_
        except ValueError as e:
            # documented: the iterations may not suffice
            ctx.expect(higham and singular and "Unable" in str(e), f"{key}-refused", lambda: f"{note}: {e}")
            ctx.outcome("higham did not converge")
            continue
        ctx.step()
        well_formed(ctx, key, cov, k, note)
        ctx.expect(close(np.diag(cov), np.diag(ref), 1e-8, 0), f"{key}-variance", lambda: f"{note}: variances {np.diag(cov)}")
        low = np.linalg.eigvalsh(correlation((ref + ref.T) / 2)[0])[0]
        # repairing a semidefinite matrix only lifts null eigenvalues by rounding
        tol = rtol if not singular else (1e-6 if low > -1e-9 else None)
        if tol is not None:
            ctx.expect(
                np.max(np.abs(cov - ref) / scale) < tol,
                f"{key}-unchanged",
                lambda: f"{note}: valid matrix changed by repair (higham={higham}): {cov} instead of {ref}",
            )
        if singular:
            ctx.outcome("repaired")
            try:
                np.linalg.cholesky(cov)
            except np.linalg.LinAlgError:
                ctx.expect(False, f"{key}-definite", f"{note}: the repaired matrix has no Cholesky factor: {cov}")


def window(x, w):
    return x if w is None else x[-w:]


def covariances(ctx, x, windows=(None, 2), ddofs=(0, 1), alphas=(0.2,), thresholds=(0.5,)):
    n = len(x)
    for w in windows:
        if w is not None and w < 2:
            continue
        xw = window(x, w)
        for ddof in ddofs:
            if len(xw) - ddof < 1:
                continue
            compare(
                ctx,
                "empirical",
                lambda **kw: mo.EmpiricalCovariance(window_size=w, ddof=ddof, **kw),
                x,
                ref_cov(xw, correction=ddof),
                f"EmpiricalCovariance(window_size={w}, ddof={ddof})",
            )
        for alpha in alphas:
            compare(
                ctx,
                "ew",
                lambda **kw: mo.EWCovariance(window_size=w, alpha=alpha, **kw),
                x,
                ref_cov(xw, w=decay(len(xw), alpha)),
                f"EWCovariance(window_size={w}, alpha={alpha})",
            )
        if np.any(np.ptp(xw, axis=0) == 0):
            gerber = [(0.5, True, ref_cov(xw, correction=0))]
        else:
            gerber = [(t, p, ref_gerber(xw, t, p)) for t in thresholds for p in (True, False) if margin(xw, t) > 1e-9]
        for t, p, ref in gerber:
            compare(
                ctx,
                "gerber",
                lambda **kw: mo.GerberCovariance(window_size=w, threshold=t, psd_variant=p, **kw),
                x,
                ref,
                f"GerberCovariance(window_size={w}, threshold={t}, psd_variant={p})",
            )
    del n


def means(ctx, x, windows=(None, 1, 2, 3), alphas=(0.2, 0.7, 1.0)):
    for w in windows:
        xw = window(x, w)
        got = mo.EmpiricalMu(window_size=w).fit(x).mu_
        want = [math.fsum(c) / len(xw) for c in xw.T]
        ctx.step()
        ctx.expect(close(got, want, 1e-10, 1e-15), "empirical-mu", lambda: f"EmpiricalMu(window_size={w}) {got} instead of {want} on {x.tolist()}")
        for alpha in alphas:
            d = np.array(decay(len(xw), alpha))
            want = [math.fsum(d * c) / math.fsum(d) for c in xw.T]
            got = mo.EWMu(window_size=w, alpha=alpha).fit(x).mu_
            ctx.step()
            ctx.expect(
                close(got, want, 1e-10, 1e-15), "ew-mu", lambda: f"EWMu(window_size={w}, alpha={alpha}) {got} instead of {want} on {x.tolist()}"
            )


# --- cases --------------------------------------------------------------------


def do_pairs(ctx, n, values, i):
    cols = list(itertools.product(values, repeat=n))
    for j in range(i, len(cols)):
        x = np.array([cols[i], cols[j]]).T
        ctx.state((n, i, j))
        covariances(ctx, x, windows=(None,) if (i + j) % 3 else (None, n - 1), ddofs=(0, 1), alphas=(0.3,), thresholds=(0.5,))
        if (i + j) % 2 == 0:
            means(ctx, x, alphas=(0.3,))


def do_triples(ctx, i):
    cols = list(itertools.product(VALUES[:2], repeat=3))
    for b in cols:
        for c in cols:
            x = np.array([cols[i], b, c]).T
            ctx.state(("t", i, b, c))
            covariances(ctx, x, windows=(None,), ddofs=(1,), alphas=(0.3,), thresholds=(0.5,))


def dataset(seed, n, k):
    return returns(100 * seed + 7 * n + k, n, k)


def do_data(ctx, group, seed, n, k):
    x = dataset(seed, n, k)
    ctx.state((group, seed, n, k))
    globals()["group_" + group](ctx, x)


def all_windows(x):
    n = len(x)
    return sorted({None if w is None else min(w, n + 5) for w in (None, 2, 3, n - 1, n, n + 3)} - {None}, key=int) + [None]


def group_empirical(ctx, x):
    covariances(ctx, x, windows=[w for w in all_windows(x)], ddofs=(0, 1, 2) if len(x) > 4 else (0, 1), alphas=(), thresholds=())


def group_weighted(ctx, x):
    covariances(ctx, x, windows=all_windows(x), ddofs=(), alphas=(0.05, 0.2, 0.5, 0.9), thresholds=())


def group_gerber(ctx, x):
    for shift in (0.0, 0.01):
        covariances(ctx, x + shift, windows=all_windows(x), ddofs=(), alphas=(), thresholds=(0.1, 0.3, 0.5, 0.9))


def ref_shrink(x, kind, centered, amount=None):
    n, k = x.shape
    z = x if centered else x - np.array([math.fsum(c) / n for c in x.T])
    s = z.T @ z / n
    mu = np.trace(s) / k
    if kind == "ledoit":
        if k == 1:
            amount = 0.0
        else:
            delta = np.sum((s - mu * np.eye(k)) ** 2)
            beta = sum(np.sum((np.outer(r, r) - s) ** 2) for r in z) / n**2
            amount = min(beta, delta) / delta
    elif kind == "oas":
        if k == 1:
            amount = 0.0
        else:
            tr2 = np.sum(s * s)
            # formula (23) of Chen et al., in scikit-learn's form
            num = tr2 / k**2 + mu**2
            den = (n + 1) * (tr2 / k**2 - mu**2 / k)
            amount = 1.0 if den == 0 else min(num / den, 1.0)
    return (1 - amount) * s + amount * mu * np.eye(k)


def group_shrunk(ctx, x):
    for centered in (False, True):
        for kind, cls, args in [
            ("ledoit", mo.LedoitWolf, [{}, {"block_size": 2}]),
            ("oas", mo.OAS, [{}]),
            ("shrunk", mo.ShrunkCovariance, [{"shrinkage": s} for s in (0.0, 0.1, 0.6, 1.0)]),
        ]:
            for kw in args:
                compare(
                    ctx,
                    kind,
                    lambda **o: cls(assume_centered=centered, **kw, **o),
                    x,
                    ref_shrink(x, kind, centered, kw.get("shrinkage")),
                    f"{cls.__name__}({kw}, assume_centered={centered})",
                    rtol=1e-7,
                )


def ref_denoise(c, count):
    corr, sd = correlation(c)
    val, vec = np.linalg.eigh(corr)
    order = np.argsort(val)[::-1]
    val, vec = val[order], vec[:, order]
    val = val.copy()
    val[count:] = np.mean(val[count:])
    new = (vec * val) @ vec.T
    new, _ = correlation(new)
    return new * np.outer(sd, sd)


def noise_variance(corr, q):
    """Variance for which the Marcenko-Pastur density fits the eigenvalue density best."""
    val = np.linalg.eigvalsh(corr)[::-1]
    kde = KernelDensity(kernel="gaussian", bandwidth=0.01).fit(val.reshape(-1, 1))

    def loss(v):
        v = float(np.ravel(v)[0])
        low, high = v * (1 - q**-0.5) ** 2, v * (1 + q**-0.5) ** 2
        grid = np.linspace(low, high, 1000)
        mp = q / (2 * np.pi * v * grid) * np.sqrt(np.maximum((high - grid) * (grid - low), 0))
        return np.sum((np.exp(kde.score_samples(grid.reshape(-1, 1))) - mp) ** 2)

    return sco.minimize(loss, x0=0.5, bounds=((1e-5, 1 - 1e-5),))["x"][0]


def group_denoise(ctx, x):
    n, k = x.shape
    if k == 1 or n <= k:
        return
    for make in (None, mo.EmpiricalCovariance(ddof=0), mo.EWCovariance(alpha=0.1)):
        base = mo.EmpiricalCovariance().fit(x) if make is None else make.fit(x)
        c = base.covariance_
        corr, _ = correlation(c)
        if near_singular(c):
            continue
        val = np.linalg.eigvalsh(corr)[::-1]
        q = n / k
        v = noise_variance(corr, q)
        # the number of signals may be decided by rounding of the fitted variance
        options = {int(np.sum(val > f * v * (1 + q**-0.5) ** 2)) for f in (0.99, 1.0, 1.01)}
        refs = [ref_denoise(c, o) for o in options if o < k] + ([c] if k in options else [])
        got = mo.DenoiseCovariance(covariance_estimator=make, nearest=False).fit(x).covariance_
        ctx.step()
        ctx.outcome(f"denoise keeps {sorted(options)}")
        scale = np.sqrt(np.outer(np.diag(c), np.diag(c)))
        ctx.expect(
            any(np.max(np.abs(got - r) / scale) < 1e-7 for r in refs),
            "denoise-formula",
            lambda: f"DenoiseCovariance({make}) of {c} with {n} rows: {got} instead of {refs}",
        )
        got = mo.DenoiseCovariance(covariance_estimator=make).fit(x).covariance_
        well_formed(ctx, "denoise", got, k, "DenoiseCovariance")
        ctx.expect(
            any(np.max(np.abs(got - r) / scale) < 1e-7 for r in refs), "denoise-unchanged", lambda: f"repair changed a valid matrix: {got}"
        )


def group_detone(ctx, x):
    n, k = x.shape
    if k < 2:
        return
    for make in (None, mo.LedoitWolf(), mo.EWCovariance(alpha=0.1, window_size=max(3, n - 1))):
        base = mo.EmpiricalCovariance().fit(x) if make is None else make.fit(x)
        c = base.covariance_
        corr, sd = correlation(c)
        val, vec = np.linalg.eigh(corr)
        for m in range(1, min(k, n - 1)):
            rest = (vec[:, : k - m] * val[: k - m]) @ vec[:, : k - m].T
            if np.min(np.diag(rest)) < 1e-6 or abs(val[k - m] - val[k - m - 1]) < 1e-8:
                continue
            rest, _ = correlation(rest)
            ref = rest * np.outer(sd, sd)
            compare(
                ctx,
                "detone",
                lambda **kw: mo.DetoneCovariance(covariance_estimator=make, n_markets=m, **kw),
                x,
                ref,
                f"DetoneCovariance({make}, n_markets={m})",
                rtol=1e-6,
            )


def group_mu(ctx, x):
    n, k = x.shape
    means(ctx, x, windows=[1, *all_windows(x)], alphas=(0.05, 0.2, 0.7, 1.0))
    g = lcg(n + k)
    for aversion in (1, 2.5, 0, -1):
        for weights in (None, [next(g) for _ in range(k)], [1000.0 * (i + 1) for i in range(k)], [0.5 - next(g) for _ in range(k)]):
            for make, c in [(None, ref_cov(x)), (mo.LedoitWolf(), ref_shrink(x, "ledoit", False))]:
                if make is None and n <= k:
                    continue
                w = np.ones(k) / k if weights is None else np.array(weights)
                for given in [weights, None if weights is None else np.array(weights)]:
                    got = mo.EquilibriumMu(risk_aversion=aversion, weights=given, covariance_estimator=make).fit(x).mu_
                    ctx.step()
                    want = aversion * c @ w
                    ctx.expect(
                        close(got, want, 1e-7, 1e-12),
                        "equilibrium-mu",
                        lambda: f"EquilibriumMu({aversion}, {weights}, {make}) {got} instead of {want}",
                    )


def stein_terms(x, c, vol_weighted):
    n, k = x.shape
    m = np.array([math.fsum(col) / n for col in x.T])
    inv = np.linalg.inv(c)
    target = (np.ones(k) @ inv @ m / (np.ones(k) @ inv @ np.ones(k))) if vol_weighted else np.mean(m)
    return m, inv, target * np.ones(k)


def group_shrunkmu(ctx, x):
    n, k = x.shape
    if k < 2:
        return
    for make, c in [(None, ref_cov(x)), (mo.LedoitWolf(), ref_shrink(x, "ledoit", False)), (mo.EWCovariance(alpha=0.1), ref_cov(x, decay(n, 0.1)))]:
        if near_singular(c):
            continue
        for vol_weighted in (False, True):
            m, inv, t = stein_terms(x, c, vol_weighted)
            d = m - t
            val = np.linalg.eigvalsh(c)
            for method in ("JAMES_STEIN", "BAYES_STEIN"):
                if method == "JAMES_STEIN":
                    beta = (np.sum(val) - 2 * val[-1]) / (d @ d) / n
                else:
                    beta = (k + 2) / ((k + 2) + n * d @ inv @ d)
                got = mo.ShrunkMu(
                    covariance_estimator=make, vol_weighted_target=vol_weighted, method=getattr(mo.ShrunkMuMethods, method)
                ).fit(x)
                ctx.step()
                want = (1 - beta) * m + beta * t
                note = f"ShrunkMu({make}, {vol_weighted}, {method})"
                tol = 1e-7 * max(np.max(np.abs(m)), abs(beta) * np.max(np.abs(d)))
                ctx.expect(
                    np.shape(got.mu_) == (k,) and np.isrealobj(got.mu_) and np.max(np.abs(got.mu_ - want)) < tol,
                    "shrunk-mu",
                    lambda: f"{note} {got.mu_} instead of {want}",
                )
                ctx.expect(
                    close(got.mu_target_, t, 1e-7, 1e-10) and close([got.alpha_, got.beta_], [1 - beta, beta], 1e-5, 1e-8),
                    "shrunk-mu-terms",
                    lambda: f"{note} target {got.mu_target_} instead of {t}, ({got.alpha_}, {got.beta_}) instead of {1 - beta, beta}",
                )
            if n > k:
                u, v, w = m @ inv @ m, m @ inv @ t, t @ inv @ t
                alpha = ((u - k / (n - k)) * w - v * v) / (u * w - v * v)
                got = mo.ShrunkMu(
                    covariance_estimator=make, vol_weighted_target=vol_weighted, method=mo.ShrunkMuMethods.BODNAR_OKHRIN
                ).fit(x)
                ctx.step()
                ctx.expect(
                    close(got.mu_target_, t, 1e-7, 1e-10) and close(got.alpha_, alpha, 1e-4, 1e-6),
                    "bodnar-alpha",
                    lambda: f"ShrunkMu({make}, {vol_weighted}, BODNAR_OKHRIN) alpha {got.alpha_} instead of {alpha}",
                )
                want = got.alpha_ * m + got.beta_ * got.mu_target_
                ctx.expect(close(got.mu_, want, 1e-7, 1e-12), "bodnar-combination", lambda: f"mu_ {got.mu_} instead of {want}")
                # beta is a known finding: (1 - alpha) v / u is pinned by the tests
                ctx.expect(
                    any(close(got.beta_, (1 - got.alpha_) * v / z, 1e-4, 1e-8) for z in (u, w)),
                    "bodnar-beta",
                    lambda: f"ShrunkMu({make}, {vol_weighted}, BODNAR_OKHRIN) beta {got.beta_}",
                )


def do_bodnar(ctx):
    """beta minimises the weighted distance to the mean: (1 - alpha) v / w."""
    x = dataset(1, 30, 5)
    ctx.state("bodnar")
    m, inv, t = stein_terms(x, ref_cov(x), False)
    got = mo.ShrunkMu(method=mo.ShrunkMuMethods.BODNAR_OKHRIN).fit(x)
    ctx.step()
    want = (1 - got.alpha_) * (m @ inv @ t) / (t @ inv @ t)
    ctx.expect(close(got.beta_, want, 1e-4, 1e-8), "bodnar-okhrin-beta", f"beta_ {got.beta_} instead of {want}")


def group_nested(ctx, x):
    """Options of an inner estimator are obeyed and the input is not needed twice."""
    n, k = x.shape
    if k == 1 or n <= 4:
        return
    frame = pd.DataFrame(x, columns=names(k))
    for inner in (mo.EmpiricalCovariance(window_size=4, ddof=0), mo.GerberCovariance(threshold=0.3), mo.ShrunkCovariance(shrinkage=0.4)):
        c = inner.fit(x).covariance_
        w = np.arange(1, k + 1) / 10
        got = mo.EquilibriumMu(weights=w, covariance_estimator=inner).fit(frame)
        ctx.step()
        ctx.expect(close(got.mu_, c @ w, 1e-8, 1e-14), "nested-mu", lambda: f"EquilibriumMu({inner}) {got.mu_} instead of {c @ w}")
        m, _, t = stein_terms(x, c + np.eye(k), False)
        val = np.linalg.eigvalsh(c)
        beta = (np.sum(val) - 2 * val[-1]) / ((m - t) @ (m - t)) / n
        got = mo.ShrunkMu(covariance_estimator=inner).fit(frame)
        ctx.step()
        want = (1 - beta) * m + beta * t
        ctx.expect(close(got.mu_, want, 1e-6, 1e-10), "nested-mu", lambda: f"ShrunkMu({inner}) {got.mu_} instead of {want}")
        vol = 0.2 + 0.01 * np.arange(n * k).reshape(n, k)
        corr, _ = correlation(c)
        s = vol[-1] / np.sqrt(252) / 1.1
        got = mo.ImpliedCovariance(prior_covariance_estimator=inner, volatility_risk_premium_adj=1.1, nearest=False).fit(frame, implied_vol=vol)
        ctx.step()
        ctx.expect(
            close(got.covariance_, corr * np.outer(s, s), 1e-8, 1e-14),
            "nested-implied",
            lambda: f"ImpliedCovariance({inner}) {got.covariance_} instead of {corr * np.outer(s, s)}",
        )


def implied(seed, n, k):
    g = lcg(seed + n)
    return np.array([[0.1 + 0.3 * next(g) for _ in range(k)] for _ in range(n)])


def do_implied(ctx, seed, n, k, w):
    x = dataset(seed, n, k)
    vol = implied(seed, n, k)
    ctx.state((seed, n, k, w))
    c = ref_cov(x)
    corr, _ = correlation(c)
    for factor in (252.0, 52):
        for kind in ("array", "frame", "reordered"):
            got_x = x if kind == "array" else pd.DataFrame(x, columns=names(k))
            got_vol = vol
            if kind == "reordered":
                got_vol = pd.DataFrame(np.hstack([vol, vol[:, :1] * 9]), columns=[*names(k), "extra"]).iloc[:, ::-1]
            elif kind == "frame":
                got_vol = pd.DataFrame(vol, columns=names(k))
            m = mo.ImpliedCovariance(annualized_factor=factor, window_size=w, nearest=False).fit(got_x, implied_vol=got_vol)
            ctx.step()
            folds = n // w
            pred, coefs, consts = [], [], []
            for j in range(k):
                rv, iv = [], []
                for f in range(folds):
                    last = n - (folds - 1 - f) * w
                    rv.append(math.log(math.sqrt(ref_cov(x[last - w : last, [j]])[0, 0])))
                    iv.append(math.log(vol[last - 1, j] / math.sqrt(factor)))
                a = np.array([[1.0, iv[f], rv[f]] for f in range(folds)])
                ols = LinearRegression().fit(a[:-1, 1:], rv[1:])
                coefs.append(ols.coef_)
                consts.append(ols.intercept_)
                pred.append(math.exp(ols.intercept_ + a[-1, 1:] @ ols.coef_))
            pred = np.array(pred)
            note = f"ImpliedCovariance(window_size={w}, annualized_factor={factor}) on {n} rows ({kind})"
            ctx.expect(close(m.pred_realised_vols_, pred, 1e-6, 0), "implied-vol", lambda: f"{note}: {m.pred_realised_vols_} instead of {pred}")
            ctx.expect(
                close(m.coefs_, np.array(coefs), 1e-5, 1e-7) and close(m.intercepts_, consts, 1e-5, 1e-7),
                "implied-coefs",
                lambda: f"{note}: {m.coefs_} {m.intercepts_} instead of {coefs} {consts}",
            )
            want = corr * np.outer(pred, pred)
            ctx.expect(close(m.covariance_, want, 1e-6, 0), "implied-formula", lambda: f"{note}: {m.covariance_} instead of {want}")
            m = mo.ImpliedCovariance(annualized_factor=factor, window_size=w).fit(got_x, implied_vol=got_vol)
            well_formed(ctx, "implied", m.covariance_, k, note)


def do_adjusted(ctx, seed):
    n, k = 12, 3
    x, vol = dataset(seed, n, k), implied(seed, n, k)
    ctx.state(("adjusted", seed))
    corr, _ = correlation(ref_cov(x))
    frame = pd.DataFrame(x, columns=names(k))
    adj = [1.2, 0.8, 1.5]
    for given, a in [(1.3, [1.3] * 3), (adj, adj), (np.array(adj), adj), (dict(zip(names(k), adj, strict=True)), adj), (1, [1.0] * 3)]:
        for factor in (252.0, 12):
            for w in (20, 3):
                for v in (vol, pd.DataFrame(vol[:, ::-1], columns=names(k)[::-1])):
                    m = mo.ImpliedCovariance(volatility_risk_premium_adj=given, annualized_factor=factor, window_size=w).fit(frame, implied_vol=v)
                    ctx.step()
                    s = vol[-1] / np.sqrt(factor) / np.array(a)
                    want = corr * np.outer(s, s)
                    ctx.expect(
                        close(m.covariance_, want, 1e-8, 0) and close(m.pred_realised_vols_, s, 1e-10, 0),
                        "implied-adjusted",
                        lambda: f"ImpliedCovariance(volatility_risk_premium_adj={given}, {factor}): {m.covariance_} instead of {want}",
                    )


def do_glasso(ctx):
    from sklearn.covariance import GraphicalLassoCV

    for seed in (1, 2):
        x = dataset(seed, 60, 4) * 50
        ctx.state(("glasso", seed))
        for kw in ({}, {"assume_centered": True}, {"alphas": [0.01, 0.1]}, {"alphas": 3, "n_refinements": 2}):
            m = mo.GraphicalLassoCV(**kw).fit(x)
            ctx.step()
            well_formed(ctx, "glasso", m.covariance_, 4, f"GraphicalLassoCV({kw})")
            want = GraphicalLassoCV(**kw).fit(x).covariance_
            ctx.expect(close(m.covariance_, want, 1e-6, 1e-9), "glasso-formula", lambda: f"GraphicalLassoCV({kw}) {m.covariance_} instead of {want}")


def nearest_cases(ctx, corr, sd):
    """Conversions and repair of one correlation matrix."""
    k = len(sd)
    sd = np.asarray(sd, dtype=float)
    cov = corr_to_cov(corr, sd)
    want = np.array([[corr[a, b] * sd[a] * sd[b] for b in range(k)] for a in range(k)])
    ctx.expect(close(cov, want, 1e-12, 0), "corr-to-cov", lambda: f"corr_to_cov({corr.tolist()}, {sd}) {cov}")
    back, s = cov_to_corr(cov)
    ctx.expect(close(back, corr, 1e-12, 1e-14) and close(s, sd, 1e-12, 0), "cov-to-corr", lambda: f"cov_to_corr({cov.tolist()}) {back} {s}")
    low = np.linalg.eigvalsh(corr)[0]
    for higham in (False, True):
        before = cov.copy()
        note = f"cov_nearest(corr={corr.tolist()}, sd={sd.tolist()}, higham={higham})"
        try:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                got = cov_nearest(cov, higham=higham, warn=True)
        except ValueError as e:
            # documented: the iterations may not suffice
            ctx.expect(higham and low < 0 and "Unable" in str(e), "nearest-refused", lambda: f"{note}: {e}")
            ctx.outcome("higham did not converge")
            continue
        ctx.step()
        ctx.expect(np.array_equal(cov, before), "nearest-modifies", lambda: f"{note} modified its input")
        ctx.expect(close(np.diag(got), sd**2, 1e-9, 0), "nearest-variance", lambda: f"{note}: variances {np.diag(got)}")
        well_formed(ctx, "nearest", got, k, note)
        if low > 1e-9:
            ctx.outcome("definite")
            ctx.expect(np.array_equal(got, cov) and not caught, "nearest-unchanged", lambda: f"{note}: {got} with {[str(c.message) for c in caught]}")
        else:
            ctx.outcome("repaired")
            if low < -1e-9:
                ctx.expect(len(caught) == 1, "nearest-warning", lambda: f"{note}: {len(caught)} warnings")
            try:
                np.linalg.cholesky(got)
            except np.linalg.LinAlgError:
                ctx.expect(False, "nearest-definite", f"{note}: no Cholesky factor for {got}")
            new, _ = correlation(got)
            if not higham:
                val, vec = np.linalg.eigh(corr)
                ref, _ = correlation((vec * np.maximum(val, 1e-13)) @ vec.T)
                ctx.expect(np.max(np.abs(new - ref)) < 1e-6, "nearest-clipping", lambda: f"{note}: {new} instead of {ref}")
            else:
                ref = higham_reference(corr)
                ctx.expect(
                    np.linalg.norm(new - corr) < np.linalg.norm(ref - corr) + 5e-2 * max(1, np.linalg.norm(ref - corr)),
                    "nearest-higham",
                    lambda: f"{note}: {new} instead of {ref}",
                )
        again = cov_nearest(got, higham=higham)
        ctx.expect(close(again, got, 1e-9, 1e-9 * np.min(sd) ** 2), "nearest-idempotent", lambda: f"{note}: {got} then {again}")


def higham_reference(corr):
    """Alternating projections with Dykstra's correction, to convergence."""
    y, ds = corr.copy(), np.zeros_like(corr)
    for _ in range(300):
        r = y - ds
        val, vec = np.linalg.eigh(r)
        p = (vec * np.maximum(val, 0)) @ vec.T
        ds = p - r
        new = p.copy()
        np.fill_diagonal(new, 1.0)
        if np.max(np.abs(new - y)) < 1e-10:
            break
        y = new
    return new


def matrix(k, upper):
    c = np.eye(k)
    c[np.triu_indices(k, 1)] = upper
    return np.maximum(c, c.T) + np.minimum(c, c.T) - np.diag(np.diag(c))


def do_near3(ctx, i, v):
    for b in RHO:
        for c in RHO:
            ctx.state((3, i, b, c, v))
            nearest_cases(ctx, matrix(3, [RHO[i], b, c]), VOLS[v])


def do_near4(ctx, i):
    vals = (-0.7, 0.1, 0.9)
    for rest in itertools.product(vals, repeat=5):
        ctx.state((4, i, rest))
        nearest_cases(ctx, matrix(4, [vals[i], *rest]), [0.01, 0.02, 0.005, 0.3])


def do_near5(ctx, i):
    vals = (-0.4, 0.9)
    head = list(itertools.product(vals, repeat=5))[i]
    for rest in itertools.product(vals, repeat=5):
        ctx.state((5, i, rest))
        nearest_cases(ctx, matrix(5, [*head, *rest]), [0.01, 0.02, 0.005, 0.3, 0.1])


def do_refused(ctx):
    """Assets without variance are refused by every model, and named."""
    x = dataset(1, 30, 4)
    flat = x.copy()
    flat[:, 2] = 0.01
    late = x.copy()
    late[-10:, 1] = 0.0
    vol = implied(1, 30, 4)
    models = [
        mo.EmpiricalCovariance,
        mo.EWCovariance,
        mo.GerberCovariance,
        mo.DenoiseCovariance,
        mo.DetoneCovariance,
        lambda **kw: mo.DenoiseCovariance(covariance_estimator=mo.EmpiricalCovariance(**kw)),
        lambda **kw: mo.ImpliedCovariance(volatility_risk_premium_adj=1, **kw),
    ]
    for make in models:
        for nearest in (True, False):
            for kind in ("array", "frame"):
                ctx.state(("flat", kind, nearest, str(make)))
                data = flat if kind == "array" else pd.DataFrame(flat, columns=names(4))
                m = make(nearest=nearest)
                kw = {"implied_vol": vol} if isinstance(m, mo.ImpliedCovariance) else {}
                ctx.step()
                try:
                    m.fit(data, **kw)
                    ctx.expect(False, "novariance-accepted", f"{m} accepted an asset without variance ({kind})")
                except NonPositiveVarianceError as e:
                    want = "A2" if kind == "frame" else "2"
                    ctx.expect(want in str(e).split(":")[-1], "novariance-name", lambda: f"{m}: {e} does not name asset {want}")
                    ctx.outcome("refused")
    for make in (mo.EmpiricalCovariance, mo.EWCovariance, mo.GerberCovariance):
        m = make(window_size=10)
        ctx.step()
        try:
            m.fit(late)
            ctx.expect(False, "novariance-window", f"{m} accepted an asset flat in its window")
        except NonPositiveVarianceError:
            ctx.outcome("refused")
        make().fit(late)
    for bad in (np.ones((2, 3)), np.array([[1.0, 0.5], [0.2, 1.0]]), np.ones(3)):
        ctx.step()
        try:
            cov_nearest(bad)
            ctx.expect(False, "nearest-invalid", f"cov_nearest accepted {bad.tolist()}")
        except ValueError:
            ctx.outcome("refused")
    for f, args in [(cov_to_corr, (np.ones(3),)), (corr_to_cov, (np.ones(3), np.ones(3))), (corr_to_cov, (np.eye(3), np.eye(3)))]:
        try:
            f(*args)
            ctx.expect(False, "conversion-invalid", f"{f.__name__} accepted {args}")
        except ValueError:
            ctx.outcome("refused")
    for w, n in [(2, 30), (11, 30), (31, 30), (3, 8)]:
        ctx.step()
        try:
            mo.ImpliedCovariance(window_size=w).fit(x[-n:], implied_vol=vol[-n:])
            ctx.expect(False, "implied-short", f"ImpliedCovariance accepted a window of {w} on {n} rows")
        except ValueError:
            ctx.outcome("refused")
    for bad in (0, -1.0, [1, 2, 0, 1], [1, 2, 3], {"A0": 1.0}):
        ctx.step()
        try:
            mo.ImpliedCovariance(volatility_risk_premium_adj=bad).fit(pd.DataFrame(x, columns=names(4)), implied_vol=vol)
            ctx.expect(False, "implied-adjustment", f"ImpliedCovariance accepted the adjustment {bad}")
        except ValueError:
            ctx.outcome("refused")
    for bad in (None, vol[:, :3], vol[1:], -vol, pd.DataFrame(vol, columns=["A0", "A1", "A2", "B"])):
        ctx.step()
        try:
            mo.ImpliedCovariance(window_size=5).fit(pd.DataFrame(x, columns=names(4)), implied_vol=bad)
            ctx.expect(False, "implied-vol-invalid", f"ImpliedCovariance accepted {type(bad)}")
        except ValueError:
            ctx.outcome("refused")
    for bad in (0, 1, -0.5, 1.5):
        try:
            mo.GerberCovariance(threshold=bad).fit(x)
            ctx.expect(False, "gerber-threshold", f"GerberCovariance accepted threshold {bad}")
        except ValueError:
            ctx.outcome("refused")
