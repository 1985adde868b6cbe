"""Seeded randomness is reproducible, isolated and correctly shaped."""

import functools
import itertools
import random
import warnings

import numpy as np
import scipy.stats as st

from mc.lib import frame, returns

PROPERTY = "C30"
BOUNDS = {
    "quick": "17 seeded components x 3 seeds x 25 disturbing calls, alone and followed by each of 8 unseeded ones; bootstraps of 2-9 rows x 7 block lengths x 40 seeds; random weights of 1-8 assets x all numbers of zeros x 40 seeds; uncertainty sets of 2-4 assets x 5 confidence levels",
    "thorough": "as quick with all ordered pairs of disturbances for every seed, 200 seeds",
}
SEEDS = [0, 7, 42]
DIST = ["GaussianCopula", "StudentTCopula", "ClaytonCopula", "GumbelCopula", "JoeCopula", "IndependentCopula"]
UNI = ["Gaussian", "StudentT", "JohnsonSU", "NormalInverseGaussian"]
SEEDED = ["bootstrap", "bootstrap-auto", "mu-set", "cov-set", *DIST, *UNI, "vine", "vine-cond", "synthetic"]
NOISE = ["seed", "rand", "pyrandom", "rand_weights", "dirichlet", "random-model", "bootstrap-free", "sample-free"]


def cases(tier):
    for c in SEEDED:
        for i, s in enumerate(SEEDS):
            yield ["isolated", c, s]
            for d in [*NOISE, *SEEDED]:
                if tier != "quick" or i == 0:
                    yield ["after", c, s, d, tier != "quick"]
        yield ["instance", c]
    n = 40 if tier == "quick" else 200
    for rows in range(2, 10):
        yield ["blocks", rows, n]
    for rows in (12, 30):
        for size in (1.0, 2.0, 3.5, 8.0):
            yield ["lengths", rows, size, n]
    for k in range(1, 9):
        yield ["weights", k, n]
    for d in (2, 3, 4):
        for kind in ("mu", "cov"):
            for how in ("empirical", "bootstrap"):
                yield ["set", kind, how, d]
    yield ["blocksize"]
    for model in ("nco", "stacking"):
        for cv in ("kfold", "purged", "walk", "number"):
            yield ["splits", model, cv]


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + case[0]](ctx, *case[1:])
    ctx.trace()
    ctx.outcome(case[0])


@functools.lru_cache
def _X(n=24, d=3):
    return frame(returns(77, n, d, scale=0.02))


@functools.lru_cache
def _fitted(name):
    import skfolio.distribution as sd

    X = _X(40)
    if name in DIST:
        U = sd.compute_pseudo_observations(X.to_numpy()[:, :2] + X.to_numpy()[:, [2]])
        return getattr(sd, name)().fit(U)
    if name in UNI:
        x = X.to_numpy()[:, [0]]
        return getattr(sd, name)().fit(np.sign(x) * np.abs(x) ** 1.5 if name == UNI[3] else x)
    return sd.VineCopula(central_assets=["A1"]).fit(X)


def _do(name, seed):
    """Result of a component for a seed."""
    import copy

    import skfolio.distribution as sd
    from skfolio.prior import SyntheticData
    from skfolio.uncertainty_set import (
        BootstrapCovarianceUncertaintySet,
        BootstrapMuUncertaintySet,
    )
    from skfolio.utils.bootstrap import stationary_bootstrap

    if name == "bootstrap":
        return stationary_bootstrap(_X().to_numpy(), 5, block_size=3.0, seed=seed)
    if name == "bootstrap-auto":
        return stationary_bootstrap(_X().to_numpy(), 5, seed=seed)
    if name == "mu-set":
        m = BootstrapMuUncertaintySet(n_bootstrap_samples=20, seed=seed, diagonal=False)
        return m.fit(_X()).uncertainty_set_.sigma
    if name == "cov-set":
        m = BootstrapCovarianceUncertaintySet(n_bootstrap_samples=20, seed=seed, diagonal=False)
        return m.fit(_X()).uncertainty_set_.sigma
    if name == "synthetic":
        m = SyntheticData(
            distribution_estimator=sd.VineCopula(
                copula_candidates=[sd.GaussianCopula()], random_state=seed
            ),
            n_samples=30,
        )
        return m.fit(_X()).prior_model_.returns
    if name in ("vine", "vine-cond"):
        m = copy.copy(_fitted("vine"))
        m.random_state = seed
        return m.sample(8, conditioning={"A1": 0.004} if name == "vine-cond" else None)
    m = copy.copy(_fitted(name))
    m.random_state = seed
    return m.sample(9)


def _noise(name):
    from skfolio.optimization import Random
    from skfolio.utils.bootstrap import stationary_bootstrap
    from skfolio.utils.stats import rand_weights, rand_weights_dirichlet

    if name == "seed":
        np.random.seed(123)
    elif name == "rand":
        np.random.rand(3)
    elif name == "pyrandom":
        random.random()
    elif name == "rand_weights":
        rand_weights(4, zeros=1)
    elif name == "dirichlet":
        rand_weights_dirichlet(4)
    elif name == "random-model":
        Random().fit(_X())
    elif name == "bootstrap-free":
        stationary_bootstrap(_X().to_numpy(), 2, block_size=2.0)
    elif name == "sample-free":
        _fitted("Gaussian").sample(3)
    else:
        _do(name, 99)


def _globals():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), *s[2:]), random.getstate()


def _same(a, b):
    return a.shape == b.shape and np.array_equal(a, b)


def _ref(name, seed):
    np.random.seed(5)
    random.seed(5)
    return _do(name, seed)


def do_isolated(ctx, name, seed):
    for g in (0, 1, 2):
        np.random.seed(g)
        random.seed(g)
        before = _globals()
        first = _do(name, seed)
        ctx.expect(
            _globals() == before,
            "global-stream",
            lambda: f"{name} with seed {seed} changed the global random stream",
        )
        again = _do(name, seed)
        ctx.expect(
            _same(first, again), "repeat", lambda: f"{name} with seed {seed} differs when repeated"
        )
        other = _do(name, seed + 1)
        ctx.expect(
            first.shape == other.shape and not np.array_equal(first, other),
            "seed-ignored",
            lambda: f"{name}: seeds {seed} and {seed + 1} give the same",
        )
        ctx.expect(bool(np.isfinite(first).all()), "finite", lambda: f"{name}: {first}")
        ctx.state(name, seed, g)
        ctx.step(3)


def do_after(ctx, name, seed, first, full):
    ref = _ref(name, seed)
    for second in [None, *NOISE, *(SEEDED if full else [])]:
        np.random.seed(11)
        random.seed(11)
        _noise(first)
        if second is not None:
            _noise(second)
        got = _do(name, seed)
        ctx.expect(
            _same(ref, got),
            "interference",
            lambda: f"{name} with seed {seed} differs after {first}, {second}",
        )
        ctx.state(name, seed, first, second)
        ctx.step(3)


def do_instance(ctx, name):
    """A generator given instead of a seed is the only source of randomness."""
    if name in ("bootstrap", "bootstrap-auto", "mu-set", "cov-set"):
        return  # these take seeds only
    for seed in SEEDS:
        a = _do(name, seed)
        for g in (3, 4):
            np.random.seed(g)
            before = _globals()
            b = _do(name, np.random.RandomState(seed))
            ctx.expect(
                _same(a, b) and _globals() == before,
                "instance",
                lambda: f"{name}: seed {seed} and a generator with that seed differ",
            )
            ctx.state(name, seed, g)


def _rows(sample, X):
    """Row number of each resampled row, or None."""
    out = []
    for row in sample:
        hit = np.flatnonzero((X == row).all(axis=1))
        out.append(int(hit[0]) if len(hit) == 1 else None)
    return out


def do_blocks(ctx, n, seeds):
    from skfolio.utils.bootstrap import stationary_bootstrap

    X = returns(5, n, 2, scale=0.1) + np.arange(n)[:, None]
    keep = X.copy()
    for size in (1.0, 1.5, 2.0, 3.0, float(n), 50.0, 1e9):
        joined = broken = 0
        for seed in range(seeds):
            S = stationary_bootstrap(X, 6, block_size=size, seed=seed)
            ctx.expect(
                S.shape == (6, n, 2), "shape", lambda: f"{n} rows, blocks of {size}: {S.shape}"
            )
            for s in S:
                idx = _rows(s, X)
                ctx.expect(
                    None not in idx,
                    "rows",
                    lambda: f"{n} rows, blocks of {size}, seed {seed}: rows not in the data",
                )
                follow = [(b - a) % n == 1 for a, b in zip(idx, idx[1:])]
                joined += sum(follow)
                broken += len(follow) - sum(follow)
                if size >= 1e9:
                    ctx.expect(
                        all(follow),
                        "contiguous",
                        lambda: f"{n} rows in one block: {idx}",
                    )
            ctx.state(n, size, seed)
            ctx.step()
        # a new block starts with probability 1/size, and lands after the last row by chance
        p = 1 - (1 / size) * (1 - 1 / n)
        tot = joined + broken
        se = max(np.sqrt(p * (1 - p) / tot), 1e-9)
        ctx.expect(
            abs(joined / tot - p) <= 6 * se + 1e-6,
            "block-length",
            lambda: f"{n} rows, blocks of {size}: {joined} of {tot} rows follow the previous one, expected {p}",
        )
    ctx.expect(np.array_equal(X, keep), "input", "resampling changed its input")


def do_lengths(ctx, n, size, seeds):
    from skfolio.utils.bootstrap import stationary_bootstrap

    X = returns(6, n, 2, scale=0.1) + np.arange(n)[:, None]
    count = np.zeros(n)
    starts = np.zeros(n)
    for seed in range(seeds):
        for s in stationary_bootstrap(X, 20, block_size=size, seed=seed):
            idx = _rows(s, X)
            starts[idx[0]] += 1
            for i in idx:
                count[i] += 1
        ctx.state(n, size, seed)
    # every row, the first and the last included, is as likely as any other
    for c, what in ((starts, "starting"), (count, "resampled")):
        e = c.sum() / n
        tol = 6 * np.sqrt(e * (1 if what == "starting" else size + 1))
        ctx.expect(
            np.abs(c - e).max() <= tol,
            "uniform",
            lambda: f"{n} rows, blocks of {size}: {what} rows {c}, expected {e} each",
        )


def do_weights(ctx, n, seeds):
    from skfolio.optimization import Random
    from skfolio.utils.stats import rand_weights, rand_weights_dirichlet

    for seed in range(seeds):
        for zeros in range(n):
            np.random.seed(seed)
            w = rand_weights(n, zeros=zeros)
            np.random.seed(seed)
            v = rand_weights(n, zeros=zeros)
            ctx.expect(
                w.shape == (n,)
                and abs(w.sum() - 1) <= 1e-12
                and (w >= 0).all()
                and int((w == 0).sum()) == zeros
                and np.array_equal(w, v),
                "weights",
                lambda: f"{n} weights with {zeros} zeros: {w}, {v}",
            )
            ctx.state(n, zeros, seed)
        w = rand_weights_dirichlet(n)
        ctx.expect(
            w.shape == (n,) and abs(w.sum() - 1) <= 1e-12 and (w >= 0).all(),
            "weights",
            lambda: f"{n} weights: {w}",
        )
        w = Random().fit(frame(returns(1, 4, n))).weights_
        ctx.expect(
            w.shape == (n,) and abs(w.sum() - 1) <= 1e-12 and (w >= 0).all(),
            "weights",
            lambda: f"{n} weights of the random model: {w}",
        )


def do_set(ctx, kind, how, d):
    import skfolio.uncertainty_set as us
    from skfolio.moments import LedoitWolf
    from skfolio.prior import EmpiricalPrior
    from skfolio.utils.bootstrap import stationary_bootstrap

    cls = {
        ("mu", "empirical"): us.EmpiricalMuUncertaintySet,
        ("cov", "empirical"): us.EmpiricalCovarianceUncertaintySet,
        ("mu", "bootstrap"): us.BootstrapMuUncertaintySet,
        ("cov", "bootstrap"): us.BootstrapCovarianceUncertaintySet,
    }[kind, how]
    for n in (12, 30):
        X = _X(n, d)
        R = X.to_numpy()
        for level in (0.5, 0.8, 0.9, 0.95, 0.99):
            for diag in (True, False):
                for prior in (None, EmpiricalPrior(covariance_estimator=LedoitWolf())):
                    kw = dict(n_bootstrap_samples=60, block_size=3.0, seed=4) if how == "bootstrap" else {}
                    m = cls(confidence_level=level, diagonal=diag, prior_estimator=prior, **kw).fit(X)
                    u = m.uncertainty_set_
                    what = f"{how} {kind} set, {d} assets, {n} rows, level {level}, diagonal {diag}"
                    size = d if kind == "mu" else d * d
                    got = st.chi2.cdf(u.k**2, size)
                    ctx.expect(
                        u.sigma.shape == (size, size) and u.k > 0 and abs(got - level) <= 1e-9,
                        "size",
                        lambda: f"{what}: size {u.k} covers {got}, shape {u.sigma.shape}",
                    )
                    S = m.prior_estimator_.prior_model_.covariance
                    if how == "empirical":
                        if diag:
                            S = np.diag(np.diag(S))
                        if kind == "mu":
                            want = [S / n]
                        else:
                            K = np.zeros((size, size))
                            for i, j in itertools.product(range(d), repeat=2):
                                K[i * d + j, j * d + i] = 1
                            full = (np.eye(size) + K) @ np.kron(S, S)
                            want = [f / q for f in (full, np.diag(np.diag(full))) for q in (n, n - 1)]
                    else:
                        B = stationary_bootstrap(R, 60, block_size=3.0, seed=4)
                        if kind == "mu":
                            Z = B.mean(axis=1)
                        else:
                            Z = np.array([np.cov(b.T).T.reshape(-1) for b in B])
                        Z = Z - Z.mean(axis=0)
                        want = [Z.T @ Z / 59]
                        if diag:
                            want = [np.diag(np.diag(want[0]))]
                    ctx.expect(
                        any(np.allclose(u.sigma, w, rtol=1e-7, atol=1e-14) for w in want),
                        "shape",
                        lambda: f"{what}: shape matrix\n{u.sigma}\nexpected\n{want[0]}",
                    )
                    e = np.linalg.eigvalsh((u.sigma + u.sigma.T) / 2)
                    ctx.expect(
                        e.min() >= -1e-9 * e.max(), "convex", lambda: f"{what}: eigenvalues {e}"
                    )
                    ctx.state(kind, how, d, n, level, diag, prior is None)


def do_blocksize(ctx):
    """The automatic block length is finite, within its bounds and free of scale."""
    from skfolio.utils.bootstrap import optimal_block_size

    for n in (20, 50, 120):
        for rho in (-0.6, 0.0, 0.3, 0.6, 0.9):
            e = returns(9, n, 1, scale=1.0)[:, 0]
            x = np.zeros(n)
            for t in range(1, n):
                x[t] = rho * x[t - 1] + e[t]
            b = optimal_block_size(x)
            top = np.ceil(min(3 * np.sqrt(n), n / 3))
            ctx.expect(
                np.isfinite(b) and 0 < b <= top, "block-size", lambda: f"{n}, {rho}: {b}"
            )
            for k, c in ((10.0, 0.0), (1.0, 5.0), (-0.01, 1.0)):
                b2 = optimal_block_size(k * x + c)
                ctx.expect(
                    abs(b - b2) <= 1e-6 * b,
                    "block-scale",
                    lambda: f"{n}, {rho}: {b}, for {k} x + {c}: {b2}",
                )
            want = _politis_white(x)
            ctx.expect(
                abs(b - want) <= 1e-8 * max(b, 1e-9),
                "block-formula",
                lambda: f"{n}, {rho}: block length {b}, expected {want}",
            )
            ctx.state(n, rho)


def _politis_white(x):
    """Automatic block length of the stationary bootstrap (Patton, Politis, White 2009)."""
    n = len(x)
    e = [v - x.mean() for v in x]
    kn = max(5, int(np.log10(n)))
    m_max = int(np.ceil(np.sqrt(n))) + kn
    cut = 2 * np.sqrt(np.log10(n) / n)
    R, small = [], []
    for k in range(m_max + 1):
        cross = sum(e[t] * e[t - k] for t in range(k, n))
        R.append(cross / n)
        a = sum(e[t] ** 2 for t in range(k + 1, n))
        b = sum(e[t] ** 2 for t in range(0, n - k - 1))
        small.append(abs(cross) / np.sqrt(a * b) < cut)
    m_hat = None
    for i in range(kn, m_max + 1):
        if all(small[i - kn : i]):
            m_hat = i - kn
            break
    M = min(2 * max(m_hat, 1), m_max) if m_hat is not None else m_max

    def window(k):
        return 1.0 if k / M <= 0.5 else 2 * (1 - k / M)

    G = 2 * sum(window(k) * k * R[k] for k in range(1, M + 1))
    D = 2 * (R[0] + 2 * sum(window(k) * R[k] for k in range(1, M + 1))) ** 2
    return min((2 * G**2 / D) ** (1 / 3) * n ** (1 / 3), np.ceil(min(3 * np.sqrt(n), n / 3)))


def do_splits(ctx, model, cv):
    """Splits inside a model neither alter the splitter nor the global stream."""
    from sklearn.model_selection import KFold

    from skfolio.model_selection import CombinatorialPurgedCV, WalkForward
    from skfolio.optimization import (
        EqualWeighted,
        InverseVolatility,
        MeanRisk,
        NestedClustersOptimization,
        StackingOptimization,
    )

    def build():
        s = {
            "kfold": lambda: KFold(3),
            "purged": lambda: CombinatorialPurgedCV(4, 2),
            "walk": lambda: WalkForward(test_size=5, train_size=10),
            "number": lambda: 3,
        }[cv]()
        if model == "nco":
            return s, NestedClustersOptimization(
                inner_estimator=InverseVolatility(), outer_estimator=MeanRisk(), cv=s, n_jobs=1
            )
        return s, StackingOptimization(
            estimators=[("a", EqualWeighted()), ("b", InverseVolatility())],
            final_estimator=MeanRisk(),
            cv=s,
            n_jobs=1,
        )

    X = _X(30, 4)
    s, m = build()
    before = dict(vars(s)) if cv != "number" else None
    np.random.seed(3)
    stream = _globals()
    m.fit(X)
    w = m.weights_
    if cv != "number":
        ctx.expect(
            dict(vars(s)) == before,
            "splitter",
            lambda: f"{model}: splitter {before} became {vars(s)}",
        )
    ctx.expect(_globals() == stream, "global-stream", f"{model} with {cv}: global stream changed")
    ctx.expect(
        abs(w.sum() - 1) <= 1e-6, "weights", lambda: f"{model} with {cv}: weights {w}"
    )
    for g in (1, 2):
        np.random.seed(g)
        _, m2 = build()
        m2.fit(X)
        m.fit(X)
        ctx.expect(
            np.allclose(m2.weights_, w, atol=1e-9) and np.allclose(m.weights_, w, atol=1e-9),
            "repeat",
            lambda: f"{model} with {cv}: {w}, then {m2.weights_} and {m.weights_}",
        )
        ctx.state(model, cv, g)
    ctx.state(model, cv)
