"""Vine copula samples follow the fitted density, conditioned or not."""

import itertools
import warnings

import numpy as np

from mc.lib import frame, names, returns

PROPERTY = "C26"
BOUNDS = {
    "quick": "3 assets: 6 families x 4 sign patterns x 3 strengths, all conditioning sets and kinds; 4 assets: 3 families x 8 sign patterns, depths 2-3; all call sequences of length 3 over 6 calls",
    "thorough": "as quick with every family for 4 assets and call sequences of length 4",
}
N = 20000
STR = [(0.7, 0.5, 0.3, 0.6), (0.3, 0.6, 0.7, 0.5), (0.5, 0.3, 0.6, 0.7)]
STR4 = [(0.55, 0.4, 0.3, 0.5), (0.3, 0.5, 0.55, 0.4), (0.4, 0.3, 0.5, 0.55)]
IRR = [0.6180339887, 0.4142135623, 0.7320508075, 0.2360679775]
FAMS3 = ["Gaussian", "StudentT", "Clayton", "Gumbel", "Joe", "mixed"]
CALLS = ["scoreA", "scoreB", "sample", "cond", "refused", "repr"]


def _signs(d):
    return [(1, *s) for s in itertools.product((1, -1), repeat=d - 1)]


def cases(tier):
    for fam in FAMS3:
        for s in _signs(3):
            for k in range(3):
                yield ["joint", 3, fam, s, k, None, []]
    fams4 = ["Clayton", "Gumbel", "mixed"] if tier == "quick" else FAMS3
    for fam in fams4:
        for i, s in enumerate(_signs(4)):
            for depth in (2, 3):
                for k in ((i + depth) % 2,) if tier == "quick" else (0, 1, 2):
                    central = [] if (i + depth + k) % 3 else [(i + k) % 4]
                    yield ["joint", 4, fam, s, k, depth, central]
    for fam in ("Gaussian", "Clayton", "mixed"):
        for s in ((1, 1, 1), (1, -1, 1), (1, 1, -1)):
            for r in (1, 2):
                for cs in itertools.combinations(range(3), r):
                    for kind in ("value", "bounds", "array"):
                        yield ["cond", 3, fam, s, 0, None, cs, kind, True]
                if r == 1:
                    for c in range(3):
                        yield ["cond", 3, fam, s, 1, None, [c], "value", False]
    for fam in ("Clayton",) if tier == "quick" else ("Clayton", "Gaussian", "Joe"):
        for s in ((1, 1, 1, 1), (1, -1, 1, -1)):
            for depth in (2, 3):
                for r in (1, 2, 3):
                    for cs in itertools.combinations(range(4), r):
                        yield ["cond", 4, fam, s, 0, depth, cs, "value", True]
    yield ["noncentral"]
    for fam in ("Gaussian", "Clayton", "mixed"):
        for log in ("no", "all", "some"):
            yield ["margins", fam, log]
            for kind in ("value", "bounds", "array", "open"):
                yield ["margcond", fam, log, kind]
    yield ["openbounds"]
    yield ["order"]
    yield ["refuse"]
    yield ["params"]
    n = 3 if tier == "quick" else 4
    for d in (3, 4):
        for first in CALLS:
            for second in CALLS:
                yield ["history", d, n, [first, second]]


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + case[0]](ctx, *case[1:])
    ctx.trace()
    ctx.outcome(case[0])


def _str(d, k):
    return STR[k][:3] if d == 3 else STR4[k]


def _data(signs, strength, n=60):
    """Pseudo-observations of a one-factor Clayton dependence with given signs."""
    import skfolio.distribution as sd

    k = np.arange(n)
    f = (k + 0.5) / n
    cols = []
    for j, (s, t) in enumerate(zip(signs, strength)):
        w = (k * IRR[j] + 0.13 * j + 0.37) % 1
        th = 2 * t / (1 - t)
        v = (1 + f**-th * (w ** (-th / (th + 1)) - 1)) ** (-1 / th)
        cols.append(v if s > 0 else 1 - v)
    return sd.compute_pseudo_observations(np.column_stack(cols))


def _vine(fam, **kw):
    import skfolio.distribution as sd

    if fam != "mixed":
        kw["copula_candidates"] = [getattr(sd, fam + "Copula")()]
        kw.setdefault("independence_level", 1.1)
    return sd.VineCopula(**kw)


def _nodes(B, q, lo=0.0, hi=1.0):
    # nodes of each box crowd towards its ends, where densities peak
    gx, gw = np.polynomial.legendre.leggauss(q)
    w = (hi - lo) / B
    t = (gx + 1) / 2
    s, ds = t**3 * (10 - 15 * t + 6 * t**2), 30 * t**2 * (1 - t) ** 2
    x = np.concatenate([lo + (s + b) * w for b in range(B)])
    return np.clip(x, 1e-9, 1 - 1e-9), np.tile(gw / 2 * ds * w, B)


def _boxes(density, d, B, q, fixed=None, ranges=None):
    """Probabilities of the B^k boxes of the free coordinates under the density."""
    fixed, ranges = fixed or {}, ranges or {}
    free = [i for i in range(d) if i not in fixed]
    xs, ws = zip(*[_nodes(B, q, *ranges.get(i, (0.0, 1.0))) for i in free])
    k = len(free)
    G = np.stack(np.meshgrid(*xs, indexing="ij"), -1).reshape(-1, k)
    F = np.zeros((len(G), d))
    F[:, free] = G
    for i, v in fixed.items():
        F[:, i] = v
    W = np.prod(np.stack(np.meshgrid(*ws, indexing="ij"), -1), -1)
    shape = [B, q] * k
    f = density(F).reshape(shape) * W.reshape(shape)
    return f.sum(axis=tuple(range(1, 2 * k, 2)))


def _hist(S, free, B, ranges=None):
    ranges = ranges or {}
    edges = [np.linspace(*ranges.get(i, (0.0, 1.0)), B + 1) for i in free]
    return np.histogramdd(S[:, free], bins=edges)[0] / len(S)


def _compare(ctx, P, H, tol, key, what):
    tot = P.sum()
    ctx.expect(
        abs(tot - 1) <= 0.04,
        key + "-total",
        lambda: f"{what}: density integrates to {tot}",
    )
    e = np.abs(P / tot - H)
    ctx.expect(
        e.max() <= tol,
        key,
        lambda: f"{what}: samples off by {e.max()} in box {np.unravel_index(e.argmax(), e.shape)}",
    )


def do_joint(ctx, d, fam, signs, k, depth, central):
    X = _data(signs, _str(d, k))
    m = _vine(
        fam,
        fit_marginals=False,
        random_state=5,
        max_depth=depth,
        central_assets=central or None,
    ).fit(X)
    what = f"{fam} vine, signs {signs}, strengths {_str(d, k)}, depth {depth}, central {central}"
    ctx.expect(
        len(m.trees_) == min(depth or d, d - 1),
        "depth",
        lambda: f"{what}: {len(m.trees_)} trees",
    )
    B, q = (4, 12) if d == 3 else (3, 13 if fam != "Joe" else 17)
    P = _boxes(lambda F: np.exp(m.score_samples(F)), d, B, q)
    S = m.sample(N)
    ctx.expect(
        S.shape == (N, d) and np.all((S > 0) & (S < 1)), "shape", lambda: f"{what}: {S.shape}"
    )
    ctx.state(d, fam, signs, k, depth)
    _compare(ctx, P, _hist(S, list(range(d)), B), 0.021, "joint", what)
    for j in range(d):
        F = np.array([(S[:, j] <= a).mean() for a in (0.1, 0.3, 0.5, 0.7, 0.9)])
        ctx.expect(
            np.all(np.abs(F - [0.1, 0.3, 0.5, 0.7, 0.9]) <= 0.02),
            "margin",
            lambda: f"{what}: margin {j} of the samples is not uniform: {F}",
        )
    ctx.step(2)


def do_cond(ctx, d, fam, signs, k, depth, cs, kind, central):
    X = _data(signs, _str(d, k))
    m = _vine(
        fam,
        fit_marginals=False,
        random_state=5,
        max_depth=depth,
        central_assets=list(cs) if central else None,
    ).fit(X)
    what = f"{fam} vine, signs {signs}, depth {depth}, given {cs} by {kind}"
    vals = dict(zip(cs, (0.2, 0.85, 0.4)))
    free = [i for i in range(d) if i not in cs]
    B, q = (4, 12) if len(free) < 3 else (3, 10)

    def dens(F):
        return np.exp(m.score_samples(F))

    if kind == "value":
        S = m.sample(N, conditioning=dict(vals))
        for c, v in vals.items():
            ctx.expect(
                np.all(S[:, c] == v), "honoured", lambda: f"{what}: {c} is not {v}"
            )
        P = _boxes(dens, d, B, q, fixed=vals)
        P = P / P.sum()
        _compare(ctx, P, _hist(S, free, B), 0.03, "conditional", what)
    elif kind == "array":
        # two halves, each conditioned on its own values
        half = N // 2
        v2 = dict(zip(cs, (0.7, 0.3, 0.9)))
        cond = {c: np.r_[np.full(half, vals[c]), np.full(half, v2[c])] for c in cs}
        keep = {c: a.copy() for c, a in cond.items()}
        S = m.sample(N, conditioning=cond)
        for c in cs:
            ctx.expect(
                np.array_equal(S[:, c], keep[c]) and np.array_equal(cond[c], keep[c]),
                "honoured",
                lambda: f"{what}: values of {c} not kept",
            )
        for part, v in ((S[:half], vals), (S[half:], v2)):
            P = _boxes(dens, d, B, q, fixed=v)
            P = P / P.sum()
            _compare(ctx, P, _hist(part, free, B), 0.04, "conditional", f"{what} {v}")
    else:
        lo, hi = 0.1, 0.35
        rng = {c: (lo, hi) for c in cs}
        S = m.sample(N, conditioning={c: (lo, hi) for c in cs})
        for c in cs:
            ctx.expect(
                np.all((S[:, c] >= lo) & (S[:, c] <= hi)),
                "honoured",
                lambda: f"{what}: {c} outside ({lo}, {hi})",
            )
        if len(cs) > 1:
            return  # the joint law inside the bounds is not documented
        P = _boxes(dens, d, B, 10, ranges=rng)
        P = P / P.sum()
        _compare(ctx, P, _hist(S, list(range(d)), B, rng), 0.03, "conditional", what)
    ctx.state(d, fam, signs, depth, tuple(cs), kind)
    ctx.step()


def do_noncentral(ctx):
    """Conditioning on several assets none of which was declared central."""
    X = _data((1, 1, 1), STR[0][:3])
    m = _vine("Gaussian", fit_marginals=False, random_state=5).fit(X)
    worst = 0.0
    for cs in itertools.combinations(range(3), 2):
        vals = dict(zip(cs, (0.2, 0.85)))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            S = m.sample(N, conditioning=vals)
        ctx.expect(
            any("central" in str(x.message) for x in w),
            "central-warning",
            lambda: f"no warning when {cs} are not central",
        )
        P = _boxes(lambda F: np.exp(m.score_samples(F)), 3, 4, 12, fixed=vals)
        P = P / P.sum()
        free = [i for i in range(3) if i not in cs]
        worst = max(worst, np.abs(P - _hist(S, free, 4)).max())
        ctx.state(cs)
    ctx.expect(
        worst <= 0.03,
        "noncentral-conditioning",
        lambda: f"conditioning on two assets that are not central is off by {worst}",
    )


def _market(n=80, scale=0.02):
    R = returns(11, n, 3, scale=scale)
    R[:, 2] -= 1.3 * R[:, 0]
    R[:, 1] += 0.6 * R[:, 0]
    return frame(R)


def _log(kind):
    return {"no": False, "all": True, "some": {"A1": True}}[kind]


def _copula_density(m, logs):
    """Density of the dependence, from the density of the data."""
    dists = m.marginal_distributions_

    def f(U):
        Z = np.column_stack([d.ppf(U[:, [i]])[:, 0] for i, d in enumerate(dists)])
        R = np.where(logs, np.expm1(Z), Z)
        lp = sum(d.score_samples(Z[:, [i]]) for i, d in enumerate(dists))
        return np.exp(m.score_samples(R) - lp)

    return f


def do_margins(ctx, fam, log):
    X = _market(scale=0.02 if log == "no" else 0.12)
    m = _vine(fam, random_state=5, log_transform=_log(log)).fit(X)
    logs = np.array([log == "all" or (log == "some" and i == 1) for i in range(3)])
    what = f"{fam} vine on returns, log {log}"
    S = m.sample(N)
    Z = np.where(logs, np.log1p(S), S)
    U = np.column_stack(
        [d.cdf(Z[:, [i]])[:, 0] for i, d in enumerate(m.marginal_distributions_)]
    )
    for j in range(3):
        F = np.array([(U[:, j] <= a).mean() for a in (0.1, 0.3, 0.5, 0.7, 0.9)])
        ctx.expect(
            np.all(np.abs(F - [0.1, 0.3, 0.5, 0.7, 0.9]) <= 0.02),
            "margin",
            lambda: f"{what}: margin {j} does not follow its distribution: {F}",
        )
    P = _boxes(_copula_density(m, logs), 3, 4, 16)
    _compare(ctx, P, _hist(U, [0, 1, 2], 4), 0.021, "joint", what)
    # the fitted margins are those of each column alone
    import skfolio.distribution as sd

    for j, d in enumerate(m.marginal_distributions_):
        x = X.to_numpy()[:, [j]]
        ref = sd.select_univariate_dist(np.log1p(x) if logs[j] else x)
        ctx.expect(
            type(ref) is type(d)
            and np.allclose(
                ref.ppf(np.array([0.1, 0.5, 0.9])), d.ppf(np.array([0.1, 0.5, 0.9])), rtol=1e-6
            ),
            "margin-fit",
            lambda: f"{what}: margin {j} is {d.fitted_repr}, alone {ref.fitted_repr}",
        )
    s = m.score(X)
    ctx.expect(
        abs(s - m.score_samples(X).sum()) <= 1e-8
        and abs(m.aic(X) - (2 * m.n_params - 2 * s)) <= 1e-6,
        "score",
        lambda: f"{what}: score {s}, aic {m.aic(X)}",
    )
    ctx.state(fam, log)


def do_margcond(ctx, fam, log, kind):
    # returns large enough for their logarithms to differ
    X = _market(scale=0.02 if log == "no" else 0.12)
    m = _vine(
        fam, random_state=5, log_transform=_log(log), central_assets=["A1"]
    ).fit(X)
    logs = np.array([log == "all" or (log == "some" and i == 1) for i in range(3)])
    what = f"{fam} vine on returns, log {log}, conditioned by {kind}"
    sd1 = float(X["A1"].std())
    dist = m.marginal_distributions_[1]

    def u(x):
        return float(dist.cdf(np.array([[np.log1p(x) if logs[1] else x]]))[0, 0])

    ranges, fixed = {}, {}
    if kind == "value":
        v = -1.2 * sd1
        S = m.sample(N, conditioning={"A1": v})
        ok = np.all(S[:, 1] == v)
        fixed = {1: u(v)}
    elif kind == "array":
        v, other = 0.8 * sd1, -0.9 * sd1
        values = np.where(np.arange(N) % 3 < 2, v, other)
        S = m.sample(N, conditioning={1: values})
        ok = np.array_equal(S[:, 1], values)
        # each sample follows from its own value
        S = S[values == v]
        fixed = {1: u(v)}
    elif kind == "bounds":
        lo, hi = -sd1, 0.9 * sd1
        S = m.sample(N, conditioning={"A1": (lo, hi)})
        ok = np.all((S[:, 1] >= lo) & (S[:, 1] <= hi))
        ranges = {1: (u(lo), u(hi))}
    else:
        lo = 0.2 * sd1
        S = m.sample(N, conditioning={"A1": (lo, np.inf)})
        S2 = m.sample(N, conditioning={"A1": (lo, None)})
        ok = np.all(S[:, 1] >= lo) and np.array_equal(S, S2)
        ranges = {1: (u(lo), 1.0)}
    ctx.expect(bool(ok), "honoured", lambda: f"{what}: condition not honoured")
    Z = np.where(logs, np.log1p(S), S)
    U = np.column_stack(
        [d.cdf(Z[:, [i]])[:, 0] for i, d in enumerate(m.marginal_distributions_)]
    )
    for i, (a, b) in ranges.items():
        # inside its bounds the asset follows its own margin right up to their ends
        H = np.histogram((U[:, i] - a) / (b - a), bins=np.array([-1e-6, 0.02, 0.5, 0.98, 1 + 1e-6]))[0] / len(U)
        ctx.expect(
            np.all(np.abs(H - [0.02, 0.48, 0.48, 0.02]) <= [0.008, 0.02, 0.02, 0.008]) and len(np.unique(S[:, i])) > 0.99 * len(S),
            "within-bounds",
            lambda: f"{what}: parts of the interval hold {H} of the samples",
        )
    P = _boxes(_copula_density(m, logs), 3, 4, 12, fixed=fixed, ranges=ranges)
    P = P / P.sum()
    free = [0, 2] if fixed else [0, 1, 2]
    _compare(ctx, P, _hist(U, free, 4, ranges), 0.03, "conditional", what)
    ctx.state(fam, log, kind)


def do_openbounds(ctx):
    X = _data((1, -1, 1), STR[0][:3])
    m = _vine("Clayton", fit_marginals=False, random_state=5, central_assets=[1]).fit(X)
    for b, (lo, hi) in (
        ((-np.inf, 0.3), (0.0, 0.3)),
        ((0.6, np.inf), (0.6, 1.0)),
        ((None, 0.5), (0.0, 0.5)),
        ((0.5, None), (0.5, 1.0)),
    ):
        S = m.sample(N, conditioning={1: b})
        ctx.expect(
            np.all((S[:, 1] >= lo) & (S[:, 1] <= hi)),
            "honoured",
            lambda: f"bounds {b}: {S[:, 1].min()}..{S[:, 1].max()}",
        )
        r = {1: (lo, hi)}
        P = _boxes(lambda F: np.exp(m.score_samples(F)), 3, 4, 10, ranges=r)
        P = P / P.sum()
        _compare(ctx, P, _hist(S, [0, 1, 2], 4, r), 0.03, "conditional", f"bounds {b}")
        ctx.state(str(b))


def do_order(ctx):
    """The order conditions are listed in does not matter."""
    X = _data((1, -1, 1, 1), STR[1])
    for cs in itertools.permutations(range(4), 2):
        m = _vine(
            "Clayton", fit_marginals=False, random_state=5, central_assets=sorted(cs)
        ).fit(X)
        vals = {0: 0.3, 1: 0.6, 2: 0.15, 3: 0.8}
        a = m.sample(500, conditioning={c: vals[c] for c in cs})
        b = m.sample(500, conditioning={c: vals[c] for c in reversed(cs)})
        ctx.expect(
            np.allclose(a, b), "order", lambda: f"conditions {cs}: order matters"
        )
        ctx.state(cs)


def do_refuse(ctx):
    import skfolio.distribution as sd

    X = _data((1, -1, 1), STR[0][:3])
    m = _vine("Gaussian", fit_marginals=False, random_state=5).fit(X)
    bad = {
        "two assets": lambda: _vine("Gaussian", fit_marginals=False).fit(X[:, :2]),
        "depth one": lambda: _vine("Gaussian", fit_marginals=False, max_depth=1).fit(X),
        "not uniform": lambda: _vine("Gaussian", fit_marginals=False).fit(X * 3 - 1),
        "all conditioned": lambda: m.sample(3, conditioning={0: 0.1, 1: 0.2, 2: 0.3}),
        "unknown asset": lambda: m.sample(3, conditioning={7: 0.1}),
        "not a mapping": lambda: m.sample(3, conditioning=[0.1]),
        "reversed bounds": lambda: m.sample(3, conditioning={0: (0.5, 0.2)}),
        "equal bounds": lambda: m.sample(3, conditioning={0: (0.5, 0.5)}),
        "three bounds": lambda: m.sample(3, conditioning={0: (0.1, 0.2, 0.3)}),
        "wrong length": lambda: m.sample(3, conditioning={0: [0.1, 0.2]}),
        "text": lambda: m.sample(3, conditioning={0: "a"}),
        "other columns": lambda: m.score_samples(X[:, :2]),
    }
    for name, fn in bad.items():
        try:
            fn()
            ctx.fail("refusal", f"{name}: accepted")
        except ValueError:
            pass
        ctx.state(name)
    assert sd


def do_params(ctx):
    """Number of parameters and structure of the trees."""
    for fam in FAMS3:
        for depth in (2, 3):
            X = _data((1, -1, 1, 1), STR[0])
            m = _vine(fam, fit_marginals=False, max_depth=depth).fit(X)
            k = 0
            for lev, t in enumerate(m.trees_):
                ctx.expect(
                    len(t.edges) == 3 - lev,
                    "edges",
                    lambda: f"{fam}: tree {lev} has {len(t.edges)} edges",
                )
                for e in t.edges:
                    k += e.copula.n_params
                    cs = e.cond_sets
                    ctx.expect(
                        len(cs.conditioning) == lev
                        and len(set(cs.conditioned)) == 2
                        and not set(cs.conditioned) & cs.conditioning,
                        "sets",
                        lambda: f"{fam}: edge {cs} in tree {lev}",
                    )
            pairs = [frozenset(e.cond_sets.conditioned) for t in m.trees_ for e in t.edges]
            ctx.expect(
                len(set(pairs)) == len(pairs), "pairs", lambda: f"{fam}: repeated pairs {pairs}"
            )
            ctx.expect(m.n_params == k, "n-params", lambda: f"{fam}: {m.n_params} not {k}")
            ctx.state(fam, depth)
    # first tree is the maximum spanning tree of rank correlation
    import scipy.stats as st

    for s in _signs(4):
        for strength in STR:
            X = _data(s, strength)
            m = _vine("Gaussian", fit_marginals=False).fit(X)
            w = {
                (i, j): abs(st.kendalltau(X[:, i], X[:, j]).statistic)
                for i, j in itertools.combinations(range(4), 2)
            }
            best = max(
                sum(w[e] for e in t)
                for t in itertools.combinations(w, 3)
                if _spanning(t)
            )
            got = sum(w[tuple(sorted(e.cond_sets.conditioned))] for e in m.trees_[0].edges)
            ctx.expect(
                abs(best - got) <= 1e-9,
                "spanning",
                lambda: f"signs {s}: first tree has dependence {got}, best {best}",
            )
            for c in range(4):
                m = _vine("Gaussian", fit_marginals=False, central_assets=[c]).fit(X)
                ctx.expect(
                    all(c in e.cond_sets.conditioned for e in m.trees_[0].edges),
                    "central",
                    lambda: f"signs {s}: asset {c} is not at the centre of the first tree",
                )


def _spanning(edges):
    comp = {i: i for i in range(4)}
    for a, b in edges:
        ca, cb = comp[a], comp[b]
        if ca == cb:
            return False
        comp = {k: (ca if v == cb else v) for k, v in comp.items()}
    return True


def _fresh(d):
    X = _data((1, -1, 1, 1)[:d], STR[0][:d], n=30)
    return _vine(
        "Clayton", fit_marginals=False, random_state=3, max_depth=2, central_assets=[1]
    ).fit(X)


_BASE = {}


def _call(m, name, d):
    if name == "scoreA":
        return m.score_samples(_data((1, -1, 1, 1)[:d], STR[1][:d], n=9))
    if name == "scoreB":
        return m.score_samples(_data((1, 1, -1, 1)[:d], STR[2][:d], n=5))
    if name == "sample":
        return m.sample(6)
    if name == "cond":
        return m.sample(4, conditioning={1: 0.3})
    if name == "refused":
        try:
            m.sample(3, conditioning={1: np.array([0.1, 2.0, 0.3])})
        except ValueError:
            return "refused"
        return "accepted"
    return m.fitted_repr


def do_history(ctx, d, n, prefix):
    import copy

    base = _BASE.get(d)
    if base is None:
        m0 = _fresh(d)
        ref = {c: _call(copy.deepcopy(m0), c, d) for c in CALLS}
        base = _BASE[d] = (m0, ref)
    m0, ref = base
    for rest in itertools.product(CALLS, repeat=n - len(prefix)):
        m = copy.deepcopy(m0)
        seq = [*prefix, *rest]
        for i, c in enumerate(seq):
            got = _call(m, c, d)
            ctx.step()
            same = (
                got == ref[c]
                if isinstance(got, str)
                else got.shape == ref[c].shape and np.allclose(got, ref[c], rtol=1e-9)
            )
            ctx.expect(
                bool(same),
                "history",
                lambda: f"{d} assets: {c} after {seq[:i]} differs from a fresh model",
            )
        ctx.state(d, tuple(seq))
