"""C19: codependence, distance and clusters are well formed and mutually consistent."""

import itertools
import math

import numpy as np
import pandas as pd
from skfolio import cluster as cl
from skfolio import distance as di
from skfolio import moments as mo
from skfolio.distance import NBinsMethod
from skfolio.utils.stats import n_bins_freedman, n_bins_knuth

from mc.lib import returns

PROPERTY = "C19"
BOUNDS = {
    "quick": "distances: all pairs of varying columns of 4 rows over 3 values and of 5 rows over 2 values, all triples of 3 rows over 3 values, "
    "525 product designs, "
    "12 continuous data sets of 2..5 assets; 5 correlation distances x absolute x 4 powers, distance correlation, mutual information with "
    "2 bin rules and 3 bin counts, normalised or not; clusters: all 729 distance matrices of 4 points over 3 values and all 1024 of 5 "
    "points over 2 values x 7 linkages x all cluster limits",
    "thorough": "as quick with 5 rows over 3 values, and all distance matrices of 4 points over 5 values",
}
POWERS = [(a, p) for a in (False, True) for p in (1, 2, 3)] + [(True, 0.5), (True, 1.5)]
VALUES = (-0.1, 0.03, 0.27)


def columns(n, values):
    return [c for c in itertools.product(values, repeat=n) if len(set(c)) > 1]


def cases(tier):
    for n, values in [(4, VALUES), (5, VALUES[:2])] + ([(5, VALUES)] if tier != "quick" else []):
        cols = columns(n, values)
        for i in range(len(cols)):
            yield ["pairs", n, list(values), i]
    cols = columns(3, VALUES)
    for i in range(len(cols)):
        yield ["triples", i]
    for i in range(15):
        yield ["product", i]
    for seed in range(1, 13):
        yield ["continuous", seed, 2 + seed % 4]
    for link in cl.LinkageMethod:
        for i in range(27):
            yield ["points4", link.name, i]
        for i in range(32):
            yield ["points5", link.name, i]
        if tier != "quick":
            for i in range(125):
                yield ["points4wide", link.name, i]
        for seed in range(1, 4):
            for n in (2, 3, 6, 9, 12):
                yield ["cloud", link.name, seed, n]
    for link in cl.LinkageMethod:
        for groups in (5, 7, 8, 9):
            yield ["many", link.name, groups]
    for seed in range(1, 13):
        yield ["knuth", seed, 12 + 9 * seed]
    yield ["refused"]
    yield ["documented"]


def run_case(case, ctx):
    globals()["do_" + case[0]](ctx, *case[1:])
    ctx.trace()
    ctx.outcome(case[0])


def pearson(x, y):
    n = len(x)
    mx, my = sum(x) / n, sum(y) / n
    c = sum((a - mx) * (b - my) for a, b in zip(x, y, strict=True))
    return c / math.sqrt(sum((a - mx) ** 2 for a in x) * sum((b - my) ** 2 for b in y))


def ranks(x):
    return [sum(v < a for v in x) + (sum(v == a for v in x) + 1) / 2 for a in x]


def spearman(x, y):
    return pearson(ranks(x), ranks(y))


def sign(v):
    return (v > 0) - (v < 0)


def kendall(x, y):
    pairs = list(itertools.combinations(range(len(x)), 2))
    s = sum(sign(x[i] - x[j]) * sign(y[i] - y[j]) for i, j in pairs)
    return s / math.sqrt(sum(x[i] != x[j] for i, j in pairs) * sum(y[i] != y[j] for i, j in pairs))


def dcor(x, y):
    def centred(v):
        a = [[abs(p - q) for q in v] for p in v]
        n = len(v)
        m = [sum(r) / n for r in a]
        g = sum(m) / n
        return [[a[i][j] - m[i] - m[j] + g for j in range(n)] for i in range(n)]

    a, b = centred(x), centred(y)
    dot = lambda p, q: sum(u * v for r, s in zip(p, q, strict=True) for u, v in zip(r, s, strict=True))  # noqa: E731
    return math.sqrt(max(0.0, dot(a, b)) / math.sqrt(dot(a, a) * dot(b, b)))


def bins(x, n):
    """Cell of each value among n equal cells between the extremes."""
    lo, hi = min(x), max(x)
    edges = np.linspace(lo, hi, n + 1)
    return [min(n - 1, int(np.searchsorted(edges, v, side="right")) - 1) for v in x]


def entropy(labels):
    n = len(labels)
    counts = {}
    for v in labels:
        counts[v] = counts.get(v, 0) + 1
    return -sum(c / n * math.log(c / n) for c in counts.values())


def freedman(x):
    q1, q3 = np.percentile(x, [25, 75])
    d = 2 * (q3 - q1) / len(x) ** (1 / 3)
    return 5 if d == 0 else max(1, math.ceil((max(x) - min(x)) / d))


def mutual(x, y, n):
    a, b = bins(x, n), bins(y, n)
    hx, hy, hxy = entropy(a), entropy(b), entropy(list(zip(a, b, strict=True)))
    return hx, hy, hxy


def well_formed(ctx, what, m, k):
    c, d = m.codependence_, m.distance_
    for name, v in (("codependence", c), ("distance", d)):
        ctx.expect(v.shape == (k, k) and np.all(np.isfinite(v)), f"{name}-undefined", f"{what}: {v}")
        ctx.expect(np.allclose(v**2, (v**2).T, rtol=1e-9, atol=1e-12), f"{name}-asymmetric", f"{what}: {v}")
    ctx.expect(np.all(d >= 0), "distance-negative", f"{what}: {d}")
    ctx.expect(np.all(np.abs(np.diag(d)) < 1e-7), "distance-diagonal", f"{what}: {np.diag(d)}")


def transform(c, absolute, power):
    c = np.abs(c) if absolute else c
    c = c**power
    low = 0.0 if absolute or power % 2 == 0 else -1.0
    return c, np.sqrt(np.clip((1 - c) / (1 - low), 0, 1))


def check_distances(ctx, X, options=POWERS):
    k = X.shape[1]
    cols = [X[:, j].tolist() for j in range(k)]
    for M, f in ((di.PearsonDistance, pearson), (di.SpearmanDistance, spearman), (di.KendallDistance, kendall)):
        C = np.array([[1.0 if i == j else f(cols[i], cols[j]) for j in range(k)] for i in range(k)])
        for a, p in options:
            what = f"{M.__name__}(absolute={a}, power={p}) on {X.T.tolist()}"
            m = M(absolute=a, power=p).fit(X)
            ctx.step()
            well_formed(ctx, what, m, k)
            c, d = transform(C, a, p)
            ctx.expect(np.allclose(m.codependence_, c, atol=1e-7), "codependence-value", f"{what}: {m.codependence_} but {c}")
            ctx.expect(np.allclose(m.distance_**2, d**2, atol=1e-7), "distance-value", f"{what}: {m.distance_} but {d}")
    m = di.DistanceCorrelation().fit(X)
    well_formed(ctx, f"DistanceCorrelation on {X.T.tolist()}", m, k)
    C = np.array([[1.0 if i == j else dcor(cols[i], cols[j]) for j in range(k)] for i in range(k)])
    ctx.expect(np.allclose(m.codependence_**2, C**2, atol=1e-9), "codependence-value", f"DistanceCorrelation on {X.T.tolist()}: {m.codependence_} but {C}")
    ctx.expect(np.allclose(m.distance_**2, np.clip(1 - m.codependence_, 0, 1), atol=1e-9), "distance-value", f"DistanceCorrelation: {m.distance_}")
    ctx.step()
    check_mutual(ctx, X, cols, k)


def check_mutual(ctx, X, cols, k):
    for n_bins in (None, 2, 3, 7):
        for normalize in (True, False):
            what = f"MutualInformation(n_bins={n_bins}, normalize={normalize}) on {X.T.tolist()}"
            m = di.MutualInformation(n_bins=n_bins, normalize=normalize).fit(X)
            ctx.step()
            well_formed(ctx, what, m, k)
            for i in range(k):
                for j in range(k):
                    options = [n_bins] if n_bins else sorted({max(b, freedman(cols[i]), freedman(cols[j])) for b in (1, 2)})
                    ok = False
                    for b in options:
                        hx, hy, hxy = mutual(cols[i], cols[j], b)
                        mi = hx + hy - hxy
                        if normalize and min(hx, hy, hxy) <= 0:
                            continue
                        c = mi / min(hx, hy) if normalize else mi
                        d = (hx + hy - 2 * mi) / (hx + hy - mi) if normalize else hx + hy - 2 * mi
                        ok |= abs(m.codependence_[i, j] - c) < 1e-9 and abs(m.distance_[i, j] - max(0, d)) < 1e-9
                    ctx.expect(ok, "mutual-information-value", f"{what}: {m.codependence_[i, j]}, {m.distance_[i, j]} for columns {i}, {j}")


def do_pairs(ctx, n, values, i):
    cols = columns(n, values)
    for j in range(i, len(cols)):
        X = np.array([cols[i], cols[j]]).T
        ctx.state("pair", X.tolist())
        check_distances(ctx, X, POWERS if (i + j) % 4 == 0 else [(False, 1), (True, 1)])


def do_triples(ctx, i):
    cols = columns(3, VALUES)
    for j in range(0, len(cols), 3):
        for k in range((i + j) % 4, len(cols), 4):
            X = np.array([cols[i], cols[j], cols[k]]).T
            ctx.state("triple", X.tolist())
            check_distances(ctx, X, [(False, 1), (True, 2)])


def do_product(ctx, i):
    """Independent columns: every value of one with every value of the other."""
    values = (0.1, 0.2, 0.3, 0.7, 0.013, 0.31)
    a = list(itertools.combinations(values, 2))[i]
    for b in [*itertools.combinations(values, 2), *itertools.combinations(values, 3)]:
        X = np.array([[x, y] for x in a for y in b])
        ctx.state("product", a, b)
        check_distances(ctx, X, [(False, 1), (True, 2)])
        check_distances(ctx, np.vstack([X, X]), [(False, 1)])


COVS = {
    "default": (None, lambda: mo.GerberCovariance()),
    "empirical": (lambda: mo.EmpiricalCovariance(), lambda: mo.EmpiricalCovariance()),
    "ledoit": (lambda: mo.LedoitWolf(), lambda: mo.LedoitWolf()),
    "ew": (lambda: mo.EWCovariance(alpha=0.1), lambda: mo.EWCovariance(alpha=0.1)),
}


def do_continuous(ctx, seed, k):
    X = returns(seed, 20 + seed, k)
    if seed % 3 == 0:
        X[:, 1] = -2 * X[:, 0]
    if seed % 3 == 1:
        X[:, 1] = X[:, 0] ** 2
    ctx.state("continuous", seed, k)
    check_distances(ctx, X)
    for make, ref in COVS.values():
        cov = ref().fit(X).covariance_
        s = np.sqrt(np.diag(cov))
        for a, p in POWERS:
            m = di.CovarianceDistance(covariance_estimator=make and make(), absolute=a, power=p).fit(pd.DataFrame(X))
            ctx.step()
            well_formed(ctx, "CovarianceDistance", m, k)
            c, d = transform(cov / np.outer(s, s), a, p)
            ctx.expect(np.allclose(m.codependence_, c, atol=1e-9), "codependence-value", f"CovarianceDistance: {m.codependence_} but {c}")
            ctx.expect(np.allclose(m.distance_**2, d**2, atol=1e-9), "distance-value", f"CovarianceDistance: {m.distance_} but {d}")
    for normalize in (True, False):
        m = di.MutualInformation(n_bins_method=NBinsMethod.KNUTH, normalize=normalize).fit(X)
        well_formed(ctx, "MutualInformation Knuth", m, k)
        for i in range(k):
            for j in range(k):
                x, y = X[:, i].tolist(), X[:, j].tolist()
                ok = False
                for b in range(2, 40):
                    hx, hy, hxy = mutual(x, y, b)
                    mi = hx + hy - hxy
                    d = (hx + hy - 2 * mi) / (hx + hy - mi) if normalize else hx + hy - 2 * mi
                    c = mi / min(hx, hy) if normalize else mi
                    ok |= abs(m.distance_[i, j] - max(0, d)) < 1e-9 and abs(m.codependence_[i, j] - c) < 1e-9
                ctx.expect(ok, "mutual-information-value", f"Knuth: no bin count gives {m.distance_[i, j]}, {m.codependence_[i, j]}")


# ---------------------------------------------------------------- clusters


def merge(linkage_name, D, Z, ctx, what):
    """Replay the reported merges on the distances: each must join a closest pair."""
    n = len(D)
    squared = linkage_name in ("CENTROID", "MEDIAN", "WARD")
    d = {frozenset((i, j)): (D[i, j] ** 2 if squared else D[i, j]) for i in range(n) for j in range(i)}
    size = dict.fromkeys(range(n), 1)
    leaves = {i: frozenset([i]) for i in range(n)}
    states = []
    for step, (a, b, h, count) in enumerate(Z):
        a, b = int(a), int(b)
        ctx.expect(a in size and b in size and a != b, "merge-tree-invalid", f"{what}: {Z.tolist()}")
        low = min(d[frozenset(p)] for p in itertools.combinations(size, 2))
        here = d[frozenset((a, b))]
        ctx.expect(
            abs(here - low) < 1e-9 and abs((h**2 if squared else h) - here) < 1e-9,
            "merge-not-closest",
            f"{what}: merge {step} at {h}, distance {here}, closest {low}",
        )
        new = n + step
        na, nb = size.pop(a), size.pop(b)
        for c in size:
            ca, cb, nc = d[frozenset((c, a))], d[frozenset((c, b))], size[c]
            match linkage_name:
                case "SINGLE":
                    v = min(ca, cb)
                case "COMPLETE":
                    v = max(ca, cb)
                case "AVERAGE":
                    v = (na * ca + nb * cb) / (na + nb)
                case "WEIGHTED":
                    v = (ca + cb) / 2
                case "CENTROID":
                    v = (na * ca + nb * cb) / (na + nb) - na * nb * here / (na + nb) ** 2
                case "MEDIAN":
                    v = (ca + cb) / 2 - here / 4
                case "WARD":
                    v = ((na + nc) * ca + (nb + nc) * cb - nc * here) / (na + nb + nc)
            d[frozenset((c, new))] = v
        size[new] = na + nb
        leaves[new] = leaves[a] | leaves[b]
        ctx.expect(count == na + nb, "merge-tree-invalid", f"{what}: {Z.tolist()}")
        states.append([leaves[c] for c in size])
    return leaves, states


def dispersion(D, groups, documented):
    out = 0.0
    for g in groups:
        g = sorted(g)
        pairs = [D[i, j] for i, j in itertools.combinations(g, 2)]
        if pairs:
            out += sum(pairs) / len(g) if documented else sum(pairs) / len(pairs)
    return out


def best_counts(D, states, documented):
    """Numbers of clusters maximising the second difference of the dispersion."""
    n = len(D)
    if n < 3:
        return {1, 2}
    levels = [*reversed(states)]  # one cluster first
    levels.append([frozenset([i]) for i in range(n)])
    top = min(n, max(8, round(math.sqrt(n))))
    w = [dispersion(D, levels[k], documented) for k in range(top)]
    gap = [w[k + 2] + w[k] - 2 * w[k + 1] for k in range(top - 2)]
    best = max(gap)
    return {k + 2 for k, g in enumerate(gap) if g >= best - 1e-9}


def do_cluster_matrix(ctx, name, D):
    link = cl.LinkageMethod[name]
    n = len(D)
    first = None
    results = {}
    for limit in [*range(1, n + 2), None]:
        what = f"{name} limit {limit} on {D.tolist()}"
        m = cl.HierarchicalClustering(max_clusters=limit, linkage_method=link).fit(D)
        ctx.step()
        if first is None:
            first = m.linkage_matrix_
            leaves, states = merge(name, D, first, ctx, what)
            ctx.expect(np.allclose(m.condensed_distance_, D[np.triu_indices(n, 1)]), "condensed-distance", what)
        ctx.expect(np.array_equal(m.linkage_matrix_, first), "merge-tree-depends-on-limit", what)
        labels = m.labels_
        ctx.expect(labels.shape == (n,) and labels.dtype.kind == "i", "labels-shape", f"{what}: {labels}")
        k = len(set(labels.tolist()))
        ctx.expect(set(labels.tolist()) == set(range(k)) and k == m.n_clusters_, "labels-not-consecutive", f"{what}: {labels}, {m.n_clusters_}")
        if limit is not None:
            ctx.expect(k <= limit, "too-many-clusters", f"{what}: {labels}")
        branches = set(leaves.values())
        for c in range(k):
            ctx.expect(
                frozenset(np.flatnonzero(labels == c).tolist()) in branches, "cluster-not-a-branch", f"{what}: {labels} with merges {first.tolist()}"
            )
        results[limit] = labels
        heights = first[:, 2]
        if limit is not None and np.all(np.diff(heights) >= -1e-12):
            # the finest cut of the tree with at most `limit` clusters
            want = {
                max(p for p in [n] + [n - int((heights <= h + tie).sum()) for h in heights] if p <= limit) for tie in (0, 1e-9)
            }
            ctx.expect(k in want, "cluster-count", f"{what}: {k} clusters but {want} can be formed, merges {first.tolist()}")
    auto = results[None]
    if np.any(np.diff(first[:, 2]) < 1e-12):  # ties and inversions: the levels of the tree are not unique
        ctx.outcome("levels not unique")
        return
    if not any(np.array_equal(auto, results[c]) for c in best_counts(D, states, documented=True)):
        counts = best_counts(D, states, documented=False)
        ctx.expect(any(np.array_equal(auto, results[min(c, n)]) for c in counts), "automatic-count", f"{name} on {D.tolist()}: {auto} but {counts} clusters maximise the criterion")
        ctx.outcome("automatic count by mean distance")


def square(n, entries):
    D = np.zeros((n, n))
    D[np.triu_indices(n, 1)] = entries
    return D + D.T


def do_points4(ctx, name, i):
    head = list(itertools.product((1.0, 1.7, 3.0), repeat=3))[i]
    for tail in itertools.product((1.0, 1.7, 3.0), repeat=3):
        ctx.state("4", name, head, tail)
        do_cluster_matrix(ctx, name, square(4, head + tail))


def do_points4wide(ctx, name, i):
    values = (0.5, 1.0, 1.7, 3.0, 4.1)
    head = list(itertools.product(values, repeat=3))[i]
    for tail in itertools.product(values, repeat=3):
        ctx.state("4w", name, head, tail)
        do_cluster_matrix(ctx, name, square(4, head + tail))


def do_points5(ctx, name, i):
    head = list(itertools.product((1.0, 1.7), repeat=5))[i]
    for tail in itertools.product((1.0, 1.7), repeat=5):
        ctx.state("5", name, head, tail)
        do_cluster_matrix(ctx, name, square(5, head + tail))


def do_cloud(ctx, name, seed, n):
    X = returns(seed, 30, n)
    for M in (di.PearsonDistance, di.KendallDistance, di.DistanceCorrelation):
        ctx.state("cloud", name, seed, n, M.__name__)
        do_cluster_matrix(ctx, name, M().fit(X).distance_)


def do_many(ctx, name, groups):
    """Enough points for the largest number of clusters to depend on them."""
    size = 99 // groups
    at = returns(groups, groups * size, groups) / 2 + np.repeat(np.diag(1.2 ** np.arange(groups)), size, axis=0)
    D = np.sqrt(((at[:, None] - at[None]) ** 2).sum(axis=2))
    link = cl.LinkageMethod[name]
    m = cl.HierarchicalClustering(linkage_method=link).fit(D)
    ctx.state("many", name, groups)
    ctx.step()
    if np.any(np.diff(m.linkage_matrix_[:, 2]) < 1e-12):
        ctx.outcome("levels not unique")
        return
    _, states = merge(name, D, m.linkage_matrix_, ctx, f"{name} on {groups} groups")
    counts = best_counts(D, states, documented=True) | best_counts(D, states, documented=False)
    ctx.expect(m.n_clusters_ in counts, "automatic-count", f"{name}: {m.n_clusters_} clusters of {len(D)} points in {groups} groups but {counts} maximise the criterion")
    ctx.outcome(f"{m.n_clusters_} clusters")


def knuth(x, bins):
    """Logarithm of the posterior of the number of bins, up to a constant."""
    n = len(x)
    hist, _ = np.histogram(x, np.linspace(min(x), max(x), bins + 1))
    lg = math.lgamma
    return n * math.log(bins) + lg(bins / 2) - bins * lg(0.5) - lg(n + bins / 2) + sum(lg(h + 0.5) for h in hist)


def do_knuth(ctx, seed, n):
    """The automatic number of bins improves on the simple rule it starts from."""
    for k, x in enumerate(returns(seed, n, 3).T):
        x = x if k == 0 else np.sign(x) * np.abs(x) ** (k + 1)
        bins = n_bins_knuth(x)
        ctx.state("knuth", seed, k)
        ctx.step()
        start = n_bins_freedman(x)
        ctx.expect(bins >= 1, "bin-count", f"{bins} bins for {x.tolist()}")
        best = max(knuth(x, b) for b in range(max(1, bins - 1), bins + 2))
        ctx.expect(best >= knuth(x, start) - 1e-9, "knuth-bins", f"{bins} bins are less likely than {start} for {x.tolist()}")


def do_refused(ctx):
    good = square(4, (1, 2, 3, 4, 5, 6))
    bad = good.copy()
    bad[0, 1] = 9
    diagonal = good + np.eye(4)
    nan = good.copy()
    nan[0, 1] = nan[1, 0] = np.nan
    for D in (bad, diagonal, nan, good[:3]):
        for limit in (None, 2):
            ctx.state("refused", repr(D.tolist()), limit)
            ctx.step()
            try:
                m = cl.HierarchicalClustering(max_clusters=limit).fit(D)
            except ValueError:
                continue
            ctx.fail("bad-matrix-accepted", f"{D.tolist()}: {m.labels_}")


def do_documented(ctx):
    """The automatic number of clusters against the formula of the documentation."""
    for seed in range(1, 6):
        D = di.PearsonDistance().fit(returns(seed, 30, 9)).distance_
        m = cl.HierarchicalClustering().fit(D)
        _, states = merge("WARD", D, m.linkage_matrix_, ctx, "documented")
        ctx.state("documented", seed)
        ctx.step()
        ctx.expect(m.n_clusters_ in best_counts(D, states, documented=True), "documented-criterion", f"{m.n_clusters_} clusters")
