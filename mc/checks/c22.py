"""C22: pre-selection keeps exactly the qualifying assets."""

import datetime as dt
import itertools
import math
import warnings

import numpy as np
import pandas as pd
import sklearn
from skfolio import PerfMeasure, Portfolio, RatioMeasure, RiskMeasure
from skfolio import pre_selection as ps
from skfolio.measures import ExtraRiskMeasure
from skfolio.optimization import EqualWeighted
from sklearn.pipeline import Pipeline, make_pipeline

from mc.lib import close, dates, frame, names, returns

PROPERTY = "C22"
BOUNDS = {
    "quick": "missing values: all patterns of 4 rows x 3 assets and 6 rows x 2 assets; expiry: all assignments of 6 dates or none to 3 assets x "
    "7 look-aheads x naive and zoned dates; variance: all pairs of columns of 4 rows over 3 values x 6 thresholds met exactly or not; "
    "correlation: all triples of columns of 3 rows over 3 values and data sets of 1..7 assets x 11 thresholds x absolute; best or worst: all "
    "measures x k 1..n+1 x both directions, and all triples of columns of 3 rows over 3 values; fronts: data sets of 1..7 assets x 6 minimum "
    "sizes x 5 thresholds x 6 fitness sets; all ordered pairs of steps in pipelines",
    "thorough": "as quick with 5 rows x 3 assets of missing values and more data sets",
}
VALUES = (-0.125, 0.0625, 0.25)
MEASURES = [
    *[m for m in PerfMeasure],
    *[m for m in RiskMeasure],
    *[m for m in ExtraRiskMeasure],
    *[m for m in RatioMeasure],
]


def cases(tier):
    for first in range(16):
        yield ["complete", 4, 3, first]
    for first in range(64):
        yield ["complete", 6, 2, first]
    if tier != "quick":
        for first in range(32):
            yield ["complete", 5, 3, first]
    for i in range(7):
        yield ["expiring", i, False]
        yield ["expiring", i, True]
    for i in range(81):
        yield ["variance", i]
    for i in range(27):
        yield ["corr3", i]
    seeds = range(1, 5) if tier == "quick" else range(1, 21)
    for seed in seeds:
        for k in range(1, 8):
            yield ["corr", seed, k]
            yield ["fronts", seed, k]
        for k in (1, 2, 3, 5):
            for m in range(len(MEASURES)):
                yield ["extremes", seed, k, m]
    for i in range(27):
        yield ["ext3", i]
    for a, b in itertools.permutations(range(6), 2):
        yield ["pipeline", a, b]
    yield ["refused"]


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + case[0]](ctx, *case[1:])
    ctx.trace()
    ctx.outcome(case[0])


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def verify(ctx, key, step, x, keep, note="", frames=True):
    """The step keeps the columns of the mask `keep` as they are, by array and by table."""
    keep = np.asarray(keep, dtype=bool)
    a = np.asarray(x, dtype=float)
    kinds = [x] if isinstance(x, pd.DataFrame) else ([a, pd.DataFrame(a, index=dates(len(a)), columns=names(a.shape[1]))] if frames else [a])
    for given in kinds:
        before = np.array(given, dtype=float)
        m = sklearn.clone(step).fit(given)
        ctx.step()
        text = lambda: f"{step} {note} on {before.tolist()}"  # noqa: E731
        got = np.asarray(m.get_support())
        ctx.expect(
            got.dtype == bool and np.array_equal(got, keep),
            f"{key}-rule",
            lambda: f"{text()}: keeps {got.astype(int).tolist()} instead of {keep.astype(int).tolist()}",
        )
        ctx.expect(np.array_equal(np.asarray(m.to_keep_), keep), f"{key}-mask", lambda: f"{text()}: to_keep_ {m.to_keep_}")
        ctx.expect(np.array_equal(m.get_support(indices=True), np.flatnonzero(keep)), f"{key}-indices", lambda: f"{text()}: {m.get_support(indices=True)}")
        if keep.any():
            out = np.asarray(m.transform(given), dtype=float)
            ctx.expect(same(out, before[:, keep]), f"{key}-values", lambda: f"{text()}: transformed into {out.tolist()}")
        ctx.expect(same(np.array(given, dtype=float), before), f"{key}-input", lambda: f"{text()}: input modified")
        if isinstance(given, pd.DataFrame) and keep.any():
            cols = [c for c, w in zip(given.columns, keep, strict=True) if w]
            ctx.expect(list(m.get_feature_names_out()) == cols, f"{key}-names", lambda: f"{text()}: names {m.get_feature_names_out()}")
            # a later table with the same assets, in pandas form
            later = given + 1.0
            out = sklearn.clone(step).set_output(transform="pandas").fit(given).transform(later)
            ctx.expect(
                isinstance(out, pd.DataFrame) and list(out.columns) == cols and out.index.equals(later.index) and same(out.to_numpy(), later[cols].to_numpy()),
                f"{key}-later",
                lambda: f"{text()}: later table gives {out}",
            )


def do_complete(ctx, n, k, first):
    masks = list(itertools.product((False, True), repeat=n))
    base = np.arange(1, n * k + 1, dtype=float).reshape(n, k)
    for rest in itertools.product(masks, repeat=k - 1):
        gaps = np.array([masks[first], *rest]).T
        if gaps.all():
            continue
        x = np.where(gaps, np.nan, base)
        ctx.state((n, k, first, rest))
        whole = [not gaps[:, j].any() for j in range(k)]
        ends = [not gaps[0, j] and not gaps[-1, j] for j in range(k)]
        quick = sum(map(sum, rest)) % 5 == 0
        verify(ctx, "complete", ps.SelectComplete(), x, ends, frames=quick)
        verify(ctx, "complete-internal", ps.SelectComplete(drop_assets_with_internal_nan=True), x, whole, frames=quick)


LOOKAHEADS = [
    (pd.DateOffset(days=5), 5),
    (dt.timedelta(days=5), 5),
    (pd.offsets.Day(0), 0),
    (pd.DateOffset(months=1), 31),
    (pd.offsets.BDay(2), 4),
    (pd.Timedelta(days=1, hours=12), 1.5),
    (dt.timedelta(days=-1), -1),
]


def do_expiring(ctx, i, zoned):
    look, days = LOOKAHEADS[i]
    # the table ends on Friday 2023-01-06
    index = pd.date_range("2023-01-02", periods=5, freq="D", tz="Europe/Paris" if zoned else None)
    end = index[-1]
    x = pd.DataFrame(np.arange(15.0).reshape(5, 3), index=index, columns=names(3))
    x.iloc[1, 2] = np.nan
    cut = end + pd.Timedelta(days=days)
    second = pd.Timedelta(seconds=1)
    options = [None, cut - second, cut, cut + second, end, index[0], cut + pd.Timedelta(days=400)]
    for choice in itertools.product(range(len(options)), repeat=3):
        expiry = {}
        for j, c in enumerate(choice):
            if options[c] is not None:
                expiry[f"A{j}"] = options[c] if (j + c) % 2 else options[c].to_pydatetime()
        expiry["unrelated"] = index[0]
        ctx.state((i, zoned, choice))
        keep = [options[c] is None or options[c] > cut for c in choice]
        verify(ctx, "expiring", ps.SelectNonExpiring(expiration_dates=expiry, expiration_lookahead=look), x, keep, f"({expiry})")


def do_variance(ctx, i):
    cols = list(itertools.product(VALUES, repeat=4))
    for j, c in enumerate(cols):
        x = np.array([cols[i], c, (0.0, 0.25, 0.0, 0.25)]).T
        # exact: all values are dyadic
        var = [sum((v - sum(col) / 4) ** 2 for v in col) / 4 for col in x.T]
        ctx.state((i, j))
        for t in (0, 1e-8, 0.015625, var[0], var[1], 0.1):
            if any(abs(v - t) < 1e-15 and v != 0 and (v * 2**20) % 1 for v in var):
                continue
            verify(ctx, "variance", ps.DropZeroVariance(threshold=t), x, [v > t for v in var], frames=(i + j) % 9 == 0)


def pearson(x):
    n, k = x.shape
    z = x - np.array([math.fsum(c) / n for c in x.T])
    s = np.sqrt(np.array([math.fsum(c * c) for c in z.T]))
    return np.array([[math.fsum(z[:, a] * z[:, b]) / (s[a] * s[b]) for b in range(k)] for a in range(k)])


THRESHOLDS = (-1, -0.5, 0.0, 0.2, 0.4, 0.5, 0.6, 0.7, 0.8, 0.95, 1)


def correlated(ctx, x, thresholds, frames=True):
    k = x.shape[1]
    c = pearson(x)
    for absolute in (False, True):
        a = np.abs(c) if absolute else c
        mean = a.mean(axis=0)
        pairs = list(itertools.combinations(range(k), 2))
        ordered = sorted((a[p] for p in pairs), reverse=True)
        tied = any(u - v < 1e-9 for u, v in itertools.pairwise(ordered)) or any(abs(mean[i] - mean[j]) < 1e-9 for i, j in pairs)
        for t in thresholds:
            if any(abs(a[p] - t) < 1e-9 for p in pairs):
                continue
            step = ps.DropCorrelated(threshold=t, absolute=absolute)
            gone = set()
            for i, j in sorted((p for p in pairs if a[p] > t), key=lambda p: -a[p]):
                if i not in gone and j not in gone:
                    gone.add(i if mean[i] > mean[j] else j)
            if tied:
                # several outcomes are equally right: none is left too correlated, and no asset goes without a reason
                m = step.fit(x)
                ctx.step()
                kept = list(np.flatnonzero(m.get_support()))
                bad = [(i, j) for i, j in itertools.combinations(kept, 2) if a[i, j] > t]
                ctx.expect(not bad, "correlated-left", lambda: f"{step} on {x.tolist()}: kept {kept} with correlated pairs {bad}")
                lone = [i for i in range(k) if i not in kept and not any(a[i, j] > t for j in range(k) if j != i)]
                ctx.expect(not lone, "correlated-lost", lambda: f"{step} on {x.tolist()}: dropped {lone} without a correlated asset")
                ctx.outcome("tied")
            else:
                verify(ctx, "correlated", step, x, [i not in gone for i in range(k)], frames=frames)
                ctx.outcome(f"{len(gone)} dropped")


def do_corr3(ctx, i):
    cols = [c for c in itertools.product(VALUES, repeat=3)]
    if len(set(cols[i])) == 1:
        return
    for b in cols:
        for c in cols:
            if len(set(b)) == 1 or len(set(c)) == 1:
                continue
            ctx.state((i, b, c))
            correlated(ctx, np.array([cols[i], b, c]).T, (0.3, 0.9) if sum(b) + sum(c) > 0 else (-0.4, 0.6), frames=False)


def mixed(seed, n, k):
    """Data with both signs of correlation."""
    x = returns(60 * seed + k, n, k)
    return x * np.array([1 if (j * 7 + seed) % 3 else -1 for j in range(k)]) + 0.003


def do_corr(ctx, seed, k):
    for n in (4, 25):
        ctx.state((seed, k, n))
        correlated(ctx, mixed(seed, n, k), THRESHOLDS)


def value(x, w, m):
    return float(getattr(Portfolio(X=x, weights=w), m.value))


def do_extremes(ctx, seed, k, i):
    measure = MEASURES[i]
    x = mixed(seed, 12, k)
    ctx.state((seed, k, i))
    vals = [value(x, np.eye(k)[j], measure) for j in range(k)]
    ctx.expect(not any(map(math.isnan, vals)), "extremes-undefined", lambda: f"{measure}: {vals}")
    for count in (*range(1, k + 2), 10):
        for highest in (True, False):
            order = sorted(range(k), key=lambda j: vals[j], reverse=highest)
            best = set(order[:count])
            if count < k and abs(vals[order[count - 1]] - vals[order[count]]) <= 1e-12 * abs(vals[order[count]]):
                continue
            step = ps.SelectKExtremes(k=count, measure=measure, highest=highest)
            verify(ctx, "extremes", step, x, [j in best for j in range(k)], f"({measure})")
    if measure == RatioMeasure.SHARPE_RATIO:
        order = sorted(range(k), key=lambda j: vals[j], reverse=True)
        verify(ctx, "extremes-default", ps.SelectKExtremes(k=2), x, [j in order[:2] for j in range(k)])
        verify(ctx, "extremes-default", ps.SelectKExtremes(), x, [True] * k)


def do_ext3(ctx, i):
    cols = list(itertools.product(VALUES, repeat=3))
    for b in cols:
        for c in cols:
            x = np.array([cols[i], b, c]).T
            ctx.state(("ext3", i, b, c))
            for measure in (PerfMeasure.MEAN, RiskMeasure.WORST_REALIZATION):
                vals = [sum(col) if measure == PerfMeasure.MEAN else -min(col) for col in x.T]
                for count, highest in ((1, True), (2, True), (1, False), (2, False)):
                    got = ps.SelectKExtremes(k=count, measure=measure, highest=highest).fit(x).get_support()
                    ctx.step()
                    s = 1 if highest else -1
                    kept = sorted(s * v for v, g in zip(vals, got, strict=True) if g)
                    want = sorted((s * v for v in vals), reverse=True)[:count]
                    ctx.expect(
                        kept == sorted(want), "extremes-ties", lambda: f"SelectKExtremes({count}, {measure}, {highest}) on {x.tolist()} keeps {got}"
                    )


FITNESS = [
    None,
    [PerfMeasure.MEAN, RiskMeasure.CVAR],
    [PerfMeasure.MEAN],
    [RiskMeasure.MAX_DRAWDOWN, RiskMeasure.VARIANCE],
    [RatioMeasure.SORTINO_RATIO, RiskMeasure.GINI_MEAN_DIFFERENCE, PerfMeasure.ANNUALIZED_MEAN],
    [RatioMeasure.SHARPE_RATIO],
]


def do_fronts(ctx, seed, k):
    x = mixed(seed, 15, k)
    corr = pearson(x)
    z = x - x.mean(axis=0)
    cov = z.T @ z / (len(x) - 1)
    for threshold in (-0.5, -0.1, 0.0, 0.4, -1):
        for f, fitness in enumerate(FITNESS):
            use = fitness or [PerfMeasure.MEAN, RiskMeasure.VARIANCE]
            members = [(np.eye(k)[j], {j}) for j in range(k)]
            for i, j in itertools.combinations(range(k), 2):
                if corr[i, j] < threshold:
                    # the pair's weights of least variance
                    w = np.zeros(k)
                    w[i] = (cov[j, j] - cov[i, j]) / (cov[i, i] + cov[j, j] - 2 * cov[i, j])
                    w[j] = 1 - w[i]
                    members.append((w, {i, j}))
            fit = [[value(x, w, m) * (-1 if isinstance(m, RiskMeasure) else 1) for m in use] for w, _ in members]
            left = list(range(len(members)))
            fronts = []
            while left:
                front = [
                    a
                    for a in left
                    if not any(
                        all(p >= q for p, q in zip(fit[b], fit[a], strict=True)) and any(p > q for p, q in zip(fit[b], fit[a], strict=True)) for b in left
                    )
                ]
                fronts.append(front)
                left = [a for a in left if a not in front]
            for least in (None, 1, 2, 3, k - 1, k, k + 2):
                if least is not None and least < 1:
                    continue
                ctx.state((seed, k, threshold, f, least))
                kept = set()
                for level, front in enumerate(fronts):
                    if level and (least is None or len(kept) >= least):
                        break
                    for a in front:
                        kept |= members[a][1]
                if least is not None and least >= k:
                    kept = set(range(k))
                kw = {} if threshold == -0.5 else {"threshold": threshold}
                step = ps.SelectNonDominated(min_n_assets=least, fitness_measures=fitness, **kw)
                verify(ctx, "fronts", step, x, [j in kept for j in range(k)], f"(fronts {len(fronts)})", frames=f == 0)
                ctx.outcome(f"{len(fronts)} fronts")


# --- pipelines ----------------------------------------------------------------


def steps(x):
    return [
        ps.DropCorrelated(threshold=0.5),
        ps.DropZeroVariance(threshold=float(np.sort(x.var(axis=0))[1])),
        ps.SelectComplete(),
        ps.SelectKExtremes(k=4),
        ps.SelectNonDominated(min_n_assets=3),
        ps.SelectNonExpiring(expiration_dates={"A1": dt.datetime(2021, 1, 1)}, expiration_lookahead=dt.timedelta(days=3)),
    ]


def do_pipeline(ctx, a, b):
    for seed in (1, 2, 3):
        x = frame(mixed(seed, 20, 7))
        later = frame(mixed(seed + 50, 5, 7), start="2021-03-01")
        ctx.state((a, b, seed))
        first, second = steps(x.to_numpy())[a], steps(x.to_numpy())[b]
        with sklearn.config_context(transform_output="pandas"):
            k1 = [c for c, w in zip(x.columns, sklearn.clone(first).fit(x).get_support(), strict=True) if w]
            k2 = [c for c, w in zip(k1, sklearn.clone(second).fit(x[k1]).get_support(), strict=True) if w]
            pipe = make_pipeline(first, second)
            out = pipe.fit_transform(x)
            ctx.step()
            ctx.expect(
                list(out.columns) == k2 and same(out.to_numpy(), x[k2].to_numpy()) and out.index.equals(x.index),
                "pipeline-values",
                lambda: f"{first} then {second}: {list(out.columns)} instead of {k2}",
            )
            out = pipe.transform(later)
            ctx.expect(
                list(out.columns) == k2 and same(out.to_numpy(), later[k2].to_numpy()) and out.index.equals(later.index),
                "pipeline-later",
                lambda: f"{first} then {second}: later table gives {list(out.columns)} instead of {k2}",
            )
            model = Pipeline([("a", sklearn.clone(first)), ("b", sklearn.clone(second)), ("opt", EqualWeighted())]).fit(x)
            p = model.predict(later)
            ctx.step()
            ctx.expect(
                list(p.assets) == k2 and close(p.returns, later[k2].to_numpy().mean(axis=1), 1e-12, 1e-14),
                "pipeline-predict",
                lambda: f"{first} then {second}: portfolio of {list(p.assets)} instead of {k2}",
            )


def do_refused(ctx):
    x = mixed(1, 10, 4)
    df = frame(x)
    ctx.state("refused")
    gone = {"A0": dt.datetime(2021, 1, 1)}
    look = dt.timedelta(days=1)
    for step, data in [
        (ps.DropCorrelated(threshold=1.5), x),
        (ps.DropCorrelated(threshold=-1.5), x),
        (ps.DropZeroVariance(threshold=-1e-3), x),
        (ps.SelectKExtremes(k=0), x),
        (ps.SelectKExtremes(k=-2), x),
        (ps.SelectNonDominated(threshold=2), x),
        (ps.SelectNonDominated(threshold=-2), x),
        (ps.SelectNonExpiring(expiration_dates=gone, expiration_lookahead=look), x),
        (ps.SelectNonExpiring(expiration_dates=gone, expiration_lookahead=look), df.reset_index(drop=True)),
        (ps.SelectNonExpiring(expiration_lookahead=look), df),
        (ps.SelectNonExpiring(expiration_dates=gone), df),
    ]:
        ctx.step()
        try:
            step.fit(data)
            ctx.expect(False, "refused", f"{step} accepted")
        except ValueError:
            ctx.outcome("refused")
    missing = x.copy()
    missing[2, 1] = np.nan
    for step in (ps.DropCorrelated(), ps.DropZeroVariance(), ps.SelectKExtremes(), ps.SelectNonDominated()):
        ctx.step()
        try:
            step.fit(missing)
            ctx.expect(False, "refused-missing", f"{step} accepted missing values")
        except ValueError:
            ctx.outcome("refused")
    for step in steps(x):
        step.fit(df)
        ctx.step()
        try:
            step.transform(df.iloc[:, :3])
            ctx.expect(False, "refused-shape", f"{step} transformed a table with other assets")
        except ValueError:
            ctx.outcome("refused")
