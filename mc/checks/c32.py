"""Tables and figures show exactly the portfolios' own numbers."""

import functools
import itertools
import re
import warnings

import numpy as np
import pandas as pd

from mc.lib import frame, returns

PROPERTY = "C32"
BOUNDS = {
    "quick": "3-asset portfolios: 9 weight vectors x 7 settings x all measures (contributions, summaries, compositions); all populations of up to 3 of 7 portfolios (plain, multi-period, tagged, same name) x every table and figure x 5 row selections; folds of 3-6; clusterings of 2-6 assets x all cluster numbers; copula, margin and vine figures",
    "thorough": "as quick with populations of 4 and 15 weight vectors",
}
WEIGHTS = [
    [0.5, 0.3, 0.2], [0.2, 0.5, 0.3], [1.0, 0.0, 0.0], [1, 1, -1], [0.0, 0.4, 0.6], [0.5, 0.5, 0.0],
    [0.7, -0.2, 0.5], [-0.3, 0.6, 0.7], [1 / 3, 1 / 3, 1 / 3], [0.1, 0.8, 0.1],
    [0.6, 0.6, 0.6], [0.2, 0.2, 0.1], [0, 0, 1], [2, -1, 0], [1.5, -0.5, 0.0], [0.05, 0.05, 0.9], [0.4, 0.0, 0.6],
]  # fmt: skip
SETTINGS = [
    {},
    {"risk_free_rate": 0.0003, "min_acceptable_return": 0.001},
    {"compounded": True, "annualized_factor": 12},
    {"transaction_costs": {"A0": 0.002, "A1": 0.001}, "previous_weights": {"A0": 0.1, "A2": 0.7}},
    {"management_fees": 0.0004, "name": "mine", "tag": "t"},
    {"cvar_beta": 0.7, "cdar_beta": 0.6, "value_at_risk_beta": 0.8, "evar_beta": 0.75, "edar_beta": 0.7},
    {"entropic_risk_measure_theta": 2.0, "entropic_risk_measure_beta": 0.8, "drawdown_at_risk_beta": 0.7},
]
HOMOGENEOUS = [
    "mean", "standard_deviation", "semi_deviation", "mean_absolute_deviation", "first_lower_partial_moment",
    "cvar", "worst_realization", "gini_mean_difference", "max_drawdown", "cdar", "ulcer_index", "average_drawdown",
]  # fmt: skip


def cases(tier):
    nw = 9 if tier == "quick" else len(WEIGHTS)
    for i in range(nw):
        for j in range(len(SETTINGS)):
            yield ["portfolio", i, j]
    yield ["formats"]
    for n in range(1, 4 if tier == "quick" else 5):
        for pick in itertools.product(range(7), repeat=n) if n < 3 else itertools.combinations(range(7), n):
            yield ["population", list(pick)]
    for pick in itertools.permutations(range(4), 3):
        yield ["surface", *pick]
    for n in range(3, 7):
        for k in range(2, n):
            for purged, embargo in ((0, 0), (1, 0), (0, 1), (1, 1)):
                yield ["folds", n, k, purged, embargo]
    for d in range(2, 7):
        for seed in (0, 1, 2):
            for method in ("single", "ward", "complete"):
                yield ["dendrogram", d, seed, method]
    for c in ("GaussianCopula", "StudentTCopula", "ClaytonCopula", "GumbelCopula", "JoeCopula", "IndependentCopula"):
        yield ["copula", c]
    for c in ("Gaussian", "StudentT", "JohnsonSU"):
        yield ["margin", c]
    for named in (True, False):
        for cond in (None, "value"):
            for rows in (None, "few", "many"):
                yield ["vine", named, cond, rows]


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + case[0]](ctx, *case[1:])
    ctx.trace()
    ctx.outcome(case[0])


def _measures():
    from skfolio.measures import ExtraRiskMeasure, PerfMeasure, RatioMeasure, RiskMeasure

    return [m for e in (PerfMeasure, RiskMeasure, ExtraRiskMeasure, RatioMeasure) for m in e]


@functools.lru_cache
def _X(seed=3, n=18, start="2021-01-04"):
    return frame(returns(seed, n, 3, scale=0.02) + 0.001, start=start)


def _arr(v):
    return np.asarray(v, dtype=float)


# --------------------------------------------------------------------- tables
def do_portfolio(ctx, i, j):
    from skfolio import Portfolio

    w, kw, X = np.array(WEIGHTS[i]), SETTINGS[j], _X()
    p = Portfolio(X=X, weights=w, **kw)
    w = w.astype(float)
    where = f"weights {WEIGHTS[i]}, {kw}"
    name = kw.get("name", p.name)
    held = {a: x for a, x in zip(X.columns, w, strict=True) if x != 0}
    for twice in range(2):  # a second read must show the same
        c = p.composition
        ctx.expect(
            dict(zip(c.index, c[name], strict=True)) == held and list(c.columns) == [name],
            "composition",
            lambda: f"{where}: {c.to_dict()}",
        )
        ctx.expect(bool(np.all(np.diff(c[name]) <= 0)), "composition-order", lambda: f"{where}: {c}")
        c.iloc[:, 0] = 9.0
    for m in _measures():
        ctx.state("contribution", i, j, m.value)
        raw = p.contribution(measure=m)
        table = p.contribution(measure=m, to_df=True)
        ctx.step(2)
        ctx.expect(raw.shape == (3,), "contribution-shape", lambda: f"{where} {m}: {raw}")
        drawdown = m.value in ("max_drawdown", "average_drawdown", "cdar", "edar")
        h = 1e-1 if drawdown else 1e-5
        for sp in (None, 1e-3) if j == 0 else (None,):
            hh = h if sp is None else sp
            got = raw if sp is None else p.contribution(measure=m, spacing=sp)
            for k in range(3):
                if w[k] == 0:
                    ctx.expect(got[k] == 0, "contribution-zero", lambda: f"{where} {m}: {got}")
                    continue
                v = []
                for s in (1, -1):
                    u = w.copy()
                    u[k] += s * hh
                    v.append(getattr(Portfolio(X=X, weights=u, **kw), m.value))
                want = w[k] * (v[0] - v[1]) / (2 * hh)
                ctx.step(1)
                size = max(abs(x) for x in v) if np.all(np.isfinite(v)) else 0
                ctx.expect(
                    (np.isnan(want) and np.isnan(got[k]))
                    or abs(got[k] - want) <= 1e-6 * max(1e-4, abs(want)) + 1e-9 * size / hh * 1e-3,
                    "contribution",
                    lambda: f"{where} {m} asset {k} spacing {sp}: {got[k]} for {want}",
                )
        t = table.iloc[:, 0]
        ctx.expect(
            list(table.columns) == [name] and set(t.index) == set(held), "contribution-table", lambda: f"{where} {m}: {t}"
        )
        for k, a in enumerate(X.columns):
            if a in held:
                ctx.expect(
                    np.isclose(t[a], raw[k], rtol=1e-9, atol=0, equal_nan=True),
                    "contribution-table",
                    lambda: f"{where} {m}: {a} {t[a]} in the table, {raw[k]} in the array",
                )
        ctx.expect(bool(t.isna().any() or np.all(np.diff(t) <= 0)), "contribution-order", lambda: f"{where} {m}: {t}")
        if not kw and m.value in HOMOGENEOUS:
            total, v = float(p.contribution(measure=m, spacing=1e-6).sum()), getattr(p, m.value)
            ctx.expect(
                abs(total - v) <= 2e-4 * abs(v),
                "contribution-sum",
                lambda: f"{where} {m}: contributions add to {total}, measure is {v}",
            )
        # the figure
        if j == 0 or m.value in ("mean", "variance", "cvar", "sharpe_ratio"):
            fig = p.plot_contribution(measure=m)
            _bars(ctx, fig, {name: {a: raw[k] for k, a in enumerate(X.columns) if a in held}}, f"{where} {m}")
    _bars(ctx, p.plot_composition(), {name: held}, f"{where} composition")
    _summary(ctx, p, where)
    _lines(ctx, p, where)


def _bars(ctx, fig, want, where):
    """Stacked bars: {column: {asset: value}}."""
    got = {}
    for t in fig.data:
        for x, y in zip(t.x, _arr(t.y), strict=True):
            y = 0.0 if np.isnan(y) else y
            got.setdefault(str(x), {})[t.name] = y
    for col in want:
        ctx.step(1)
        ctx.expect(col in got, "bars", lambda: f"{where}: no bar of {col} among {list(got)}")
        g = {a: v for a, v in got[col].items() if v != 0}
        e = {a: v for a, v in want[col].items() if v != 0 and not np.isnan(v)}
        ctx.expect(
            set(g) == set(e) and all(np.isclose(g[a], e[a], rtol=1e-7, atol=1e-14) for a in e),
            "bars",
            lambda: f"{where}: bar {col} shows {g}, portfolio has {e}",
        )
    ctx.expect(len(got) == len(want), "bars", lambda: f"{where}: bars {list(got)} for {list(want)}")


_NUM = re.compile(r"^(-?[0-9]+(\.[0-9]+)?)(%?)$")


def _shown(ctx, text, value, where, percent=None):
    """A formatted number is the value rounded, with enough digits to read it."""
    if not np.isfinite(value):
        ctx.expect(text == str(value), "format-nonfinite", lambda: f"{where}: {text!r} for {value}")
        return
    g = _NUM.match(text)
    ctx.expect(g is not None, "format", lambda: f"{where}: {text!r} for {value}")
    x = float(g.group(1))
    if percent is not None:
        ctx.expect(bool(g.group(3)) == percent, "format-unit", lambda: f"{where}: {text!r} for {value}")
    unit = 100 if g.group(3) else 1
    dec = len(g.group(2) or ".") - 1
    ctx.expect(
        abs(x - value * unit) <= 0.5 * 10**-dec * (1 + 1e-9) + 1e-12,
        "format-value",
        lambda: f"{where}: {text!r} for {value}",
    )
    if abs(value * unit) > 1e-4:
        ctx.expect(
            abs(x - value * unit) <= 0.06 * abs(value * unit), "format-digits", lambda: f"{where}: {text!r} for {value}"
        )


def _summary(ctx, p, where):
    from skfolio.measures import ExtraRiskMeasure, RiskMeasure

    raw, shown = p.summary(formatted=False), p.summary()
    ctx.expect(list(raw.index) == list(shown.index), "summary-rows", lambda: where)
    plain = [ExtraRiskMeasure.ENTROPIC_RISK_MEASURE, RiskMeasure.ULCER_INDEX]
    for m in _measures():
        ctx.step(1)
        base = m.linked_risk_measure if m.is_ratio else m
        beta = getattr(p, f"{base.value}_beta", None)
        key = str(m) if beta is None else f"{m!s} at {beta:.0%}"
        ctx.expect(key in raw.index, "summary-label", lambda: f"{where}: no row {key!r} in {list(raw.index)}")
        v = getattr(p, m.value)
        ctx.expect(
            np.isclose(raw[key], v, rtol=1e-12, atol=0, equal_nan=True), "summary", lambda: f"{where}: {key} is {raw[key]} for {v}"
        )
        _shown(ctx, shown[key], v, f"{where}: {key}", percent=not (m.is_ratio or m in plain))
    if hasattr(p, "weights"):
        counts = {"Effective Number of Assets": 1 / np.sum(np.square(p.weights)), "Assets Number": p.n_assets}
    else:
        counts = {"Portfolios Number": len(p), "Avg nb of Assets per Portfolio": np.mean([q.n_assets for q in p])}
    for key, v in counts.items():
        ctx.step(1)
        ctx.expect(
            key in raw.index and np.isclose(float(raw[key]), v, rtol=1e-9) and abs(float(shown[key]) - v) <= 0.06,
            "summary-counts",
            lambda: f"{where}: {key} is {raw.get(key)} shown {shown.get(key)} for {v}",
        )
    df = p.measures_df
    for m in _measures():
        if m.value in df.index:
            ctx.expect(
                np.isclose(df.loc[m.value, "measures"], getattr(p, m.value), rtol=1e-12, equal_nan=True),
                "measures_df",
                lambda: f"{where}: {m}",
            )


def _same_line(ctx, t, series, key, where):
    x, y = list(pd.Index(t.x)), _arr(t.y)
    series = series[[k for k in series.index]]
    ctx.expect(
        x == list(series.index), f"{key}-rows", lambda: f"{where}: rows {x[:3]}..{x[-1:]} for {list(series.index)[:3]}.."
    )
    ctx.expect(
        np.allclose(y, _arr(series), rtol=1e-9, atol=1e-14, equal_nan=True), key, lambda: f"{where}: {y[:4]} for {_arr(series)[:4]}"
    )


ROWS = [None, slice(2, 9), slice(None, None, 3), slice(-4, None), [0, 3, 5]]


def _lines(ctx, p, where):
    """Line figures of one portfolio."""
    from skfolio.measures import RatioMeasure, RiskMeasure

    r = pd.Series(p.returns, index=p.observations)
    cum = (1 + r).cumprod() * 1000 if p.compounded else r.cumsum()
    table = p.cumulative_returns_df
    if p.compounded:
        # either the plain growth or the growth rebased at 1000 is a fair table
        ctx.expect(
            np.allclose(table / table.iloc[0], cum / cum.iloc[0], rtol=1e-9), "cumulative", lambda: f"{where}: {table.iloc[:3].tolist()}"
        )
        cum = table
    else:
        ctx.expect(np.allclose(table, cum, rtol=1e-9, atol=1e-14), "cumulative", lambda: f"{where}: {table.iloc[:3].tolist()}")
    for idx in ROWS:
        sel = slice(None) if idx is None else idx
        ctx.step(1)
        _same_line(ctx, p.plot_cumulative_returns(idx=idx).data[0], cum.iloc[sel], "plot-cumulative", f"{where} rows {idx}")
        _same_line(ctx, p.plot_returns(idx=idx).data[0], r.iloc[sel], "plot-returns", f"{where} rows {idx}")
    try:
        fig = p.plot_cumulative_returns(log_scale=True)
        ctx.expect(p.compounded, "log-refused", lambda: f"{where}: log scale of non-compounded returns accepted")
        ctx.expect(fig.layout.yaxis.type == "log", "log-axis", where)
    except ValueError:
        ctx.expect(not p.compounded, "log-refused", lambda: f"{where}: log scale refused")
    for m in (RatioMeasure.SHARPE_RATIO, RiskMeasure.CVAR, RiskMeasure.MAX_DRAWDOWN):
        s = p.rolling_measure(measure=m, window=5)
        fig = p.plot_rolling_measure(measure=m, window=5)
        _same_line(ctx, fig.data[0], s, "plot-rolling", f"{where} {m}")
        lines = [sh for sh in fig.layout.shapes if sh.type == "line"]
        ctx.expect(
            any(np.isclose(sh.y0, getattr(p, m.value)) and sh.y0 == sh.y1 for sh in lines),
            "plot-rolling-level",
            lambda: f"{where} {m}: whole-period line at {[sh.y0 for sh in lines]}",
        )
    _density(ctx, p.plot_returns_distribution().data[0], p.returns, f"{where} returns distribution")


def _density(ctx, t, data, where):
    import scipy.stats as st

    x, y = _arr(t.x), _arr(t.y)
    ctx.expect(len(x) > 20 and np.all(np.diff(x) > 0), "density-range", lambda: where)
    ctx.expect(np.allclose(y, st.gaussian_kde(data)(x), rtol=1e-6), "density", lambda: f"{where}: not the density of its data")
    ctx.expect(
        x[0] <= np.quantile(data, 0.05) and x[-1] >= np.quantile(data, 0.95), "density-range", lambda: f"{where}: {x[0]}..{x[-1]}"
    )


def do_formats(ctx):
    """The number formatter over magnitudes and signs."""
    from skfolio.utils.tools import format_measure

    for mant in (1.0, 1.234567, 4.9999, 5.0001, 9.99951, 9.4):
        for e in range(-8, 7):
            for s in (1, -1):
                for pct in (False, True):
                    v = s * mant * 10.0**e
                    ctx.state("format", v, pct)
                    _shown(ctx, format_measure(v, percent=pct), v, f"format_measure({v}, {pct})", percent=pct)
    for v in (0.0, -0.0):
        for pct in (False, True):
            _shown(ctx, format_measure(v, percent=pct), v, "format_measure(0)", percent=pct)
    for v in (np.nan, np.inf, -np.inf):
        _shown(ctx, format_measure(v), v, "format_measure")


# ----------------------------------------------------------------- population
@functools.lru_cache
def _pool():
    from skfolio import MultiPeriodPortfolio, Portfolio

    X, late = _X(), _X(4, 8, "2021-03-01")
    a = Portfolio(X=X, weights=WEIGHTS[0], name="a", tag="one")
    b = Portfolio(X=X, weights=WEIGHTS[3], name="b", tag="two")
    c = Portfolio(X=X[["A2", "A0"]], weights=[0.5, 0.5], name="a")
    d = Portfolio(X=late, weights=WEIGHTS[5], name="late", tag="one")
    m = MultiPeriodPortfolio(
        portfolios=[
            Portfolio(X=X.iloc[:9], weights=WEIGHTS[1], name="p1"),
            Portfolio(X=X.iloc[9:][["A1", "A2"]], weights=[0.3, 0.7], name="p2"),
        ],
        name="multi",
        tag="two",
    )
    s = MultiPeriodPortfolio(
        portfolios=[
            Portfolio(X=X.iloc[:6], weights=WEIGHTS[4], name="q"),
            Portfolio(X=X.iloc[6:], weights=WEIGHTS[8], name="q"),
        ],
        name="b",
    )
    z = Portfolio(X=X, weights=WEIGHTS[2], name="z")
    return [a, b, c, d, m, s, z]


def _label(p):
    return p.name if p.tag is None else f"{p.name}_{p.tag}"


def do_population(ctx, pick):
    from skfolio import MultiPeriodPortfolio, Population
    from skfolio.measures import PerfMeasure, RatioMeasure, RiskMeasure

    ps = [_pool()[i] for i in pick]
    pop = Population(ps)
    where = f"population {pick}"
    ctx.state("population", *pick)
    # composition and contribution tables, and their figures
    for kind in ("composition", "contribution"):
        for sub in (True, False):
            kw = {} if kind == "composition" else {"measure": RiskMeasure.STANDARD_DEVIATION}
            t = getattr(pop, kind)(display_sub_ptf_name=sub, **kw)
            cols = []
            for p in ps:
                for q in p if isinstance(p, MultiPeriodPortfolio) else [p]:
                    v = q.weights if kind == "composition" else q.contribution(**kw)
                    cols.append((p, q, dict(zip(q.assets, v, strict=True))))
            ctx.expect(
                t.shape[1] == len(cols) and len(set(t.columns)) == len(cols), kind, lambda: f"{where}: columns {list(t.columns)}"
            )
            want = {}
            for name, (p, q, v) in zip(t.columns, cols, strict=True):
                ctx.step(1)
                ctx.expect(str(name).startswith(p.name), f"{kind}-name", lambda: f"{where}: column {name} for {p.name}")
                if sub and p is not q:
                    ctx.expect(q.name in str(name), f"{kind}-name", lambda: f"{where}: column {name} for {q.name}")
                got = t[name].to_dict()
                want[str(name)] = v
                ctx.expect(
                    all(np.isclose(got.get(a, 0), x, rtol=1e-9, atol=1e-14) for a, x in v.items())
                    and all(a in v or x == 0 for a, x in got.items()),
                    kind,
                    lambda: f"{where}: column {name} {got} for {v}",
                )
            fig = getattr(pop, f"plot_{kind}")(display_sub_ptf_name=sub, **kw)
            _bars(ctx, fig, want, f"{where} {kind} sub={sub}")
    # summary
    if len(ps) == 1 and isinstance(ps[0], MultiPeriodPortfolio):
        _summary(ctx, ps[0], where)
    raw = pop.summary(formatted=False)
    ctx.expect(raw.shape[1] == len(ps), "summary", where)
    for k, p in enumerate(ps):
        one = p.summary(formatted=False)
        ctx.expect(raw.columns[k] == p.name, "summary-name", lambda: f"{where}: {list(raw.columns)}")
        col = raw.iloc[:, k]
        ctx.expect(
            all(np.isclose(col[x], one[x], equal_nan=True) for x in one.index) and all(pd.isna(col[x]) for x in set(col.index) - set(one.index)),
            "summary",
            lambda: f"{where}: column {k}",
        )
    # lines
    cum = pd.concat([p.cumulative_returns_df for p in ps], axis=1).sort_index()
    for idx in ROWS:
        if isinstance(idx, list) and max(idx) >= len(cum):
            continue
        fig = pop.plot_cumulative_returns(idx=idx)
        ctx.step(1)
        ctx.expect(len(fig.data) == len(ps), "cumulative-count", lambda: f"{where} rows {idx}: {len(fig.data)} lines")
        want = cum.iloc[slice(None) if idx is None else idx]
        for k, (t, p) in enumerate(zip(fig.data, ps, strict=True)):
            ctx.expect(t.name.startswith(_label(p)), "cumulative-name", lambda: f"{where}: {t.name}")
            _same_line(ctx, t, want.iloc[:, k], "cumulative", f"{where} rows {idx} line {k}")
    for m in (RatioMeasure.SHARPE_RATIO, RiskMeasure.VARIANCE, PerfMeasure.MEAN):
        for window in (3, 8, 12, 40) if len(ps) < 3 else (3, 40):
            roll = pop.rolling_measure(measure=m, window=window)
            fig = pop.plot_rolling_measure(measure=m, window=window)
            ctx.expect(len(fig.data) == len(ps), "rolling-count", where)
            for k, (t, p) in enumerate(zip(fig.data, ps, strict=True)):
                one = p.rolling_measure(measure=m, window=window).reindex(roll.index)
                _same_line(ctx, t, one, "rolling", f"{where} {m} window {window} line {k}")
                ctx.expect(t.name.startswith(_label(p)), "rolling-name", lambda: f"{where}: {t.name} for {_label(p)}")
    fig = pop.plot_returns_distribution()
    for t, p in zip(fig.data, ps, strict=True):
        _density(ctx, t, p.returns, f"{where} {p.name}")
        ctx.expect(t.name == p.name, "density-name", where)
    _scatter(ctx, pop, ps, where)
    _histogram(ctx, pop, ps, where)


def _scatter(ctx, pop, ps, where):
    from skfolio.measures import PerfMeasure, RatioMeasure, RiskMeasure

    x, y, z = RiskMeasure.STANDARD_DEVIATION, PerfMeasure.MEAN, RiskMeasure.CVAR
    for axes in ((x, y), (x, RatioMeasure.SHARPE_RATIO), (x, y, z), (x, y, RatioMeasure.SHARPE_RATIO)):
        for extra in ({}, {"show_fronts": True}, {"color_scale": RatioMeasure.SORTINO_RATIO}, {"hover_measures": [RiskMeasure.CDAR]}, {"color_scale": "n_assets"}):
            if len(ps) > 1 and axes != (x, y) and "show_fronts" not in extra and extra:
                continue
            if extra.get("color_scale") == "n_assets" and any(not hasattr(p, "n_assets") for p in ps):
                continue
            fig = pop.plot_measures(*axes, **extra)
            ctx.step(1)
            got = []
            for t in fig.data:
                cols = [_arr(getattr(t, k)) for k in "xyz"[: len(axes)]]
                names = list(t.hovertext)
                got += list(zip(names, *[np.round(c, 12) for c in cols], strict=True))
            want = [(p.name, *[round(float(getattr(p, m.value)), 12) for m in axes]) for p in ps]
            ctx.expect(
                len(got) == len(want)
                and all(
                    a[0] == b[0] and np.allclose(a[1:], b[1:], rtol=1e-6, atol=2e-12)
                    for a, b in zip(sorted(got), sorted(want), strict=True)
                ),
                "scatter",
                lambda: f"{where} {[str(a) for a in axes]} {extra}: points {sorted(got)} for {sorted(want)}",
            )
            if "show_fronts" in extra and len(axes) == 2:
                fronts = pop.non_denominated_sort(first_front_only=False)
                rank = {}
                for f, ids in enumerate(fronts):
                    for i in ids:
                        rank.setdefault((ps[i].name, round(float(getattr(ps[i], x.value)), 9)), set()).add(str(f))
                for t in fig.data:
                    f = re.search(r"front=(-?[0-9]+)", t.hovertemplate).group(1)
                    for n, v in zip(t.hovertext, _arr(t.x), strict=True):
                        ctx.expect(f in rank[(n, round(float(v), 9))], "fronts", lambda: f"{where}: {n} shown on front {f}")


def do_surface(ctx, i, j, k):
    """Surfaces pass through the portfolios."""
    import scipy.interpolate as sci

    from skfolio import Population, Portfolio
    from skfolio.measures import PerfMeasure, RatioMeasure, RiskMeasure

    pop = Population([Portfolio(X=_X(), weights=w) for w in WEIGHTS[:9]])
    ms = [PerfMeasure.MEAN, RiskMeasure.STANDARD_DEVIATION, RiskMeasure.CVAR, RatioMeasure.SHARPE_RATIO]
    axes = [ms[i], ms[j], ms[k]]
    ctx.state("surface", i, j, k)
    t = pop.plot_measures(*axes, to_surface=True).data[0]
    x, y, z = _arr(t.x), _arr(t.y), _arr(t.z)
    v = [np.array([getattr(p, m.value) for p in pop]) for m in axes]
    ctx.expect(
        np.isclose([x[0], x[-1], y[0], y[-1]], [v[0].min(), v[0].max(), v[1].min(), v[1].max()]).all(),
        "surface-range",
        lambda: f"{axes}: {x[0]}..{x[-1]}, {y[0]}..{y[-1]}",
    )
    f = sci.RegularGridInterpolator((y, x), z)
    span = v[2].max() - v[2].min()
    for a, b, c in zip(*v, strict=True):
        g = float(f([b, a])[0])
        ctx.step(1)
        ctx.expect(np.isnan(g) or abs(g - c) <= 0.15 * span, "surface", lambda: f"{axes}: {g} at a portfolio with {c}")


def _histogram(ctx, pop, ps, where):
    from skfolio.measures import PerfMeasure, RiskMeasure

    ms = [PerfMeasure.MEAN, RiskMeasure.CVAR]
    for tags in (None, ["one", "two"], ["one"], ["two"]):
        if tags is not None and not all(any(p.tag == t for p in ps) for t in tags):
            continue
        fig = pop.plot_distribution(measure_list=ms, tag_list=tags)
        want = []
        for m in ms:
            for t in tags or [None]:
                want.append(sorted(getattr(p, m.value) for p in ps if t is None or p.tag == t))
        got = [sorted(v for v in _arr(t.x) if not np.isnan(v)) for t in fig.data if t.type == "histogram"]
        ctx.step(1)
        ctx.expect(
            len(got) == len(want) and all(len(a) == len(b) and np.allclose(a, b) for a, b in zip(got, want, strict=True)),
            "histogram",
            lambda: f"{where} tags {tags}: {got} for {want}",
        )


# ---------------------------------------------------------------- other figures
def do_folds(ctx, n, k, purged, embargo):
    from skfolio.model_selection import CombinatorialPurgedCV

    X = frame(returns(5, 5 * n, 1))
    cv = CombinatorialPurgedCV(n_folds=n, n_test_folds=k, purged_size=purged, embargo_size=embargo)
    splits = [(list(tr), [i for t in te for i in t]) for tr, te in cv.split(X)]
    cells = [list(c) for c in cv.plot_train_test_index(X).data[0].cells.values]
    ctx.state("folds", n, k, purged, embargo)
    ctx.expect(len(cells) == 1 + len(splits) and [int(v) for v in cells[0]] == list(range(len(X))), "folds-index", lambda: f"{cells[0]}")
    for col, (tr, te) in zip(cells[1:], splits, strict=True):
        ctx.step(1)
        ctx.expect(
            [i for i, v in enumerate(col) if v == 0] == sorted(tr) and [i for i, v in enumerate(col) if v == 1] == sorted(te),
            "folds-index",
            lambda: f"{n} folds {k} tests: column {list(col)} for train {tr} test {te}",
        )
    # the colours tell the same as the numbers
    colors = [list(c) for c in cv.plot_train_test_index(X).data[0].cells.fill.color]
    seen = {}
    for col, color in zip(cells[1:], colors[1:], strict=True):
        for v, c in zip(col, color, strict=True):
            seen.setdefault(int(v), set()).add(c)
    ctx.expect(
        all(len(c) == 1 for c in seen.values()) and len(set.union(*seen.values())) == len(seen), "folds-color", lambda: f"{seen}"
    )
    cells = [list(c) for c in cv.plot_train_test_folds().data[0].cells.values]
    ctx.expect(len(cells) == n + 1 and len(cells[0]) == len(splits), "folds-table", lambda: f"{len(cells)}")
    for s, (_, te) in enumerate(splits):
        want = sorted({i // 5 for i in te})
        ctx.expect(
            [f for f in range(n) if int(cells[f + 1][s]) == 1] == want, "folds-table", lambda: f"combination {s}: {want}"
        )
    t = cv.summary(X)
    ctx.expect(t["Number of Observations"] == len(X) and t["Total Number of Folds"] == n, "folds-summary", lambda: f"{t}")
    ctx.expect(
        t["Number of Training Combinations"] == len(splits) and t["Number of Test Folds"] == k, "folds-summary", lambda: f"{t}"
    )
    ctx.expect(t["Number of Test Paths"] == len(splits) * k // n, "folds-summary", lambda: f"{t}")
    if purged == embargo == 0:
        mean = np.mean([len(tr) for tr, _ in splits])
        ctx.expect(abs(t["Average Training Size"] - mean) <= 1, "folds-summary", lambda: f"{t} for mean {mean}")


def do_dendrogram(ctx, d, seed, method):
    from skfolio.cluster import HierarchicalClustering, LinkageMethod
    from skfolio.distance import PearsonDistance

    X = frame(returns(40 + seed, 30, d))
    D = PearsonDistance().fit(X).distance_
    for named in (True, False):
        Dn = pd.DataFrame(D, columns=X.columns, index=X.columns) if named else D
        for k in [None, *range(1, d + 1)]:
            m = HierarchicalClustering(max_clusters=k, linkage_method=LinkageMethod(method)).fit(Dn)
            labels = np.asarray(m.labels_)
            where = f"{d} assets seed {seed} {method} max_clusters={k} ({m.n_clusters_} clusters)"
            ctx.state("dendrogram", d, seed, method, str(k), named)
            for heat in (True, False):
                fig = m.plot_dendrogram(heatmap=heat)
                names = list(X.columns) if named else [f"x{i}" for i in range(d)]
                ticks = list(fig.layout.xaxis.ticktext)
                ctx.step(1)
                ctx.expect(sorted(ticks) == sorted(names), "dendrogram-names", lambda: f"{where}: {ticks}")
                order = [names.index(t) for t in ticks]
                if not heat:
                    continue
                hm = [t for t in fig.data if t.type == "heatmap"]
                ctx.expect(
                    len(hm) == 1 and np.allclose(_arr(hm[0].z), D[np.ix_(order, order)], atol=1e-6),
                    "heatmap",
                    lambda: f"{where}: heat map is not the reordered distance",
                )
                # outlines surround exactly the clusters
                pos = _arr(hm[0].x)
                want = set()
                for c in set(labels):
                    want.add(frozenset(np.flatnonzero(labels == c)))
                got = set()
                for sh in fig.layout.shapes:
                    got.add(frozenset(order[i] for i in range(d) if sh.x0 < pos[i] < sh.x1))
                    ctx.expect((sh.x0, sh.x1) == (sh.y0, sh.y1), "outline", lambda: where)
                ctx.expect(got == want, "outline", lambda: f"{where}: outlines {got} for clusters {want}")
            # colours of the branches: a cluster of several assets has one colour of its own


def do_copula(ctx, name):
    import skfolio.distribution as sd

    X = _X(9, 40).to_numpy()
    U = sd.compute_pseudo_observations(X[:, :2] + X[:, [2]])
    m = getattr(sd, name)().fit(U)
    for dim, fig in ((2, m.plot_pdf_2d()), (3, m.plot_pdf_3d())):
        t = fig.data[0]
        x, y, z = _arr(t.x), _arr(t.y), _arr(t.z)
        if x.ndim == 1:
            x, y = np.meshgrid(x, y)
        ctx.state("pdf", name, dim)
        want = np.exp(m.score_samples(np.column_stack([x.ravel(), y.ravel()]))).reshape(z.shape)
        ctx.expect(np.allclose(z, want, rtol=1e-8), "copula-pdf", lambda: f"{name}: {dim}-D figure is not the density")
    for data in (None, U):
        fig = m.plot_tail_concentration(X=data)
        curves = {t.name: (_arr(t.x), _arr(t.y)) for t in fig.data}
        ctx.expect(len(curves) == (1 if data is None else 2), "tail", lambda: f"{list(curves)}")
        q, v = curves[name]
        tol = 2e-2 if name == "StudentTCopula" else 1e-6
        for i in range(0, len(q), 7):
            c = float(m.cdf(np.array([[q[i], q[i]]]))[0])
            want = c / q[i] if q[i] <= 0.5 else (1 - 2 * q[i] + c) / (1 - q[i])
            ctx.step(1)
            ctx.expect(abs(v[i] - want) <= tol / min(q[i], 1 - q[i]), "tail-curve", lambda: f"{name} at {q[i]}: {v[i]} for {want}")
        if data is not None:
            q, v = curves["Empirical"]
            for i in range(len(q)):
                if q[i] <= 0.5:
                    a, b = U[:, 0] <= q[i], U[:, 1] <= q[i]
                else:
                    a, b = U[:, 0] >= q[i], U[:, 1] >= q[i]
                want = (a & b).sum() / a.sum() if a.sum() else 0
                ctx.expect(np.isclose(v[i], want), "tail-empirical", lambda: f"{name} at {q[i]}: {v[i]} for {want}")


def do_margin(ctx, name):
    import skfolio.distribution as sd

    x = _X(9, 40).to_numpy()[:, [0]]
    m = getattr(sd, name)().fit(x)
    for data in (None, x, x[::2]):
        fig = m.plot_pdf(X=data)
        lines = {t.name: t for t in fig.data}
        t = lines[name]
        ctx.state("margin", name, data is None)
        ctx.expect(
            np.allclose(_arr(t.y).ravel(), np.exp(m.score_samples(_arr(t.x).reshape(-1, 1))).ravel(), rtol=1e-8), "margin-pdf", lambda: name
        )
        ctx.expect(m.cdf(_arr(t.x).ravel()[:1].reshape(-1, 1))[0] <= 0.01, "margin-range", lambda: name)
        ctx.expect(len(lines) == (1 if data is None else 2), "margin-lines", lambda: f"{list(lines)}")
        if data is not None:
            (other,) = [v for k, v in lines.items() if k != name]
            import scipy.stats as st

            ctx.expect(
                np.allclose(_arr(other.y), st.gaussian_kde(data[:, 0])(_arr(other.x).ravel()), rtol=1e-6), "margin-kde", lambda: name
            )
            t = m.qq_plot(data).data[0]
            n = len(data)
            ctx.expect(np.allclose(_arr(t.y), np.sort(data[:, 0])), "qq-sample", lambda: name)
            ctx.expect(
                np.allclose(_arr(t.x).ravel(), np.asarray(m.ppf((np.arange(1, n + 1) - 0.5) / n)).ravel()), "qq-model", lambda: name
            )


def do_vine(ctx, named, cond, rows):
    import skfolio.distribution as sd

    X = _X(9, 40)
    fit = X if named else X.to_numpy()
    names = list(X.columns) if named else None
    key = "A1" if named else 1
    m = sd.VineCopula(central_assets=[key], random_state=3, copula_candidates=[sd.GaussianCopula()], marginal_candidates=[sd.Gaussian()]).fit(fit)
    c = None if cond is None else {key: 0.004}
    data = {"few": X.to_numpy()[:25], "many": X.to_numpy(), None: None}[rows]
    n = 30
    where = f"vine names={named} conditioning={c} rows={rows}"
    size = n if data is None else min(n, len(data))
    want = m.sample(n_samples=size, conditioning=c)
    fig = m.plot_scatter_matrix(X=data, conditioning=c, n_samples=n)
    ctx.state("vine", named, str(cond), str(rows))
    ctx.expect(len(fig.data) == (1 if data is None else 2), "scatter-matrix", lambda: f"{where}: {len(fig.data)} groups")
    for t in fig.data:
        dims = t.dimensions
        vals = np.column_stack([_arr(dm.values) for dm in dims])
        if named:
            ctx.expect([dm.label for dm in dims] == names, "scatter-labels", lambda: f"{where}: {[dm.label for dm in dims]}")
        if t.name == "Generated":
            ctx.expect(vals.shape == want.shape and np.allclose(vals, want), "scatter-samples", lambda: f"{where}: not the model's samples")
        else:
            known = {tuple(r) for r in np.round(data, 12)}
            got = [tuple(r) for r in np.round(vals, 12)]
            ctx.expect(
                len(got) == size and len(set(got)) == size and set(got) <= known, "scatter-history", lambda: f"{where}: not rows of the data"
            )
    if cond is not None:
        # the density of a constant does not exist
        subsets = [[0], [2], [0, 2]]
    else:
        subsets = [None, [0], [2, 1], [1]]
    for sub in subsets:
        for by_name in (False, True) if named and sub else (False,):
            s = [names[i] for i in sub] if by_name else sub
            ids = sub or [0, 1, 2]
            try:
                fig = m.plot_marginal_distributions(X=data, conditioning=c, subset=s, n_samples=n)
            except Exception as e:
                ctx.fail("marginal-refused", f"{where} subset={s}: {type(e).__name__}: {e}")
            ctx.step(1)
            lines = list(fig.data)
            ctx.expect(len(lines) == len(ids) * (1 if data is None else 2), "marginal-count", lambda: f"{where} subset={s}")
            gen = [t for t in lines if "Generated" in t.name]
            for i, t in zip(ids, gen, strict=True):
                _density(ctx, t, want[:, i], f"{where} subset={s} {t.name}")
                if named:
                    ctx.expect(t.name.startswith(names[i]), "marginal-name", lambda: f"{where}: {t.name}")
            if rows == "few":
                emp = [t for t in lines if "Empirical" in t.name]
                for i, t in zip(ids, emp, strict=True):
                    _density(ctx, t, data[:, i], f"{where} subset={s} {t.name}")
