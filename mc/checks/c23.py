"""C23: converting prices to returns loses, invents and misaligns nothing."""

import itertools
import math
import warnings

import numpy as np
import pandas as pd
from skfolio.preprocessing import prices_to_returns

PROPERTY = "C23"
BOUNDS = {
    "quick": "all patterns of missing prices of 4 rows x 2 assets, 3 rows x 3 assets and 5 rows x 1 asset, and of 3 rows x 2 assets with 3 rows x 1 "
    "factor or 3 rows x 1 asset with 3 rows x 2 factors, x same, shifted, contained and disjoint dates x 4 joins x up to 5 thresholds x linear or "
    "logarithmic x filling x dropping",
    "thorough": "as quick with 4 rows x 3 assets and 5 rows x 2 assets",
}
NAN = float("nan")


def cases(tier):
    for n, k in [(4, 2), (3, 3), (5, 1)] + ([(4, 3), (5, 2)] if tier != "quick" else []):
        for first in range(2**n):
            yield ["plain", n, k, first]
    for first in range(8):
        for layout in range(5):
            for join in ("outer", "inner", "left", "right"):
                yield ["joined", 2, 1, first, layout, join]
                if layout < 2 or tier != "quick":
                    yield ["joined", 1, 2, first, layout, join]
    yield ["large"]
    yield ["refused"]


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + case[0]](ctx, *case[1:])
    ctx.trace()
    ctx.outcome(case[0])


def expected(x, xi, xc, y, yi, yc, log, threshold, join, drop, fill):
    """Rows (label, values) and columns by the documented rules, or None where they are silent."""
    nx = len(xc)
    if y is None:
        table = [(i, list(r)) for i, r in zip(xi, x, strict=True)]
        cols = list(xc)
    else:
        if join == "outer":
            labels = sorted(set(xi) | set(yi))
        elif join == "inner":
            labels = [i for i in xi if i in set(yi)]
        else:
            labels = list(xi if join == "left" else yi)
        px, py = dict(zip(xi, x, strict=True)), dict(zip(yi, y, strict=True))
        table = [(i, list(px.get(i, [NAN] * nx)) + list(py.get(i, [NAN] * len(yc)))) for i in labels]
        cols = [*xc, *yc]
    # rows with too many missing asset prices
    if threshold is not None:
        table = [(i, r) for i, r in table if sum(map(math.isnan, r[:nx])) <= nx * threshold]
    m = len(cols)
    if fill:
        for j in range(m):
            last = NAN
            for _, r in table:
                last = r[j] = last if math.isnan(r[j]) else r[j]
    if drop:
        seen = [False] * m
        kept = []
        for i, r in table:
            seen = [s or not math.isnan(v) for s, v in zip(seen, r, strict=True)]
            if all(seen):
                kept.append((i, r))
        if not kept:
            return None
        table = kept
    table = [(i, r) for i, r in table if not all(map(math.isnan, r))]
    if not table:
        return None
    use = [j for j in range(m) if not all(math.isnan(r[j]) for _, r in table)]
    rows = []
    for (_, a), (i, b) in itertools.pairwise(table):
        rows.append((i, [math.log(b[j] / a[j]) if log else b[j] / a[j] - 1 for j in use]))
    return rows, [cols[j] for j in use]


def same(got, index, cols, values):
    return (
        isinstance(got, pd.DataFrame)
        and list(got.columns) == cols
        and list(got.index) == index
        and np.allclose(got.to_numpy(dtype=float).reshape(len(index), len(cols)), np.array(values, dtype=float).reshape(len(index), len(cols)), rtol=1e-9, atol=1e-12, equal_nan=True)
    )


def verify(ctx, x, y, log, threshold, join, drop, fill):
    xi, xc = list(x.index), list(x.columns)
    want = expected(
        x.to_numpy().tolist(),
        xi,
        xc,
        None if y is None else y.to_numpy().tolist(),
        None if y is None else list(y.index),
        None if y is None else list(y.columns),
        log,
        threshold,
        join,
        drop,
        fill,
    )
    bx, by = x.copy(), None if y is None else y.copy()
    kw = {"log_returns": log, "nan_threshold": threshold, "drop_inceptions_nan": drop, "fill_nan": fill}
    got = prices_to_returns(x, **kw) if y is None else prices_to_returns(x, y, join=join, **kw)
    ctx.step()
    note = lambda: f"prices_to_returns({bx.to_numpy().tolist()}, {None if y is None else by.to_numpy().tolist()}, join={join}, {kw})"  # noqa: E731
    ctx.expect(x.equals(bx) and (y is None or y.equals(by)), "input", lambda: f"{note()} changed its input")
    if y is not None:
        ctx.expect(isinstance(got, tuple) and len(got) == 2, "pair", lambda: f"{note()} returned {type(got)}")
        ctx.expect(list(got[0].index) == list(got[1].index), "aligned", lambda: f"{note()}: rows {list(got[0].index)} and {list(got[1].index)}")
    if want is None:
        ctx.outcome("nothing left")
        parts = got if y is not None else (got,)
        ctx.expect(all(len(p) == 0 for p in parts), "invented", lambda: f"{note()}: {got}")
        return
    rows, cols = want
    index = [i for i, _ in rows]
    if y is None:
        ctx.expect(same(got, index, cols, [r for _, r in rows]), "returns", lambda: f"{note()}: {got} instead of {rows} {cols}")
    else:
        for part, mine, key in ((got[0], xc, "asset-returns"), (got[1], list(y.columns), "factor-returns")):
            keep = [j for j, c in enumerate(cols) if c in mine]
            ctx.expect(
                same(part, index, [cols[j] for j in keep], [[r[j] for j in keep] for _, r in rows]),
                key,
                lambda: f"{note()}: {part} instead of {rows} {cols}",
            )
    ctx.outcome(f"{len(rows)} rows")


def prices(n, k, base):
    return np.array([[base + 7 * j + (3 + j) * i - 2 * ((i * (j + 2)) % 3) for j in range(k)] for i in range(n)], dtype=float)


def days(a, n):
    return pd.date_range("2024-01-01", periods=20, freq="D")[a : a + n]


def do_plain(ctx, n, k, first):
    masks = list(itertools.product((False, True), repeat=n))
    base = prices(n, k, 50)
    names = ["b", "a", "c"][:k]
    for rest in itertools.product(masks, repeat=k - 1):
        gaps = np.array([masks[first], *rest]).T.reshape(n, k)
        x = pd.DataFrame(np.where(gaps, NAN, base), index=days(0, n), columns=names)
        ctx.state((n, k, first, rest))
        for threshold in (1, 0.5, 0.4, 0.25) if k > 1 else (1, 0.5, None):
            for drop, fill in itertools.product((True, False), repeat=2):
                log = bool((first + sum(map(sum, rest)) + drop + 2 * fill) % 2)
                verify(ctx, x, None, log, threshold, None, drop, fill)


LAYOUTS = [(0, 0), (0, 1), (1, 0), (0, 3), (2, 0)]


def do_joined(ctx, kx, ky, first, layout, join):
    n = 3
    masks = list(itertools.product((False, True), repeat=n))
    a, b = LAYOUTS[layout]
    for rest in itertools.product(masks, repeat=kx + ky - 1):
        gaps = np.array([masks[first], *rest]).T
        x = pd.DataFrame(np.where(gaps[:, :kx], NAN, prices(n, kx, 50)), index=days(a, n), columns=["b", "a"][:kx])
        y = pd.DataFrame(np.where(gaps[:, kx:], NAN, prices(n, ky, 90)), index=days(b, n), columns=["z", "f"][:ky])
        ctx.state((kx, ky, first, layout, join, rest))
        p = sum(map(sum, rest)) + first
        for c, (drop, fill) in enumerate(itertools.product((True, False), repeat=2)):
            for threshold in (1, 0.5) if (p + c) % 2 else (1,):
                verify(ctx, x, y, bool((p + c) % 2), threshold, join, drop, fill)


def do_large(ctx):
    """A longer table, default arguments and other index kinds."""
    base = prices(40, 4, 100)
    x = pd.DataFrame(base, columns=list("dbac"), index=days(0, 1).union(pd.date_range("2024-02-01", periods=39, freq="D")))
    x.iloc[5:9, 1] = NAN
    x.iloc[:3, 2] = NAN
    x.iloc[20, :] = NAN
    x.iloc[30:, 3] = NAN
    for drop, fill in itertools.product((True, False), repeat=2):
        for log in (True, False):
            ctx.state((drop, fill, log))
            verify(ctx, x, None, log, 1, None, drop, fill)
            verify(ctx, x.reset_index(drop=True), None, log, 0.5, None, drop, fill)
    d = prices_to_returns(x)
    e = prices_to_returns(x, log_returns=False, nan_threshold=1, drop_inceptions_nan=True, fill_nan=True)
    ctx.expect(d.equals(e), "defaults", "the defaults differ from the documented ones")
    y = pd.DataFrame(prices(40, 2, 10), columns=["u", "v"], index=x.index[::-1]).iloc[::-1]
    d = prices_to_returns(x, y)
    e = prices_to_returns(x, y, join="outer", log_returns=False, nan_threshold=1, drop_inceptions_nan=True, fill_nan=True)
    ctx.expect(d[0].equals(e[0]) and d[1].equals(e[1]), "defaults", "the defaults with factors differ from the documented ones")
    whole = pd.DataFrame(np.arange(1, 13).reshape(4, 3), columns=list("abc"))
    verify(ctx, whole, None, False, 1, None, True, True)
    verify(ctx, whole, None, True, 0.25, None, False, False)


def do_refused(ctx):
    x = pd.DataFrame(prices(4, 2, 10), columns=list("ab"))
    ctx.state("refused")
    for args, kw in [
        ((x.to_numpy(),), {}),
        ((x["a"],), {}),
        ((x, x.to_numpy()), {}),
        ((x, x["a"]), {}),
        ((x,), {"nan_threshold": 0}),
        ((x,), {"nan_threshold": -0.5}),
        ((x,), {"nan_threshold": 1.5}),
    ]:
        ctx.step()
        try:
            prices_to_returns(*args, **kw)
            ctx.expect(False, "refused", f"prices_to_returns({[type(a) for a in args]}, {kw}) accepted")
        except (TypeError, ValueError):
            ctx.outcome("refused")
