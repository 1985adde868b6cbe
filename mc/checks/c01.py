"""C01: walk-forward folds, in rows and in calendar periods."""

import datetime as dt
import itertools

import numpy as np
import pandas as pd
from skfolio.model_selection import WalkForward

PROPERTY = "C01"
BOUNDS = {
    "quick": "rows: n<=12, train,test<=n+1, purge<=4, all options; calendars: 3 kinds x 4 "
    "starts x 2 lengths, 8 frequencies x 6 offsets x rounding x 5 train lengths x 2 test "
    "lengths x 2 purges x expanding x reduced",
    "thorough": "rows: n<=18; calendars: 4 kinds x 14 starts x 6 lengths, same options",
}
ASSUMPTIONS = [
    "period starts are the dates of the frequency grid, shifted by the offset, that fall inside the calendar",
]

FREQS = ["MS", "ME", "W-FRI", "W-MON", "WOM-3FRI", "2W-WED", "QS", "B"]
OFFSETS = ["none", "+2d", "-2d", "+3B", "-3B", "+1mo"]
OFF = {
    "none": None,
    "+2d": pd.Timedelta(days=2),
    "-2d": dt.timedelta(days=-2),
    "+3B": pd.offsets.BDay(3),
    "-3B": pd.offsets.BDay(-3),
    "+1mo": pd.DateOffset(months=1),
}
TRAINS = {
    "1": 1,
    "2": 2,
    "10d": dt.timedelta(days=10),
    "1mo": pd.DateOffset(months=1),
    "7B": pd.offsets.BDay(7),
}


def calendar(kind, start, length):
    first = pd.Timestamp("2020-01-27") + pd.Timedelta(days=start)
    if kind == "daily":
        return pd.date_range(first, periods=length, freq="D")
    days = pd.bdate_range(first, periods=length + 6)
    if kind == "bday":
        return days[:length]
    if kind == "hour":
        return days[:length] + pd.Timedelta(hours=16)
    # holidays: drop days around week and month turns
    drop = {5, 9, 10, 20, 25, 26}
    return pd.DatetimeIndex([d for i, d in enumerate(days) if i not in drop])[:length]


def cases(tier):
    q = tier == "quick"
    for n in range(2, (12 if q else 18) + 1):
        yield ["rows", n]
    kinds = ["daily", "bday", "holes"] + ([] if q else ["hour"])
    starts = [0, 4, 5, 33] if q else list(range(14))
    lengths = [26, 69] if q else [24, 25, 47, 48, 49, 71]
    for k, s, n, f, o in itertools.product(kinds, starts, lengths, FREQS, OFFSETS):
        if f == "2W-WED" and o != "none":
            continue  # the phase of a multiple depends on where the grid is anchored
        yield ["dates", k, s, n, f, o]


def compare(ctx, what, got, want, n):
    ctx.trace()
    prev_end = -1
    for tr, te in got:
        for a in (tr, te):
            ctx.expect(
                len(a) == 0 or (a[0] >= 0 and a[-1] < n and np.all(np.diff(a) == 1)),
                "invalid-rows",
                lambda: (what, tr, te),
            )
        if len(te):
            ctx.expect(te[0] > prev_end, "test-overlap", lambda: (what, got))
            prev_end = te[-1]
            ctx.expect(
                len(tr) == 0 or tr[-1] < te[0], "train-after-test", lambda: (what, tr, te)
            )
    g = [(list(map(int, a)), list(map(int, b))) for a, b in got]
    ctx.expect(len(g) == len(want), "fold-count", lambda: (what, g, want))
    for x, w in zip(g, want, strict=True):
        ctx.step()
        ctx.state(what[0], x[0][:1], x[0][-1:], x[1][:1], x[1][-1:], n)
        ctx.expect(x == w, "fold-rows", lambda: (what, x, w))


def rows_case(n, ctx):
    X = np.zeros((n, 2))
    for tr, te, pu, ex, rd in itertools.product(
        range(1, n + 2), range(1, n + 2), range(5), [False, True], [False, True]
    ):
        cv = WalkForward(
            train_size=tr, test_size=te, purged_size=pu, expend_train=ex, reduce_test=rd
        )
        what = ["rows", n, tr, te, pu, ex, rd]
        if tr + pu >= n:
            try:
                list(cv.split(X))
            except ValueError:
                ctx.outcome("refused")
                continue
            ctx.fail("not-refused", what)
        want = []
        t = tr + pu
        while t < n:
            full = t + te <= n
            if not full and not rd:
                break
            want.append(
                (
                    list(range(0 if ex else t - pu - tr, t - pu)),
                    list(range(t, min(n, t + te))),
                )
            )
            t += te
        got = list(cv.split(X))
        compare(ctx, what, got, want, n)
        ctx.outcome(f"folds{min(len(want), 3)}")
        ctx.expect(cv.get_n_splits(X) == len(want), "n-splits", what)


def boundaries(index, freq, off, offset):
    """Positions in the calendar of the period starts, before rounding."""
    first, last = index[0], index[-1]
    if freq == "2W-WED":
        grid = pd.date_range(first, last, freq=freq)
    else:
        grid = pd.date_range(
            first - pd.Timedelta(days=200), last + pd.Timedelta(days=200), freq=freq
        )
    dates = [d if offset is None else d + offset for d in grid]
    return [d for d in dates if first <= d <= last]


def snap(index, d, previous):
    rows = [i for i, t in enumerate(index) if (t <= d if previous else t >= d)]
    return rows[-1] if previous else rows[0]


def dates_case(kind, start, length, freq, off, ctx):
    index = calendar(kind, start, length)
    n = len(index)
    X = pd.DataFrame(np.zeros((n, 1)), index=index)
    offset = OFF[off]
    bounds = boundaries(index, freq, off, offset)
    snapped = {p: [snap(index, d, p) for d in bounds] for p in (False, True)}
    tstart = {}
    for name in TRAINS:
        if name in ("1", "2"):
            continue
        tstart[name] = []
        for d in bounds:
            s = d - TRAINS[name]
            tstart[name].append(snap(index, s, True) if s >= index[0] else None)
    for prev, tname, te, pu, ex, rd in itertools.product(
        [False, True], TRAINS, [1, 2], [0, 2], [False, True], [False, True]
    ):
        idx = snapped[prev]
        m = len(idx)
        what = ["dates", kind, start, length, freq, off, prev, tname, te, pu, ex, rd]
        want = []
        if tname in ("1", "2"):
            k = int(tname)
            firsts = list(range(k, m, te))
            begin = [idx[i - k] for i in firsts]
        else:
            ok = [i for i in range(m) if tstart[tname][i] is not None]
            firsts = list(range(ok[0], m, te)) if ok else []
            begin = [tstart[tname][i] for i in firsts]
        for i, b in zip(firsts, begin, strict=True):
            if i + te < m:
                stop = idx[i + te]
            elif rd:
                stop = n
            else:
                break
            want.append(
                (
                    list(range(0 if ex else b, idx[i] - pu)),
                    list(range(idx[i], stop)),
                )
            )
        cv = WalkForward(
            train_size=TRAINS[tname],
            test_size=te,
            purged_size=pu,
            expend_train=ex,
            reduce_test=rd,
            freq=freq,
            freq_offset=offset,
            previous=prev,
        )
        got = list(cv.split(X))
        compare(ctx, what, got, want, n)
        ctx.expect(
            cv.get_n_splits(X) == len(want), "n-splits", lambda: (what, len(want))
        )
        ctx.outcome(f"period-folds{min(len(want), 3)}")


def run_case(case, ctx):
    if case[0] == "rows":
        rows_case(case[1], ctx)
    else:
        dates_case(*case[1:], ctx)
