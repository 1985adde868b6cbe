"""C02: combinatorial purged folds."""

import itertools
import math

import numpy as np
from skfolio.model_selection import CombinatorialPurgedCV, optimal_folds_number

PROPERTY = "C02"
BOUNDS = {
    "quick": "rows<=60, folds 3..8, test folds 2..folds-1, purge 0..3, embargo 0..3; "
    "recommendation: observations<=36, all targets on a grid",
    "thorough": "rows<=90, folds 3..9, purge 0..6, embargo 0..6; recommendation: observations<=48",
}


def cases(tier):
    q = tier == "quick"
    for f in range(3, 9 if q else 10):
        for t in range(2, f):
            for n in range(f, (60 if q else 90) + 1):
                yield ["split", n, f, t, 3 if q else 6]
    for n in range(3, (36 if q else 48) + 1):
        yield ["optimal", n]
    yield ["optimal", 45]
    yield ["optimal", 64]
    yield ["refused"]


def split_case(n, f, t, most, ctx):
    size = n // f
    blocks = [list(range(j * size, (j + 1) * size)) for j in range(f - 1)]
    blocks.append(list(range((f - 1) * size, n)))
    X = np.zeros((n, 2))
    for pu, em in itertools.product(range(most + 1), repeat=2):
        what = dict(n=n, folds=f, tests=t, purge=pu, embargo=em)
        cv = CombinatorialPurgedCV(
            n_folds=f, n_test_folds=t, purged_size=pu, embargo_size=em
        )
        if pu + em >= size - 1:
            try:
                list(cv.split(X))
            except ValueError:
                ctx.outcome("refused")
                continue
            ctx.fail("not-refused", what)
        splits = list(cv.split(X))
        ctx.trace()
        ctx.outcome(f"splits-{t}of{f}")
        ctx.expect(cv.n_splits == len(splits) == math.comb(f, t), "n-splits", what)
        combos = set()
        for train, tests in splits:
            ctx.step()
            tests = [list(map(int, x)) for x in tests]
            ctx.expect(all(x in blocks for x in tests), "test-block", lambda: (what, tests))
            combo = tuple(blocks.index(x) for x in tests)
            ctx.expect(combo == tuple(sorted(set(combo))), "test-order", (what, combo))
            ctx.expect(len(combo) == t, "test-count", (what, combo))
            ctx.expect(combo not in combos, "combo-twice", (what, combo))
            combos.add(combo)
            test_rows = set().union(*map(set, tests))
            allowed = []
            for r in range(n):
                if r in test_rows:
                    continue
                near_next = any(r + k in test_rows for k in range(1, pu + 1))
                near_prev = any(r - k in test_rows for k in range(1, pu + em + 1))
                if not (near_next or near_prev):
                    allowed.append(r)
            ctx.expect(
                list(map(int, train)) == allowed,
                "train-rows",
                lambda: (what, combo, list(map(int, train)), allowed),
            )
            ctx.state(n, f, combo, len(allowed))
        # paths
        n_paths = math.comb(f, t) * t // f
        ids = np.asarray(cv.get_path_ids())
        rec = np.asarray(cv.recombined_paths)
        ctx.expect(cv.n_test_paths == n_paths, "n-paths", what)
        ctx.expect(ids.shape == (len(splits), t), "path-ids-shape", what)
        ctx.expect(rec.shape == (f, n_paths), "paths-shape", what)
        paths = [[] for _ in range(n_paths)]
        for i, (_, tests) in enumerate(splits):
            for j, x in enumerate(tests):
                p = int(ids[i, j])
                ctx.expect(0 <= p < n_paths, "path-id", what)
                paths[p].append(list(map(int, x)))
                fold = blocks.index(list(map(int, x)))
                ctx.expect(int(rec[fold, p]) == i, "paths-table", (what, i, j))
        for p in paths:
            ctx.step()
            rows = [r for x in p for r in x]
            ctx.expect(rows == list(range(n)), "path-rows", lambda: (what, paths))
        tsi = np.asarray(cv.test_set_index)
        ctx.expect({tuple(map(int, r)) for r in tsi} == combos, "test-set-index", what)
        binary = np.asarray(cv.binary_train_test_sets)
        for i, (_, tests) in enumerate(splits):
            col = [1.0 if b in [list(map(int, x)) for x in tests] else 0.0 for b in blocks]
            ctx.expect(list(binary[:, i]) == col, "binary-sets", what)
        s = cv.summary(X)
        ctx.expect(
            s["Number of Observations"] == n
            and s["Total Number of Folds"] == f
            and s["Number of Test Folds"] == t
            and s["Purge Size"] == pu
            and s["Embargo Size"] == em
            and s["Number of Test Paths"] == n_paths
            and s["Number of Training Combinations"] == len(splits)
            and s["Average Training Size"] == int(n / f * (f - t)),
            "summary",
            what,
        )


def optimal_case(n, ctx):
    for ts, tp, (wt, wp) in itertools.product(
        sorted({1, 2, n // 3 + 1, n // 2 + 1, n - 1, n}),
        [1, 2, 3, 5, 10, 20, 100] if n < 40 else [2, 9, n - 3, n - 2, 900],
        [(1, 1), (1, 0), (0, 1), (0.1, 3), (5, 1)],
    ):

        def cost(x, y, ts=ts, tp=tp, wt=wt, wp=wp):
            paths = math.comb(x, y) * y // x
            size = n / x * (x - y)
            return wp * abs(paths - tp) / tp + wt * abs(size - ts) / ts

        best = min(cost(x, y) for x in range(3, n + 1) for y in range(2, x))
        x, y = optimal_folds_number(n, ts, tp, wt, wp)
        ctx.step()
        ctx.trace()
        ctx.state(n, x, y)
        ctx.expect(3 <= x <= n and 2 <= y < x, "optimal-range", (n, ts, tp, x, y))
        ctx.expect(
            cost(x, y) <= best * (1 + 1e-12) + 1e-12,
            "optimal-cost",
            (n, ts, tp, wt, wp, x, y, cost(x, y), best),
        )


def run_case(case, ctx):
    if case[0] == "split":
        split_case(*case[1:], ctx)
    elif case[0] == "optimal":
        optimal_case(case[1], ctx)
    else:
        for f, t, pu, em in itertools.product([0, 1, 2, 3, 4], [0, 1, 2, 3, 4, 5], [-1, 0], [-1, 0]):
            ok = f >= 3 and 2 <= t < f and pu == 0 and em == 0
            try:
                CombinatorialPurgedCV(f, t, pu, em)
                got = True
            except ValueError:
                got = False
            ctx.step()
            ctx.expect(got == ok, "refusal", (f, t, pu, em, got))
        ctx.trace()
