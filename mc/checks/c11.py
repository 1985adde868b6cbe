"""C11: populations as typed lists, selections, order statistics and tables."""

import copy
import itertools

import numpy as np
import pandas as pd
from skfolio import PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.population import Population
from skfolio.portfolio import MultiPeriodPortfolio, Portfolio
from skfolio.utils.tools import deduplicate_names

from mc.lib import frame, same_value

PROPERTY = "C11"
BOUNDS = {
    "quick": "every sequence of up to 3 of 33 list operations; all ordered populations of up to 3 of 7 portfolios "
    "(ties, repeated names and tags, multi-period) with 6 measures and 9 quantiles; all tables; all names of up to 4",
    "thorough": "as quick with sequences of 4 operations and populations of 4 portfolios",
}

NAMES = ["a", "b", "a", "c", "a_1", "m", "b"]
TAGS = ["x", "y", None, "x", "y", "x", "x"]
MEASURES = [PerfMeasure.MEAN, RiskMeasure.VARIANCE, RiskMeasure.CVAR, RiskMeasure.MAX_DRAWDOWN,
            RatioMeasure.SHARPE_RATIO, RatioMeasure.CALMAR_RATIO]  # fmt: skip


def members():
    X = frame([[0.01, 0.03, -0.01], [-0.02, -0.05, 0.01], [0.015, 0.01, -0.02], [0.0, 0.04, 0.03], [0.02, -0.01, -0.03]])
    Z = frame([[0.02, 0.01], [-0.01, 0.03], [0.03, -0.02], [0.01, -0.04]], cols=["A2", "B9"], start="2021-01-06")
    ps = [
        Portfolio(X=X, weights=[1, 0, 0]),
        Portfolio(X=X, weights=[0, 1, 0]),
        Portfolio(X=X, weights=[0.2, 0.3, 0.5]),
        Portfolio(X=X, weights=[1, 0, 0]),
        Portfolio(X=Z, weights=[0.6, 0.4]),
        MultiPeriodPortfolio([Portfolio(X=X.iloc[:2], weights=[0.5, 0.5, 0], name="a"),
                              Portfolio(X=X.iloc[2:], weights=[0, 0.5, 0.5], name="a")]),
        Portfolio(X=Z, weights=[0, 1]),
    ]  # fmt: skip
    for p, n, t in zip(ps, NAMES, TAGS):
        p.name, p.tag = n, t
    return ps


BAD = [None, "a", 3, [1]]


def ops():
    """name -> (function on population or list, kind): kind 'same' acts on both alike."""
    o = {}
    for i in (0, 1, 4):
        o[f"append{i}"] = lambda c, P, i=i: c.append(P[i])
    for k in (0, 1, -1, 9):
        o[f"insert@{k}"] = lambda c, P, k=k: c.insert(k, P[2])
    o["extend-list"] = lambda c, P: c.extend([P[3], P[5]])
    o["extend-pop"] = lambda c, P: c.extend(Population([P[3], P[1]]))
    o["extend-gen"] = lambda c, P: c.extend(P[i] for i in (1, 0))
    o["extend-self"] = lambda c, P: c.extend(c)
    o["iadd-pop"] = lambda c, P: c.__iadd__(Population([P[6]]))
    o["iadd-list"] = lambda c, P: c.__iadd__([P[6], P[0]])
    for k in (0, -1, 1):
        o[f"set@{k}"] = lambda c, P, k=k: c.__setitem__(k, P[5])
    o["set[0:2]"] = lambda c, P: c.__setitem__(slice(0, 2), [P[4], P[3], P[6]])
    o["set[:]"] = lambda c, P: c.__setitem__(slice(None), [P[1]])
    o["set[::2]"] = lambda c, P: c.__setitem__(slice(None, None, 2), [P[0]] * len(c[::2]))
    for k in (0, -1, 2):
        o[f"del@{k}"] = lambda c, P, k=k: c.__delitem__(k)
    o["del[1:]"] = lambda c, P: c.__delitem__(slice(1, None))
    o["pop"] = lambda c, P: c.pop()
    o["pop0"] = lambda c, P: c.pop(0)
    o["remove"] = lambda c, P: c.remove(P[2])
    o["reverse"] = lambda c, P: c.reverse()
    o["clear"] = lambda c, P: c.clear()
    o["sort"] = lambda c, P: c.sort(key=lambda p: (p.name, str(p.tag)))
    o["bad-append"] = None
    o["bad-extend"] = None
    o["bad-set"] = None
    o["bad-insert"] = None
    o["bad-iadd"] = None
    return o


OPS = list(ops())


def cases(tier):
    depth = 3 if tier == "quick" else 4
    yield ["list", 0, []]
    for head in itertools.product(range(len(OPS)), repeat=max(1, depth - 2)):
        yield ["list", depth, list(head)]
    for first in range(-1, 7):
        yield ["stats", 3 if tier == "quick" else 4, first]
    yield ["params"]
    for first in range(4):
        yield ["names", 4 if tier == "quick" else 5, first]


def same_items(pop, ref):
    return len(pop) == len(ref) and all(a is b for a, b in zip(pop, ref))


def apply_op(name, pop, ref, P, ctx):
    ctx.step()
    fn = ops()[name]
    before = list(ref)
    if fn is None:
        for bad in BAD:
            try:
                if name == "bad-append":
                    pop.append(bad)
                elif name == "bad-extend":
                    pop.extend([P[0], bad, P[1]])
                elif name == "bad-insert":
                    pop.insert(0, bad)
                elif name == "bad-iadd":
                    pop += [P[1], bad]
                elif len(pop) == 0 or bad is None:
                    pop[0:0] = [P[0], bad]
                else:
                    pop[-1] = bad
                ctx.fail(name, f"accepted {bad!r}: {[type(x).__name__ for x in pop]}")
            except TypeError:
                pass
            ctx.expect(same_items(pop, before), f"{name}-changed", lambda: (name, bad, list(pop)))
        return
    try:
        want = fn(ref, P)
        error = None
    except (IndexError, ValueError) as e:
        error = type(e)
    try:
        got = fn(pop, P)
        ctx.expect(error is None, "accepted", lambda: (name, error))
        if name.startswith("pop"):
            ctx.expect(got is want, "popped", lambda: name)
    except (IndexError, ValueError) as e:
        ctx.expect(error is type(e), "refused", lambda: (name, repr(e), error))


def observe(pop, ref, P, ctx):
    ctx.expect(isinstance(pop, Population) and same_items(pop, ref), "contents", lambda: (list(pop), ref))
    for s in (slice(None), slice(1), slice(1, None), slice(None, None, -1), slice(-2, None)):
        got = pop[s]
        ctx.expect(isinstance(got, Population) and same_items(got, ref[s]), "slice", lambda: (s, got))
    for i in range(-len(ref), len(ref)):
        ctx.expect(pop[i] is ref[i], "item", i)
    for bad in (len(ref), -len(ref) - 1):
        try:
            pop[bad]
            ctx.fail("item-out-of-range", bad)
        except IndexError:
            pass
    other = Population([P[6], P[0]])
    got = pop + other
    ctx.expect(
        isinstance(got, Population) and same_items(got, ref + [P[6], P[0]]) and same_items(pop, ref) and len(other) == 2,
        "sum",
        lambda: got,
    )
    for bad in ([P[0]], 3, P[0]):
        try:
            pop + bad
            ctx.fail("sum-accepted", repr(bad))
        except TypeError:
            pass
    ctx.expect(bool(pop) is bool(ref) and (P[2] in pop) is (P[2] in ref), "contains")
    ctx.expect(same_items(copy.copy(pop), ref) and same_items(reversed(pop) and list(reversed(pop)), ref[::-1]), "copy")


def list_ops(depth, head, ctx):
    P = members()
    for bad in BAD:
        try:
            Population([P[0], bad])
            ctx.fail("constructed", repr(bad))
        except TypeError:
            ctx.step()
    for n in range(0, depth - len(head) + 1) if depth else [0]:
        for tail in itertools.product(range(len(OPS)), repeat=n):
            seq = [*head, *tail]
            for start in ([], [0, 2, 1]) if len(seq) < 3 else ([0, 2, 1],):
                ref = [P[i] for i in start]
                pop = Population(list(ref))
                for op in seq:
                    apply_op(OPS[op], pop, ref, P, ctx)
                    ctx.expect(same_items(pop, ref), "diverged", lambda: ([OPS[x] for x in seq], list(pop), ref))
                observe(pop, ref, P, ctx)
                ctx.state("list", [P.index(x) for x in ref])
                ctx.trace()
    ctx.outcome("list")


def stats(depth, first, ctx):
    P = members()
    vals = {m: [float(getattr(p, m.value)) for p in P] for m in MEASURES}
    picks = [()] if first < 0 else [
        (first, *rest) for n in range(depth) for rest in itertools.product(range(7), repeat=n)
    ]  # fmt: skip
    for pick in picks:
        pop = Population([P[i] for i in pick])
        for m, v in vals.items():
            v = [v[i] for i in pick]
            ctx.step()
            got = pop.measures(measure=m)
            ctx.expect(np.allclose(got, v, rtol=1e-12) and len(got) == len(v), "measures", lambda: (pick, m, got))
            for rev in (False, True):
                out = pop.sort_measure(measure=m, reverse=rev)
                w = [float(getattr(p, m.value)) for p in out]
                ctx.expect(
                    isinstance(out, Population)
                    and sorted(map(id, out)) == sorted(map(id, pop))
                    and w == sorted(v, reverse=rev)
                    and same_items(pop, [P[i] for i in pick]),
                    "sort",
                    lambda: (pick, m, rev, w),
                )
            if not pick:
                continue
            ctx.expect(np.isclose(pop.measures_mean(m), sum(v) / len(v), rtol=1e-10, atol=1e-15), "mean", lambda: (pick, m))
            dev = (sum((x - sum(v) / len(v)) ** 2 for x in v) / len(v)) ** 0.5
            ctx.expect(np.isclose(pop.measures_std(m), dev, rtol=1e-8, atol=1e-12), "std", lambda: (pick, m))
            lo, hi = pop.min_measure(m), pop.max_measure(m)
            ctx.expect(any(lo is p for p in pop) and getattr(lo, m.value) == min(v), "min", lambda: (pick, m))
            ctx.expect(any(hi is p for p in pop) and getattr(hi, m.value) == max(v), "max", lambda: (pick, m))
            s = sorted(v)
            for q in (0.0, 0.1, 0.25, 1 / 3, 0.5, 0.6, 0.75, 0.9, 1.0):
                p = pop.quantile(measure=m, q=q)
                t = len(s) * q
                ranks = {r for r in range(1, len(s) + 1) if abs(r - t) <= 0.5 + 1e-9} or {1}
                ctx.step()
                ctx.expect(
                    any(p is x for x in pop) and getattr(p, m.value) in {s[r - 1] for r in ranks},
                    "quantile",
                    lambda: (pick, m, q, s, getattr(p, m.value)),
                )
        for q in (-0.1, 1.1):
            try:
                pop.quantile(measure=m, q=q)
                ctx.fail("quantile-accepted", q)
            except ValueError:
                ctx.step()
        for names in (None, "a", "b", "zz", "a_1", "ab", ["a", "b"], ["m", "a_1"], []):
            for tags in (None, "x", "zz", "xy", ["x", "y"], ["y"], []):
                want = [
                    P[i]
                    for i in pick
                    if (names is None or NAMES[i] in ([names] if isinstance(names, str) else names))
                    and (tags is None or TAGS[i] in ([tags] if isinstance(tags, str) else tags))
                ]
                got = pop.filter(names=names, tags=tags)
                ctx.step()
                ctx.expect(isinstance(got, Population) and same_items(got, want), "filter", lambda: (pick, names, tags))
        if pick and len(pick) <= 3:
            tables(pop, pick, ctx)
        ctx.state("stats", pick)
        ctx.trace()
    ctx.outcome("stats")


def aligned(df, columns, index=None):
    """Columns (list of series) side by side, missing entries zero, in the rows of df."""
    rows = list(df.index)
    for j, c in enumerate(columns):
        for r in rows:
            want = float(c[r]) if r in c.index else 0.0
            if not np.isclose(float(df.iloc[rows.index(r), j]), want, rtol=1e-9, atol=1e-14):
                return False
    return len(set(rows)) == len(rows) and set(rows) == set().union(*[set(c.index) for c in columns])


def tables(pop, pick, ctx):
    # one summary per member, under its name
    for formatted in (True, False):
        df = pop.summary(formatted=formatted)
        ctx.step()
        ctx.expect(list(df.columns) == [p.name for p in pop], "summary-names", lambda: (pick, list(df.columns)))
        for j, p in enumerate(pop):
            one = p.summary(formatted=formatted)
            col = df.iloc[:, j].reindex(one.index)
            ok = list(col) == list(one) if formatted else np.allclose(
                col.astype(float), one.astype(float), equal_nan=True, rtol=1e-12
            )
            ctx.expect(ok, "summary", lambda: (pick, p.name))
    # composition and contribution
    for sub in (True, False):
        pieces, labels = [], []
        for p in pop:
            multi = isinstance(p, MultiPeriodPortfolio)
            for q in p if multi else [p]:
                pieces.append(pd.Series({a: w for a, w in zip(q.assets, q.weights) if w != 0}))
                labels.append(p.name if not sub or not multi else None)
        df = pop.composition(display_sub_ptf_name=sub)
        ctx.step()
        ctx.expect(df.shape[1] == len(pieces) and len(set(df.columns)) == len(pieces), "composition-columns", lambda: (pick, sub, list(df.columns)))
        ctx.expect(aligned(df, pieces), "composition", lambda: (pick, sub, df))
        for c, lab in zip(df.columns, labels):
            ctx.expect(lab is None or str(c).startswith(lab), "composition-label", lambda: (pick, sub, list(df.columns)))
        for m in (RiskMeasure.VARIANCE, PerfMeasure.MEAN):
            df = pop.contribution(measure=m, display_sub_ptf_name=sub)
            want = [
                pd.Series({a: c for a, c, w in zip(q.assets, q.contribution(measure=m), q.weights) if w != 0})
                for p in pop
                for q in (p if isinstance(p, MultiPeriodPortfolio) else [p])
            ]
            ctx.step()
            ctx.expect(df.shape[1] == len(want) and len(set(df.columns)) == len(want), "contribution-columns", lambda: (pick, sub))
            ctx.expect(aligned(df, want), "contribution", lambda: (pick, sub, m, df))
    # rolling
    if len(pick) <= 2:
        for m in (PerfMeasure.MEAN, RiskMeasure.MAX_DRAWDOWN):
            df = pop.rolling_measure(measure=m, window=3)
            ctx.step()
            want_rows = sorted(set().union(*[set(p.observations) for p in pop]))
            ctx.expect(list(df.index) == want_rows, "rolling-rows", lambda: (pick, list(df.index)))
            ctx.expect(df.shape[1] == len(pick) and len(set(df.columns)) == len(pick), "rolling-columns", lambda: (pick, list(df.columns)))
            for j, p in enumerate(pop):
                one = p.rolling_measure(measure=m, window=3).reindex(df.index)
                ctx.expect(np.allclose(df.iloc[:, j], one, equal_nan=True), "rolling", lambda: (pick, m, j))
                ctx.expect(str(df.columns[j]).startswith(p.name), "rolling-label", lambda: (pick, list(df.columns)))


def params(ctx):
    values = dict(compounded=True, risk_free_rate=0.003, annualized_factor=12, cvar_beta=0.6, tag="t", name="n",
                  min_acceptable_return=0.001, fitness_measures=[PerfMeasure.MEAN, RiskMeasure.CVAR],
                  entropic_risk_measure_theta=2.0, drawdown_at_risk_beta=0.5)  # fmt: skip
    for r in (1, 2):
        for keys in itertools.combinations(values, r):
            for pick in ([], [0], [0, 5, 4], [5, 5]):
                P = members()
                pop = Population([P[i] for i in pick])
                [(p.cvar, p.mean, p.max_drawdown) for p in pop]
                kw = {k: values[k] for k in keys}
                got = pop.set_portfolio_params(**kw)
                ctx.step()
                ctx.expect(got is pop, "params-return", lambda: (keys, pick, got))
                Q = members()
                for p, i in zip(pop, pick):
                    for k in keys:
                        ctx.expect(same_value(getattr(p, k), values[k]), "params-set", lambda: (k, getattr(p, k)))
                        setattr(Q[i], k, values[k])
                    for m in ("cvar", "mean", "max_drawdown", "sharpe_ratio", "annualized_mean"):
                        ctx.expect(np.isclose(getattr(p, m), getattr(Q[i], m), rtol=1e-10), "params-effect", lambda: (keys, m))
                for p, q, i in zip(P, members(), range(7)):
                    if i not in pick:
                        ctx.expect(p.compounded == q.compounded and p.name == q.name, "params-others", lambda: keys)
                ctx.state(keys, pick)
            P = members()
            pop = Population(P)
            try:
                pop.set_portfolio_params(**kw, nonsense=1)
                ctx.fail("params-unknown", keys)
            except ValueError:
                ctx.step()
            for p, q in zip(P, members()):
                ctx.expect(
                    all(same_value(getattr(p, k), getattr(q, k)) for k in keys if k != "name") and p.name == q.name,
                    "params-partly-set",
                    lambda: keys,
                )
    P = members()
    pop = Population(P)
    ctx.expect(pop.set_portfolio_params() is pop, "params-empty")
    # members measured differently cannot be sorted together
    P[0].fitness_measures = [PerfMeasure.MEAN]
    try:
        pop.non_denominated_sort()
        ctx.fail("mixed-fitness")
    except ValueError:
        ctx.step()
    ctx.trace()
    ctx.outcome("params")


def names(depth, first, ctx):
    """Removing duplicates keeps the first names and never creates new ones."""
    alpha = ["a", "a_1", "a_1_1", "b"]
    for n in range(depth):
        for rest in itertools.product(range(4), repeat=n):
            given = [alpha[first]] + [alpha[i] for i in rest]
            keep = list(given)
            out = list(deduplicate_names(given))
            ctx.step()
            ctx.expect(len(out) == len(given) and len(set(out)) == len(out), "names-unique", lambda: (given, out))
            ctx.expect(all(o.startswith(g) for o, g in zip(out, given)), "names-kept", lambda: (given, out))
            ctx.expect(given == keep, "names-modified", lambda: keep)
            if len(set(given)) == len(given):
                ctx.expect(out == given, "names-changed", lambda: (given, out))
            ctx.state(given)
    ctx.trace()
    ctx.outcome("names")


def run_case(case, ctx):
    dict(list=list_ops, stats=stats, params=params, names=names)[case[0]](*case[1:], ctx)
