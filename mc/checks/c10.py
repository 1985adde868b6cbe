"""C10: domination and non-dominated sorting."""

import itertools
import math

import numpy as np
from skfolio import ExtraRiskMeasure, PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.population import Population
from skfolio.portfolio import MultiPeriodPortfolio, Portfolio
from skfolio.utils.sorting import dominate, non_denominated_sort

PROPERTY = "C10"
BOUNDS = {
    "quick": "every ordered list of up to 4 fitness vectors over {0,1,2}^d (d = 1, 2), {0,1}^3, up to "
    "6 vectors over {0,1}^2, with infinities; all populations of up to 4 of 7 portfolios with 1-3 measures",
    "thorough": "as quick with lists of 5 vectors over {0,1,2}^2 and {0,1}^3, 7 over {0,1}^2",
}

MEASURES = {
    "mean": [PerfMeasure.MEAN],
    "variance": [RiskMeasure.VARIANCE],
    "sharpe": [RatioMeasure.SHARPE_RATIO],
    "mean-std": [PerfMeasure.MEAN, RiskMeasure.STANDARD_DEVIATION],
    "cdar-mean": [RiskMeasure.CDAR, PerfMeasure.MEAN],
    "wr-mdd": [RiskMeasure.WORST_REALIZATION, RiskMeasure.MAX_DRAWDOWN],
    "mean-wr-sharpe": [PerfMeasure.MEAN, RiskMeasure.WORST_REALIZATION, RatioMeasure.SORTINO_RATIO],
}  # fmt: skip
SIGN = {"PerfMeasure": 1, "RiskMeasure": -1, "ExtraRiskMeasure": -1, "RatioMeasure": 1}


def grid(name):
    return {
        "3^1": list(itertools.product((0.0, 1.0, 2.0), repeat=1)),
        "3^2": list(itertools.product((0.0, 1.0, 2.0), repeat=2)),
        "2^2": list(itertools.product((0.0, 1.0), repeat=2)),
        "2^3": list(itertools.product((-1.0, 1.0), repeat=3)),
        "inf^2": list(itertools.product((-math.inf, 0.0, math.inf), repeat=2)),
        "close^2": list(itertools.product((0.1 + 0.2, 0.3, 1e-300), repeat=2)),
    }[name]


def cases(tier):
    more = 1 if tier == "thorough" else 0
    sizes = {"3^1": 5, "3^2": 4 + more, "2^2": 6 + more, "2^3": 4 + more, "inf^2": 3 + more, "close^2": 3 + more}
    for g, top in sizes.items():
        yield ["vectors", g, 0, []]
        for n in range(1, top + 1):
            for head in itertools.product(range(len(grid(g))), repeat=max(0, n - 3)):
                yield ["vectors", g, n, list(head)]
    for m in MEASURES:
        yield ["portfolios", m]


def dom(a, b):
    return all(x >= y for x, y in zip(a, b)) and any(x > y for x, y in zip(a, b))


def fronts(points):
    left, out = set(range(len(points))), []
    while left:
        front = {i for i in left if not any(dom(points[j], points[i]) for j in left)}
        out.append(front)
        left -= front
    return out


def check_fronts(got, points, first_only, ctx, what):
    want = fronts(points)
    if first_only:
        want = want[:1]
    ctx.step()
    flat = [i for f in got for i in f]
    ctx.expect(len(flat) == len(set(flat)), "repeated", lambda: (what, points, got))
    ctx.expect([set(f) for f in got] == want, "fronts", lambda: (what, points, first_only, got, want))


def vectors(g, n, head, ctx):
    vs = grid(g)
    for rest in itertools.product(range(len(vs)), repeat=n - len(head)):
        points = [vs[i] for i in (*head, *rest)]
        a = np.array(points)
        keep = a.copy()
        for first in (False, True):
            check_fronts(non_denominated_sort(a, first_front_only=first), points, first, ctx, g)
        if n == 2:
            ctx.step()
            got = dominate(a[0], a[1])
            ctx.expect(bool(got) is dom(*points), "dominate", lambda: (points, got))
        ctx.expect(np.array_equal(a, keep), "modified", lambda: points)
        ctx.state(g, points)
    if n == 2:
        for bad in ((np.zeros(1), np.zeros(2)), (np.zeros(2), np.zeros((2, 2)))):
            try:
                dominate(*bad)
                ctx.fail("wrong-shape", str(bad))
            except ValueError:
                ctx.step()
    ctx.trace()
    ctx.outcome(f"vectors-{g}")


def pool():
    """Portfolios with ties, dominated and incomparable members."""
    X = np.array([[0.01, 0.03, -0.01], [-0.02, -0.05, 0.01], [0.015, 0.01, -0.02], [0.0, 0.04, 0.03]])
    ws = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0.5, 0.5, 0), (0, 0.5, 0.5), (1, 0, 0)]
    return X, ws


def portfolios(m, ctx):
    measures = MEASURES[m]
    X, ws = pool()

    def build(i):
        if i < len(ws):
            return Portfolio(X=X, weights=ws[i], fitness_measures=measures, name=f"p{i}")
        return MultiPeriodPortfolio([Portfolio(X=X, weights=ws[1])], fitness_measures=measures, name="mpp")

    members = [build(i) for i in range(len(ws) + 1)]
    points = [
        tuple(SIGN[type(x).__name__] * float(getattr(p, x.value)) for x in measures) for p in members
    ]
    for p, q in zip(members, points):
        ctx.step()
        ctx.expect(np.allclose(p.fitness, q, rtol=1e-9, atol=1e-15), "fitness", lambda: (m, p.fitness, q))
    # a tie up to rounding must be decided alike by the reference and the code
    points = [tuple(float(x) for x in p.fitness) for p in members]
    for i, j in itertools.product(range(len(members)), repeat=2):
        ctx.step()
        ctx.expect(bool(members[i].dominates(members[j])) is dom(points[i], points[j]), "dominates", lambda: (m, i, j))
        ctx.expect(bool(members[i] > members[j]) is dom(points[i], points[j]), "greater", lambda: (m, i, j))
        same = points[i] == points[j]
        ctx.expect(bool(members[i] == members[j]) is same, "equal", lambda: (m, i, j, points))
        ctx.expect(
            bool(members[i] >= members[j]) is (same or dom(points[i], points[j])), "greater-equal", lambda: (m, i, j)
        )
        # every restriction of the objectives
        for r in range(1, len(measures) + 1):
            for sub in itertools.combinations(range(len(measures)), r):
                want = dom([points[i][k] for k in sub], [points[j][k] for k in sub])
                got = members[i].dominates(members[j], idx=slice(sub[0], sub[-1] + 1)) if list(sub) == list(range(sub[0], sub[-1] + 1)) else members[i].dominates(members[j], idx=np.array(sub))
                ctx.step()
                ctx.expect(bool(got) is want, "dominates-subset", lambda: (m, i, j, sub))
    # every single measure, in the right direction
    p, q = build(1), build(2)
    for x in [*PerfMeasure, *RiskMeasure, *ExtraRiskMeasure, *RatioMeasure]:
        p.fitness_measures = q.fitness_measures = [x]
        a, b = (SIGN[type(x).__name__] * float(getattr(z, x.value)) for z in (p, q))
        ctx.step()
        ctx.expect(np.allclose(p.fitness, [a]) and np.allclose(q.fitness, [b]), "single", lambda: x)
        ctx.expect(bool(p.dominates(q)) is (a > b) and bool(q.dominates(p)) is (b > a), "single-direction", lambda: x)
    for n in range(0, 5):
        for pick in itertools.product(range(len(members)), repeat=n):
            pop = Population([members[i] for i in pick])
            for first in (False, True):
                got = pop.non_denominated_sort(first_front_only=first)
                check_fronts(got, [points[i] for i in pick], first, ctx, m)
            ctx.state(m, pick)
        ctx.trace()
    # members ranked by different measures cannot be ranked together
    for other in [*MEASURES.values(), measures[::-1], measures[1:] + measures[:1], measures + measures[-1:]]:
        if other != measures:
            odd = build(0)
            odd.fitness_measures = other
            for pick in ([odd, members[1]], [members[1], odd], [members[0], members[1], odd]):
                ctx.step()
                try:
                    Population(pick).non_denominated_sort()
                    ctx.fail("mixed-measures", str((m, other)))
                except ValueError:
                    pass
    # the chosen measures may be changed afterwards
    p, q = build(0), build(1)
    for name, other in MEASURES.items():
        p.fitness_measures = q.fitness_measures = other
        a, b = ([SIGN[type(x).__name__] * float(getattr(z, x.value)) for x in other] for z in (p, q))
        ctx.step()
        ctx.expect(bool(p.dominates(q)) is dom(a, b) and bool(q.dominates(p)) is dom(b, a), "changed", lambda: (m, name))
    ctx.outcome(f"portfolios-{m}")


def run_case(case, ctx):
    if case[0] == "vectors":
        vectors(*case[1:], ctx)
    else:
        portfolios(case[1], ctx)
