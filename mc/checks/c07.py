"""C07: copies and serialised objects are faithful and independent."""

import copy
import itertools
import pickle

import numpy as np
import sklearn.base as skb
from skfolio.measures import RatioMeasure
from skfolio.population import Population
from skfolio.portfolio import MultiPeriodPortfolio, Portfolio

from mc import catalog
from mc.checks import c04
from mc.lib import same_value

PROPERTY = "C07"
BOUNDS = {
    "quick": "portfolios and multi-period portfolios: 15 reads/changes, all histories of length "
    "<= 2 before the copy x 6 ways of copying (4 of them after histories ending in a read) x 1 change on "
    "either side (all histories of length 1 x 2 changes on either side, the second from 2); populations: all pairs of 8 operations; 79 model "
    "configurations x fitted/unfitted x 7 ways of copying x refit/set_params on either side",
    "thorough": "as quick with 2 changes on either side after histories of length 2",
}

COPIERS = {
    "copy": copy.copy,
    "method": lambda p: p.copy(),
    "deepcopy": copy.deepcopy,
    "pickle2": lambda p: pickle.loads(pickle.dumps(p, protocol=2)),
    "pickle": lambda p: pickle.loads(pickle.dumps(p, protocol=pickle.HIGHEST_PROTOCOL)),
    "copy-twice": lambda p: copy.copy(copy.deepcopy(p)),
}
OPS = [
    ["set", "risk_free_rate", 0.001], ["set", "annualized_factor", 12.0], ["set", "compounded", True],
    ["set", "min_acceptable_return", 0.002], ["set", "cvar_beta", 0.6], ["set", "edar_beta", 0.6],
    ["set", "entropic_risk_measure_theta", 0.2], ["set", "fitness_measures", "cdar-sharpe"],
    ["set", "name", "other"], ["set", "value_at_risk_beta", 0.6],
    ["read", "sharpe_ratio"], ["read", "summary"], ["read", "fitness"], ["read", "cdar"], ["clear"],
]  # fmt: skip
LATER = [o for o in OPS if o[0] == "set"]
OBSERVE = ["mean", "sharpe_ratio", "annualized_sortino_ratio", "semi_variance", "cvar_ratio",
           "max_drawdown", "cdar", "edar", "fitness", "cumulative_returns", "drawdowns", "returns",
           "value_at_risk", "entropic_risk_measure", "annualized_mean"]  # fmt: skip


def apply(p, settings, op):
    if op[0] == "set":
        c04.change(p, op[1], op[2])
        return {**settings, op[1]: op[2]}
    if op[0] == "read":
        c04.READS[op[1]](p)
    else:
        p.clear()
    return settings


def look(ctx, p, kind, settings, what):
    c04.observe(ctx, p, kind, settings, OBSERVE, what)
    ctx.expect(p.tag == "t", "tag", what)
    ctx.expect(len(p.observations) == p.n_observations == 9, "observations", what)
    if kind == "single":
        ctx.expect(same_value(p.weights, np.array([0.5, 0.3, 0.2])), "weights", what)
        ctx.expect(list(p.assets) == list(c04.X.columns), "assets", what)
        ctx.expect(list(p.observations) == list(c04.X.index), "index", what)
    else:
        ctx.expect([q.name for q in p] == ["p0", "p1"], "sub-portfolios", what)
        ctx.expect(same_value(p[1].weights, np.array([0.1, 0.2, 0.7])), "sub-weights", what)
    try:
        p.returns = np.zeros(9)
    except AttributeError:
        pass
    else:
        ctx.fail("protection", what)


def cases(tier):
    n = len(OPS)
    for kind in ("single", "multi"):
        for c in COPIERS:
            for i in range(n):
                yield ["history", kind, c, i, tier]
    for c in COPIERS:
        yield ["members", c]
    for c in ("copy", "deepcopy", "pickle"):
        yield ["population", c]
    for name in catalog.ALL:
        yield ["model", name]


def histories(i):
    yield [OPS[i]]
    for o in OPS:
        yield [OPS[i], o]


def run_history(kind, how, i, tier, ctx):
    sides = ("original", "copy")
    for pre in histories(i):
        n_post = 2 if len(pre) == 1 or tier == "thorough" else 1
        if tier == "quick" and how not in ("copy", "pickle") and len(pre) == 2 and pre[1][0] == "set":
            continue
        for post in itertools.product(itertools.product(sides, LATER), repeat=n_post):
            if n_post == 2 and post[1][1] not in LATER[2:3] + LATER[7:8]:
                continue
            p, s = c04.build(kind, c04.DEFAULT), dict(c04.DEFAULT)
            for op in pre:
                s = apply(p, s, op)
            q = COPIERS[how](p)
            ctx.expect(type(q) is type(p) and q is not p, "type", how)
            model = {"original": [p, s], "copy": [q, dict(s)]}
            ctx.expect(p == q and q == p, "equality", (pre, how))
            for side, op in post:
                model[side][1] = apply(model[side][0], model[side][1], op)
            what = [pre, how, post]
            for side in sides:
                look(ctx, model[side][0], kind, model[side][1], what)
                ctx.state(kind, how, side, sorted(map(repr, model[side][1].items())), len(pre))
            same = same_value(c04.READS["fitness"](p), c04.READS["fitness"](q))
            ctx.expect((p == q) == same, "equality-after", what)
            ctx.trace()
    ctx.outcome(f"{kind}-{how}")


def run_members(how, ctx):
    """Lists of sub-portfolios changed on either side of a copy."""
    X = c04.X

    def sub(n, a, b):
        return Portfolio(X=X.iloc[a:b], weights=[0.2, 0.3, 0.5], name=n)

    def grow(p, m):
        p.append(sub("n", 8, 9))
        m.append("n")

    def swap(p, m):
        if m:
            p[0] = sub("n", 0, 1)
            m[0] = "n"

    def drop(p, m):
        if m:
            del p[-1]
            m.pop()

    def assign(p, m):
        p.portfolios = [sub("u", 0, 4), sub("v", 4, 6)]
        m[:] = ["u", "v"]

    def read(p, m):
        p.summary()

    ops = [grow, swap, drop, assign, read]
    for pre, *post in itertools.product(ops, itertools.product((0, 1), ops), itertools.product((0, 1), ops)):
        p = MultiPeriodPortfolio(
            [sub("a", 0, 3), sub("b", 3, 6)], name="m", check_observations_order=False
        )
        m = ["a", "b"]
        pre(p, m)
        sides = [(p, m), (COPIERS[how](p), list(m))]
        what = [how, pre.__name__, [(i, f.__name__) for i, f in post]]
        for i, f in post:
            f(*sides[i])
            for q, names in sides:
                ctx.step()
                ctx.expect([x.name for x in q] == names, "members", lambda: (what, [x.name for x in q], names))
                n = sum(len(x.returns) for x in q)
                ctx.expect(len(q.returns) == len(q.observations) == n, "members-returns", lambda: what)
                if n:
                    ctx.expect(np.isclose(q.mean, np.mean(np.concatenate([x.returns for x in q]))), "members-mean", lambda: what)
        ctx.state("members", what)
        ctx.trace()
    ctx.outcome(f"members-{how}")


def run_population(how, ctx):
    def build():
        return Population(
            [
                c04.build("single", {**c04.DEFAULT, "name": "a"}),
                c04.build("multi", {**c04.DEFAULT, "name": "b"}),
                c04.build("single", {**c04.DEFAULT, "name": "c", "compounded": True}),
            ]
        )

    extra = c04.build("single", {**c04.DEFAULT, "name": "z"})
    # model: list of [name, compounded]; deep says whether the portfolios are copied too
    deep = how != "copy"

    def del0(pop, m):
        del pop[0], m[0]

    def set0(pop, m):
        pop[0] = extra
        m[0] = ["z", False, None]

    def append(pop, m):
        pop.append(extra)
        m.append(["z", False, None])

    def insert(pop, m):
        pop.insert(1, extra)
        m.insert(1, ["z", False, None])

    def reverse(pop, m):
        pop.reverse()
        m.reverse()

    def params(pop, m):
        pop.set_portfolio_params(compounded=True)
        for x in m:
            x[1] = True

    def rename(pop, m):
        pop[-1].name = "renamed"
        m[-1][0] = "renamed"

    def read(pop, m):
        pop.measures(RatioMeasure.SHARPE_RATIO)
        pop.summary()

    ops = [del0, set0, append, insert, reverse, params, rename, read]

    def look_pop(pop, m, what):
        ctx.expect(type(pop) is Population, "population-type", what)
        ctx.expect([p.name for p in pop] == [x[0] for x in m], "population-names", lambda: (what, [p.name for p in pop], m))
        for p, x in zip(pop, m, strict=True):
            ctx.expect(p.compounded == x[1], "population-settings", what)
            kind = "multi" if isinstance(p, MultiPeriodPortfolio) else "single"
            want = c04.expected(kind, {**c04.DEFAULT, "compounded": x[1]}, "max_drawdown")
            ctx.expect(same_value(p.max_drawdown, want), "population-measure", what)
        ctx.step()

    touches_items = (params, rename)
    for pre, post, side in itertools.product(ops, ops, (0, 1)):
        if not deep and post in touches_items:
            continue
        extra = c04.build("single", {**c04.DEFAULT, "name": "z"})
        pop, m = build(), [["a", False, None], ["b", False, None], ["c", True, None]]
        pre(pop, m)
        other = dict(copy=copy.copy, deepcopy=copy.deepcopy, pickle=COPIERS["pickle"])[how](pop)
        m2 = copy.deepcopy(m)
        ctx.expect(other is not pop, "same-object", how)
        post((pop, other)[side], (m, m2)[side])
        what = [pre.__name__, how, post.__name__, side]
        look_pop(pop, m, what)
        look_pop(other, m2, what)
        ctx.state("population", *what)
        ctx.trace()


MODEL_COPIERS = {
    "copy": copy.copy,
    "deepcopy": copy.deepcopy,
    "pickle": COPIERS["pickle"],
    "pickle2": COPIERS["pickle2"],
    "clone": skb.clone,
    "deepcopy-pickle": lambda m: copy.deepcopy(COPIERS["pickle"](m)),
    "clone-of-copy": lambda m: skb.clone(copy.deepcopy(m)),
}
D1, D2 = catalog.data(1, 40, 5), catalog.data(7, 32, 4)


def snapshot(m):
    return pickle.dumps((catalog.outputs(m), catalog.params(m)))


def agrees(ctx, m, want, what):
    out, par = pickle.loads(want)
    got = catalog.outputs(m)
    ctx.step()
    ctx.expect(same_value(got, out, rtol=1e-12), "model-attributes", lambda: (what, got, out))
    ctx.expect(same_value(catalog.params(m), par, rtol=0), "model-parameters", what)


def predictions(m, D):
    if not hasattr(m, "predict"):
        return m.transform(D[0]).to_numpy() if hasattr(m, "get_support") and hasattr(m.transform(D[0]), "to_numpy") else None
    p = m.predict(D[0])
    if isinstance(p, Population):
        return [np.array(q.returns) for q in p] + [q.name for q in p]
    return [np.array(p.returns), np.array(p.weights), p.name]


def run_model(name, ctx):
    make = catalog.ALL[name]
    unfitted = make()
    ref1 = catalog.fit(name, make(), D1)
    want1 = snapshot(ref1)
    pred1 = predictions(ref1, D1)
    want2 = snapshot(catalog.fit(name, make(), D2))
    params0 = catalog.params(make())
    for how, f in MODEL_COPIERS.items():
        if how == "copy" and name == "Pipeline":
            continue  # a shallow copy shares its steps by definition
        what = [name, how]
        # unfitted
        u = f(unfitted)
        ctx.expect(type(u) is type(unfitted), "model-type", what)
        ctx.expect(same_value(catalog.params(u), params0, rtol=0), "unfitted-parameters", what)
        catalog.fit(name, u, D1)
        agrees(ctx, u, want1, [*what, "fit-copy-of-unfitted"])
        # fitted
        m = catalog.fit(name, make(), D1)
        c = f(m)
        if how.startswith("clone"):
            bare = catalog.outputs(c)
            ctx.expect(same_value(bare, catalog.outputs(make())), "clone-is-fitted", lambda: (what, bare))
            ctx.expect(same_value(catalog.params(c), params0, rtol=0), "clone-parameters", what)
            catalog.fit(name, c, D1)
        agrees(ctx, c, want1, [*what, "fitted"])
        agrees(ctx, m, want1, [*what, "original"])
        ctx.expect(same_value(predictions(c, D1), pred1, rtol=1e-9), "predictions", what)
        catalog.fit(name, c, D2)
        agrees(ctx, c, want2, [*what, "copy refitted"])
        agrees(ctx, m, want1, [*what, "original after refitting the copy"])
        c = f(m)
        if how.startswith("clone"):
            catalog.fit(name, c, D1)
        catalog.fit(name, m, D2)
        agrees(ctx, c, want1, [*what, "copy after refitting the original"])
        agrees(ctx, m, want2, [*what, "original refitted"])
        ctx.expect(same_value(predictions(c, D1), pred1, rtol=1e-9), "predictions-after", what)
        ctx.state("model", name, how)
        ctx.trace()
    ctx.outcome("model")


def run_case(case, ctx):
    if case[0] == "history":
        run_history(*case[1:], ctx)
    elif case[0] == "members":
        run_members(case[1], ctx)
    elif case[0] == "population":
        run_population(case[1], ctx)
    else:
        run_model(case[1], ctx)
