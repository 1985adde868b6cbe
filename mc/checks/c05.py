"""C05: list operations of multi-period portfolios against a list model."""

import copy
import itertools
import warnings

import numpy as np
import pandas as pd
from skfolio.measures import RiskMeasure
from skfolio.portfolio import MultiPeriodPortfolio, Portfolio

from mc.lib import frame, same_value

PROPERTY = "C05"
BOUNDS = {
    "quick": "6 sub-portfolios (adjacent, overlapping, touching, out-of-order, other assets), "
    "35 operations; all sequences of 2 from 8 initial lists with and without order checking, "
    "depth 3 (last operation from 12) from one of them; all copy scenarios (operation, copy, operation, operation)",
    "thorough": "as quick with all sequences of depth 3 from every initial list and depth 4 "
    "over a reduced alphabet",
}
ASSUMPTIONS = ["the list returned by the portfolios property is not modified in place"]

_R = np.array([[0.01, -0.02], [0.03, 0.01], [-0.02, 0.015], [0.005, -0.01], [0.02, 0.02], [-0.03, 0.01], [0.015, -0.005], [0.01, 0.01]])  # fmt: skip
_F = frame(_R)
_G = frame(_R[:, ::-1] * 1.5, cols=["A1", "Z"])


def part(name):
    a, b, w, f = {
        "a": (0, 2, [0.5, 0.5], _F),
        "b": (2, 3, [1.0, 0.0], _F),
        "c": (2, 5, [0.2, 0.8], _F),
        "d": (1, 3, [0.3, 0.7], _G),  # starts on the last day of a
        "e": (5, 8, [0.6, 0.4], _G),
        "f": (3, 5, [0.9, 0.1], _F),
    }[name]
    return Portfolio(X=f.iloc[a:b], weights=w, name=name)


SPAN = {"a": (0, 1), "b": (2, 2), "c": (2, 4), "d": (1, 2), "e": (5, 7), "f": (3, 4)}
NAMES = list("abcdef")
INITIAL = [None, [], ["a"], ["a", "b"], ["a", "c", "e"], ["b", "f"], ["a", "d"], ["e", "a"]]

OPS = (
    [["append", n] for n in NAMES]
    + [["append", "!str"], ["append", "!none"], ["append", "!list"]]
    + [["set", i, n] for i in (0, -1, 1) for n in ("a", "c", "d", "e")]
    + [["set", 0, "!str"], ["set", 9, "a"], ["set", -9, "a"]]
    + [["del", i] for i in (0, -1, 1, 9)]
    + [["delslice", 0, 1], ["delslice", 1, 9]]
    + [["assign", x] for x in (["a", "c"], ["b", "e"], [], None, ["a", "d"], ["a", "!str"], ["e", "a"])]
    + [["read"], ["source-append"], ["source-clear"]]
)
SMALL = [
    ["append", "b"], ["append", "e"], ["append", "!str"], ["set", 0, "b"], ["set", -1, "e"],
    ["del", 0], ["del", -1], ["assign", ["a", "c"]], ["assign", []], ["read"],
    ["source-append"], ["delslice", 0, 1],
]  # fmt: skip


def item(n):
    return {"!str": "junk", "!none": None, "!list": [1, 2]}.get(n) if n.startswith("!") else part(n)


def valid(names, check):
    if any(n.startswith("!") for n in names):
        return False
    if check:
        for p, q in zip(names, names[1:], strict=False):
            if SPAN[q][0] <= SPAN[p][1]:
                return False
    return True


class Pair:
    """A real object with the list model of it, and the list it was built from."""

    def __init__(self, names, check):
        self.check = check
        self.names = list(names or [])
        self.source = None if names is None else [part(n) for n in names]
        self.real = MultiPeriodPortfolio(
            portfolios=self.source, check_observations_order=check, name="m", compounded=False
        )

    def copied(self, how):
        new = Pair.__new__(Pair)
        new.check = self.check
        new.names = list(self.names)
        new.source = None
        new.real = copy.copy(self.real) if how == "copy" else self.real.copy()
        return new


def apply(pair, op):
    """Apply to the model; return (new names or None if refused) and run on the real one."""
    k = op[0]
    want = list(pair.names)
    real = pair.real
    if k == "read":
        observe_values(real)
        if not len(real.returns):  # nothing to measure yet, reading must leave no trace
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for m in ("mean", "variance", "cvar", "sharpe_ratio", "fitness", "drawdowns", "max_drawdown"):
                    try:
                        getattr(real, m)
                    except Exception:
                        pass
        return want, None
    if k == "source-append":
        if pair.source is not None:
            pair.source.append(part("e"))
        return want, None
    if k == "source-clear":
        if pair.source is not None:
            pair.source.clear()
        return want, None
    ok = True
    if k == "append":
        n = op[1]
        if n.startswith("!"):
            ok = False
        elif pair.check and want and SPAN[n][0] <= SPAN[want[-1]][1]:
            ok = False
        want = want + [n]
    elif k == "set":
        try:
            want[op[1]] = op[2]
        except IndexError:
            ok = False
        ok = ok and valid(want, pair.check)
    elif k == "del":
        try:
            del want[op[1]]
        except IndexError:
            ok = False
        ok = ok and valid(want, pair.check)
    elif k == "delslice":
        del want[op[1] : op[2]]
        ok = valid(want, pair.check)
    elif k == "assign":
        want = list(op[1] or [])
        ok = valid(want, pair.check)
    try:
        if k == "append":
            real.append(item(op[1]))
        elif k == "set":
            real[op[1]] = item(op[2])
        elif k == "del":
            del real[op[1]]
        elif k == "delslice":
            del real[op[1] : op[2]]
        elif k == "assign":
            pair_list = None if op[1] is None else [item(n) for n in op[1]]
            real.portfolios = pair_list
            if pair_list:
                # the caller keeps using the list
                pair_list.append("junk")
        raised = None
    except Exception as e:
        raised = e
    return (want if ok else None), raised


def observe_values(p):
    out = {}
    for m in ("mean", "variance", "cvar", "max_drawdown", "sharpe_ratio", "worst_realization"):
        out[m] = getattr(p, m) if len(p.returns) else None
    if len(p.returns):
        out["cum"] = np.array(p.cumulative_returns)
        out["dd"] = np.array(p.drawdowns)
        out["fit"] = np.array(p.fitness)
    return out


_REF = {}


def reference(names, deep):
    key = (tuple(names), deep)
    if key not in _REF:
        if len(_REF) > 20000:
            _REF.clear()
        parts = [part(n) for n in names]
        out = dict(
            returns=np.concatenate([p.returns for p in parts]) if parts else np.array([]),
            obs=[o for p in parts for o in p.observations],
            values=observe_values(MultiPeriodPortfolio(portfolios=[part(n) for n in names])),
        )
        if deep and names:
            fresh = MultiPeriodPortfolio(portfolios=[part(n) for n in names], name="m")
            out["deep"] = deep_view(fresh)
            out["wrong"] = wrong_tables(fresh, parts)
        _REF[key] = out
    return _REF[key]


def wrong_tables(fresh, parts):
    """The tables against the parts, cell by cell."""
    held = [{a: w for a, w in zip(p.assets, p.weights, strict=True) if w} for p in parts]
    assets = {a for h in held for a in h}

    def row(values):
        return sorted((a, round(float(w), 12)) for a, w in values.items() if w)

    wpo = fresh.weights_per_observation
    if set(wpo.columns) != assets or list(wpo.index) != sorted(o for p in parts for o in p.observations):
        return wpo
    want = sorted((str(pd.Timestamp(o)), row(h)) for p, h in zip(parts, held, strict=True) for o in p.observations)
    if sorted((str(pd.Timestamp(o)), row(r)) for o, r in zip(wpo.index, wpo.to_dict("records"), strict=True)) != want:
        return wpo, want
    table = fresh.composition
    if set(table.index) != assets or table.shape[1] != len(parts):
        return table
    for i, h in enumerate(held):
        if row(table.iloc[:, i].to_dict()) != row(h):
            return table, h
    return None


def deep_view(p):
    return dict(
        composition=p.composition,
        wpo=p.weights_per_observation,
        summary=p.summary(),
        assets=[list(a) for a in p.assets],
        contribution=p.contribution(RiskMeasure.STANDARD_DEVIATION, to_df=False),
        n_observations=p.n_observations,
    )


def check(ctx, pair, history, deep=False):
    real, names = pair.real, pair.names
    ctx.step()
    ref = reference(names, deep)
    ctx.expect(len(real) == len(names), "length", lambda: (history, len(real), names))
    ctx.expect([p.name for p in real] == names, "members", lambda: (history, names))
    ctx.expect([p.name for p in real.portfolios] == names, "members", lambda: (history, names))
    ctx.expect(same_value(np.asarray(real.returns), ref["returns"]), "returns", lambda: (history, real.returns, ref["returns"]))
    ctx.expect(list(real.observations) == ref["obs"], "observations", lambda: (history, names))
    ctx.expect(
        same_value(observe_values(real), ref["values"]), "measures",
        lambda: (history, observe_values(real), ref["values"]),
    )  # fmt: skip
    for i in (0, -1):
        if names:
            ctx.expect(real[i].name == names[i], "index", history)
    ctx.expect([p.name for p in real[1:]] == names[1:], "slice", history)
    ctx.expect(part("a") in real if "a" in names else True, "contains", history)
    try:
        real.returns = np.zeros(3)
    except AttributeError:
        pass
    else:
        ctx.fail("protection-lost", history)
    if deep and names:
        ctx.expect(ref["wrong"] is None, "table-cells", lambda: (names, ref["wrong"]))
        ctx.expect(same_value(deep_view(real), ref["deep"], rtol=1e-7), "tables", lambda: (history, names))
        ctx.expect(real.n_observations == len(ref["obs"]), "n-observations", history)
    ctx.state(tuple(names), pair.check)


def perform(ctx, pair, op, history):
    want, raised = apply(pair, op)
    if want is None:
        ctx.expect(raised is not None, "not-refused", lambda: history)
        ctx.expect(
            isinstance(raised, (TypeError, ValueError, IndexError)), "wrong-error", lambda: (history, repr(raised))
        )
    else:
        ctx.expect(raised is None, "refused", lambda: (history, repr(raised)))
        pair.names = want


def cases(tier):
    for i, chk in itertools.product(range(len(INITIAL)), (False, True)):
        if not valid(INITIAL[i] or [], chk):
            continue
        for o in range(len(OPS)):
            yield ["seq", i, chk, 3 if tier == "thorough" or (i == 3 and chk) else 2, [o]]
        if tier == "thorough":
            for o, q in itertools.product(range(len(SMALL)), repeat=2):
                yield ["small", i, chk, 4, [o, q]]
        for o in range(len(OPS)):
            yield ["copies", i, chk, o, tier]


def run_seq(ctx, case, alphabet):
    _, i, chk, depth, prefix = case
    last = alphabet if depth == 2 else SMALL
    for rest in itertools.product(
        *[alphabet] * (depth - len(prefix) - 1), *([last] if depth > len(prefix) else [])
    ):
        ops = [alphabet[o] for o in prefix] + list(rest)
        pair = Pair(INITIAL[i], chk)
        check(ctx, pair, ["initial", INITIAL[i], chk], deep=False)
        for n, op in enumerate(ops):
            history = [INITIAL[i], chk, ops[: n + 1]]
            perform(ctx, pair, op, history)
            check(ctx, pair, history, deep=n == depth - 1 and depth <= 2)
        ctx.trace()


def run_case(case, ctx):
    if case[0] == "seq":
        run_seq(ctx, case, OPS)
        ctx.outcome(f"seq{case[3]}")
    elif case[0] == "small":
        run_seq(ctx, case, SMALL)
        ctx.outcome("small4")
    else:
        _, i, chk, o, tier = case
        q = tier == "quick"
        for how, (t1, o1), (t2, o2) in itertools.product(
            (("copy", "method")[o % 2],) if q else ("copy", "method"),
            itertools.product((0, 1), range(len(SMALL))),
            [(0, 0), (1, 5)] if q else [(0, 0), (0, 4), (1, 0), (1, 5), (1, 7)],
        ):
            pair = Pair(INITIAL[i], chk)
            history = [INITIAL[i], chk, OPS[o], how, (t1, SMALL[o1]), (t2, SMALL[o2])]
            perform(ctx, pair, OPS[o], history)
            both = [pair, pair.copied(how)]
            for t, op in ((t1, SMALL[o1]), (t2, SMALL[o2])):
                perform(ctx, both[t], op, history)
                check(ctx, both[0], [history, "original"])
                check(ctx, both[1], [history, "copy"])
            ctx.trace()
        ctx.outcome("copies")
