"""C12: textual constraints and views mean what an ordinary reading says."""

import itertools
import warnings

import numpy as np
from skfolio.exceptions import DuplicateGroupsError, EquationToMatrixError, GroupNotFoundError
from skfolio.prior import BlackLitterman
from skfolio.utils.equations import equations_to_matrix, group_cardinalities_to_matrix

from mc.lib import frame, returns

PROPERTY = "C12"
BOUNDS = {
    "quick": "all relations with 1 term a side over 41 signed terms, 2+1 and 1+2 terms over 14, 4 comparisons, 3 "
    "spacings; all group tables of 3 assets with 2 levels; all one-token deletions, repetitions, insertions and "
    "replacements of 60 relations; lists of up to 3 relations; views of 6 group tables",
    "thorough": "as quick with 2 terms on each side and corruptions of 400 relations",
}
COMPS = ["<=", ">=", "==", "="]
NUMBERS = ["0.3", "2", ".5", "1.", "1e-2", "2E+1", "3e1"]
NAMES = ["A", "B b.", "C1", "X", "Y"]
GROUPS = [["A", "B b.", "C1"], ["X", "Y", "X"]]


def terms(numbers, names):
    """Terms as token lists."""
    out = [[n] for n in names] + [[c] for c in numbers]
    for n in names:
        for c in numbers[:3]:
            out += [[c, "*", n], [n, "*", c]]
    return out


def signed(ts):
    return [(s, t) for t in ts for s in ("", "-")]


MANY = [(s, t) for t in terms(NUMBERS, NAMES) for s in ("", "-", "+")]
FEW = signed([["A"], ["X"], ["0.3"], ["2", "*", "X"], ["C1", "*", ".5"], ["1e-2"], ["2E+1", "*", "B b."]])


def side(ts):
    """Tokens of a sum of signed terms."""
    out = []
    for i, (s, t) in enumerate(ts):
        if s or i:
            out.append(s or "+")
        out += t
    return out


def text(tokens, style):
    if style == "none":
        return "".join(tokens)
    sep = " " if style == "one" else "   "
    return ("  " if style == "wide" else "") + sep.join(tokens) + ("\t " if style == "wide" else "")


def column(groups, name, average):
    hit = np.array([any(row[j] == name for row in groups) for j in range(len(groups[0]))], dtype=float)
    if not hit.any():
        return None
    return hit / hit.sum() if average else hit


def number(token):
    try:
        return float(token)
    except ValueError:
        return None


class Malformed(Exception):
    pass


class Unknown(Exception):
    pass


def reading(tokens, groups, average):
    """Independent reading of a token list: (coefficients, constant, is_inequality) meaning
    coefficients @ w (<= or ==) constant."""
    where = [i for i, t in enumerate(tokens) if t in COMPS]
    if len(where) != 1 or any(t in ("<", ">") for t in tokens):
        raise Malformed
    op = tokens[where[0]]
    total = np.zeros(len(groups[0]))
    const = 0.0
    for part, sgn in ((tokens[: where[0]], 1), (tokens[where[0] + 1 :], -1)):
        i, first = 0, True
        if not part:
            raise Malformed
        while i < len(part):
            s = 1
            if part[i] in ("+", "-"):
                s = 1 if part[i] == "+" else -1
                i += 1
            elif not first:
                raise Malformed
            first = False
            j = i
            while j < len(part) and part[j] not in ("+", "-"):
                j += 1
            term = part[i:j]
            i = j
            if len(term) == 1 and term[0] != "*":
                c = column(groups, term[0], average)
                if c is not None:
                    total += sgn * s * c
                elif number(term[0]) is not None:
                    const += sgn * s * number(term[0])
                else:
                    raise Unknown
            elif len(term) == 3 and term[1] == "*" and term[0] != "*" and term[2] != "*":
                a, b = term[0], term[2]
                ca, cb = column(groups, a, average), column(groups, b, average)
                if (ca is None) == (cb is None):
                    if ca is None and (number(a) is None or number(b) is None):
                        raise Unknown
                    raise Malformed
                n = number(a if ca is None else b)
                if n is None:
                    raise Unknown
                total += sgn * s * n * (ca if ca is not None else cb)
            else:
                raise Malformed
    if op == ">=":
        total, const = -total, -const
    return total, -const, op in ("<=", ">=")


REFUSALS = (EquationToMatrixError, GroupNotFoundError)


def parse(groups, equations, average, raising):
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        out = equations_to_matrix(
            groups=np.array(groups), equations=equations, sum_to_one=average, raise_if_group_missing=raising
        )
    return [np.asarray(x, dtype=float) for x in out], len(seen)


def check_one(tokens, style, groups, average, ctx):
    """One relation alone, well formed or not."""
    s = text(tokens, style)
    ctx.step()
    try:
        want = reading(tokens, groups, average)
    except (Malformed, Unknown):
        want = None
    for raising in (True, False):
        try:
            (a_eq, b_eq, a_in, b_in), warned = parse(groups, [s], average, raising)
        except REFUSALS as e:
            ctx.expect(want is None, "refused", lambda: (s, groups, repr(e)))
            continue
        n = len(a_eq) + len(a_in)
        if want is None:
            ctx.expect(not raising and n == 0 and warned == 1, "reinterpreted", lambda: (s, groups, raising, a_eq, b_eq, a_in, b_in, warned))
            continue
        coef, const, ineq = want
        a, b = (a_in, b_in) if ineq else (a_eq, b_eq)
        ctx.expect(n == 1 and len(a) == 1 and len(b) == 1, "kind", lambda: (s, groups, a_eq, a_in))
        same = np.allclose(a[0], coef, atol=1e-12) and np.isclose(b[0], const, atol=1e-12)
        opposite = not ineq and np.allclose(a[0], -coef, atol=1e-12) and np.isclose(b[0], -const, atol=1e-12)
        ctx.expect(same or opposite, "meaning", lambda: (s, groups, average, a, b, want))
        ctx.expect(warned == 0, "warned", lambda: s)


def bases(n):
    """A spread of well-formed relations used for corruption and lists."""
    out = []
    for i, (l, r) in enumerate(itertools.product(FEW, repeat=2)):
        out.append(side([l]) + [COMPS[i % 4]] + side([r]))
    for i, (l, m, r) in enumerate(itertools.product(FEW, repeat=3)):
        if i % 7 == 0:
            out.append(side([l, m]) + [COMPS[i % 4]] + side([r]))
        if i % 7 == 3:
            out.append(side([l]) + [COMPS[i % 4]] + side([m, r]))
    step = len(out) // n
    return out[::step][:n]


def tables3():
    for labels in itertools.product(("X", "Y", ""), repeat=3):
        if labels != ("", "", ""):
            yield [["A", "B b.", "C1"], list(labels)]
    yield [["A", "B b.", "C1"]]
    yield [["X", "Y", "X"]]
    yield [["A", "B b.", "C1"], ["X", "X", "Y"], ["u", "v", "v"]]


def cases(tier):
    for i in range(len(MANY)):
        yield ["one-one", i]
    for i in range(len(FEW)):
        yield ["two-one", i]
        if tier == "thorough":
            for j in range(len(FEW)):
                yield ["two-two", i, j]
    n = 60 if tier == "quick" else 400
    for i in range(n):
        yield ["corrupt", n, i]
    for i in range(len(list(tables3()))):
        yield ["tables", i]
    yield ["lists"]
    yield ["views"]
    yield ["cardinalities"]
    yield ["duplicates"]


def one_one(i, ctx):
    for r in MANY:
        for op in COMPS:
            tokens = side([MANY[i]]) + [op] + side([r])
            for style in ("none", "one", "wide"):
                check_one(tokens, style, GROUPS, style == "one", ctx)
            ctx.state(tokens)
    ctx.trace()


def two_one(i, ctx):
    for m, r in itertools.product(FEW, repeat=2):
        for k, op in enumerate(COMPS):
            for tokens in (side([FEW[i], m]) + [op] + side([r]), side([FEW[i]]) + [op] + side([m, r])):
                check_one(tokens, ("none", "one", "wide", "none")[k], GROUPS, k % 2 == 0, ctx)
                ctx.state(tokens)
    ctx.trace()


def two_two(i, j, ctx):
    for m, r in itertools.product(FEW, repeat=2):
        for k, op in enumerate(COMPS):
            tokens = side([FEW[i], FEW[j]]) + [op] + side([m, r])
            check_one(tokens, ("none", "one", "wide", "none")[k], GROUPS, k % 2 == 0, ctx)
    ctx.trace()


INSERT = ["<=", "=", "*", "+", "-", "A", "2", "zz", "<", ">", "(", "/", "X", "1e-2"]


def corrupt(n, i, ctx):
    tokens = bases(n)[i]
    variants = [tokens[:k] + tokens[k + 1 :] for k in range(len(tokens))]
    variants += [tokens[: k + 1] + tokens[k:] for k in range(len(tokens))]
    for t in INSERT:
        variants += [tokens[:k] + [t] + tokens[k:] for k in range(len(tokens) + 1)]
        variants += [tokens[:k] + [t] + tokens[k + 1 :] for k in range(len(tokens))]
    variants += [[], tokens[::-1], tokens + tokens]
    for v in variants:
        # neighbouring names read as one longer, unknown name
        merged = []
        for t in v:
            if merged and t not in ("<=", ">=", "==", "=", "*", "+", "-") and merged[-1] not in (
                "<=", ">=", "==", "=", "*", "+", "-",
            ) and t not in "<>" and merged[-1] not in "<>":  # fmt: skip
                merged[-1] = merged[-1] + " " + t
            else:
                merged.append(t)
        check_merged(v, merged, ctx)
        ctx.state(v)
    ctx.trace()
    ctx.outcome("corrupt")


def check_merged(tokens, merged, ctx):
    s = text(tokens, "one")
    ctx.step()
    try:
        want = reading(merged, GROUPS, False)
    except (Malformed, Unknown):
        want = None
    for raising in (True, False):
        try:
            (a_eq, b_eq, a_in, b_in), warned = parse(GROUPS, [s], False, raising)
        except REFUSALS as e:
            ctx.expect(want is None, "refused", lambda: (s, repr(e)))
            continue
        if want is None:
            ctx.expect(
                not raising and len(a_eq) + len(a_in) == 0 and warned == 1,
                "reinterpreted",
                lambda: (s, raising, a_eq, b_eq, a_in, b_in, warned),
            )
            continue
        coef, const, ineq = want
        a, b = (a_in, b_in) if ineq else (a_eq, b_eq)
        ctx.expect(
            len(a) == 1 and np.allclose(a[0], coef) and np.isclose(b[0], const), "meaning", lambda: (s, a, b, want)
        )


def tables(i, ctx):
    groups = list(tables3())[i]
    for l, r in itertools.product(FEW + signed([["Y"], ["u"], ["2", "*", "v"]]), repeat=2):
        for average in (False, True):
            for op in ("<=", "=="):
                tokens = side([l]) + [op] + side([r])
                # a coefficient on an unknown group may be refused even when only a warning is asked
                check_one(tokens, "one", groups, average, ctx)
    ctx.state(groups)
    ctx.trace()
    ctx.outcome("tables")


def lists(ctx):
    """Several relations keep their own place."""
    pool = bases(8) + [["zz", "<=", "0.3"], ["A", "==", "zz"]]
    for n in (0, 1, 2, 3):
        for pick in itertools.product(range(len(pool)), repeat=n):
            eq, ineq, unknown = [], [], 0
            for p in pick:
                try:
                    coef, const, kind = reading(pool[p], GROUPS, False)
                    (ineq if kind else eq).append((coef, const))
                except Unknown:
                    unknown += 1
            ctx.step()
            eqs = [text(pool[p], "one") for p in pick]
            for given in (eqs, tuple(eqs), np.array(eqs, dtype=str)):
                (a_eq, b_eq, a_in, b_in), warned = parse(GROUPS, given, False, False)
                ctx.expect(warned == unknown, "list-warnings", lambda: (eqs, warned))
                for a, b, want in ((a_eq, b_eq, eq), (a_in, b_in, ineq)):
                    ctx.expect(len(a) == len(want) == len(b), "list-length", lambda: (eqs, a, want))
                    for x, y, (c, k) in zip(a, b, want):
                        ctx.expect(np.allclose(x, c) and np.isclose(y, k), "list-meaning", lambda: (eqs, a, b, want))
            if unknown:
                try:
                    parse(GROUPS, eqs, False, True)
                    ctx.fail("list-unknown", eqs)
                except REFUSALS:
                    pass
            ctx.state(pick)
    for bad in ([["A <= 1"]], "A <= 1"):
        try:
            parse(GROUPS, bad, False, False)
            ctx.fail("list-shape", bad)
        except ValueError:
            ctx.step()
    ctx.trace()
    ctx.outcome("lists")


def views(ctx):
    """Views of the Black-Litterman model use group averages."""
    cols = ["A", "B b.", "C1"]
    X = frame(returns(3, 12, 3), cols=cols)
    texts = [["A", "==", "0.01"], ["A", "-", "C1", "==", "1e-2"], ["X", "=", "0.02"], ["2", "*", "X", "==", "Y", "+", "0.01"],
             ["X", "-", "A", "==", "0.3", "*", "Y", "-", "0.002"]]  # fmt: skip
    for groups in list(tables3())[::5] + [None]:
        for n in (1, 2):
            for pick in itertools.combinations(range(len(texts)), n):
                table = [cols] if groups is None else groups
                forms = [groups]
                if groups is not None and len(groups) > 1:
                    # a mapping by asset name implies the level of the asset names
                    forms.append({c: [row[j] for row in groups[1:]] for j, c in enumerate(cols)})
                try:
                    want = [reading(texts[p], table, True) for p in pick]
                except Unknown:
                    want = None
                for form in forms:
                    model = BlackLitterman(views=[text(texts[p], "one") for p in pick], groups=form)
                    ctx.step()
                    try:
                        model.fit(X)
                    except REFUSALS:
                        ctx.expect(want is None, "view-refused", lambda: (groups, pick))
                        continue
                    ctx.expect(want is not None, "view-accepted", lambda: (groups, pick))
                    ok = model.picking_matrix_.shape == (n, 3) and all(
                        np.allclose(p, c) and np.isclose(v, k)
                        for p, v, (c, k, _) in zip(model.picking_matrix_, model.views_, want)
                    )
                    ctx.expect(ok, "view-meaning", lambda: (groups, pick, model.picking_matrix_, model.views_, want))
                    ctx.state(groups, pick)
    for bad in ("A <= 0.01", "A >= C1", "A == 1 == C1"):
        try:
            BlackLitterman(views=["A == 0.01", bad]).fit(X)
            ctx.fail("view-inequality", bad)
        except (ValueError, EquationToMatrixError):
            ctx.step()
    try:
        BlackLitterman(views=["A == 0.01"]).fit(np.asarray(X))
        ctx.fail("view-without-names")
    except ValueError:
        ctx.step()
    ctx.trace()
    ctx.outcome("views")


def cardinalities(ctx):
    for groups in tables3():
        known = sorted({x for row in groups for x in row if x != ""})
        for n in (1, 2, 3):
            for keys in itertools.permutations([*known, "zz"], n) if len(known) < 6 else []:
                cards = {k: i + 1 for i, k in enumerate(keys)}
                ctx.step()
                for raising in (True, False):
                    try:
                        with warnings.catch_warnings(record=True) as seen:
                            warnings.simplefilter("always")
                            a, b = group_cardinalities_to_matrix(np.array(groups), cards, raise_if_group_missing=raising)
                    except REFUSALS:
                        ctx.expect("zz" in keys and raising, "cardinality-refused", lambda: (groups, cards))
                        continue
                    ctx.expect("zz" not in keys or (seen and not raising), "cardinality-unknown", lambda: (groups, cards))
                    want = [(column(groups, k, False), c) for k, c in cards.items() if k != "zz"]
                    ok = len(a) == len(want) and all(np.allclose(x, c) and y == k for x, y, (c, k) in zip(a, b, want))
                    ctx.expect(ok, "cardinality-meaning", lambda: (groups, cards, a, b))
                ctx.state(groups, keys)
    ctx.trace()
    ctx.outcome("cardinalities")


def duplicates(ctx):
    """A name may not stand for groups of two levels."""
    for top in itertools.product("AX", repeat=2):
        for low in itertools.product("AXY", repeat=2):
            clash = bool(set(top) & set(low))
            ctx.step()
            try:
                parse([list(top), list(low)], [f"{top[0]} <= 1"], False, False)
                ctx.expect(not clash, "clash-accepted", lambda: (top, low))
            except DuplicateGroupsError:
                ctx.expect(clash, "clash-refused", lambda: (top, low))
            ctx.state(top, low)
    for levels in itertools.product("AXY", "ABX", "ABY", "ABZ"):
        clash = len(set(levels)) < 4
        ctx.step()
        try:
            parse([[e, ""] for e in levels], [f"{levels[0]} <= 1"], False, False)
            ctx.expect(not clash, "clash-accepted", lambda: levels)
        except DuplicateGroupsError:
            ctx.expect(clash, "clash-refused", lambda: levels)
        ctx.state(levels)
    for bad in (["A", "B"], [[["A"]]]):
        try:
            parse(bad, ["A <= 1"], False, False)
            ctx.fail("groups-shape", bad)
        except ValueError:
            ctx.step()
    ctx.trace()
    ctx.outcome("duplicates")


def run_case(case, ctx):
    kind = case[0]
    fn = {"one-one": one_one, "two-one": two_one, "two-two": two_two, "corrupt": corrupt, "tables": tables,
          "lists": lists, "views": views, "cardinalities": cardinalities, "duplicates": duplicates}[kind]  # fmt: skip
    fn(*case[1:], ctx)
    ctx.outcome(kind)
