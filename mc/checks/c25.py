"""Bivariate copulas and margins are internally consistent distributions."""

import itertools
import warnings
from decimal import Decimal as D
from decimal import getcontext

import numpy as np
import scipy.integrate as si
import scipy.stats as st

PROPERTY = "C25"
BOUNDS = {
    "quick": "families: independent, Gaussian (7 rho), Student (5 rho x 3 dof), Clayton/Gumbel/Joe (6 theta x 4 rotations); 10x10 points incl. corners; fits on every ordering of 5 points",
    "thorough": "as quick with 14x14 points, 9 theta, every ordering of 6 points, four data families for margins",
}

getcontext().prec = 60

TH = {
    "Clayton": [1e-4, 0.2, 1.0, 4.0, 12.0, 50.0],
    "Gumbel": [1.0001, 1.2, 2.0, 5.0, 20.0, 80.0],
    "Joe": [1.005, 1.3, 2.5, 5.0, 10.0, 20.0],
}
TH_MORE = {
    "Clayton": [0.02, 0.5, 25.0],
    "Gumbel": [1.05, 1.5, 50.0],
    "Joe": [1.1, 1.9, 15.0],
}
ROT = ["R0", "R90", "R180", "R270"]
RHO = [-0.999, -0.8, -0.3, 0.0, 0.3, 0.8, 0.999]
TRHO = [-0.9, -0.3, 0.0, 0.5, 0.95]
DOF = [2.0, 4.5, 30.0]
PTS = [0.0, 1e-6, 0.01, 0.1, 0.3, 0.5, 0.75, 0.95, 0.999, 1.0]
PTS_MORE = [1e-3, 0.2, 0.9, 1 - 1e-6]
EPS = 1e-9
ROWFAMS = [
    *[(f, [TH[f][2], r]) for f in TH for r in ROT],
    ("Gaussian", [0.3]),
    ("StudentT", [0.5, 4.5]),
    ("Independent", []),
]


def _api():
    import skfolio.distribution as sd

    return sd


def _points(tier):
    return sorted(PTS + (PTS_MORE if tier == "thorough" else []))


def _thetas(fam, tier):
    return sorted(TH[fam] + (TH_MORE[fam] if tier == "thorough" else []))


def cases(tier):
    for fam in TH:
        for t in _thetas(fam, tier):
            for r in ROT:
                yield ["arch", fam, t, r, tier]
                yield ["sample", fam, [t, r]]
    for rho in RHO:
        yield ["gauss", rho, tier]
        yield ["sample", "Gaussian", [rho]]
    for rho in TRHO:
        for dof in DOF:
            yield ["student", rho, dof, tier]
            yield ["sample", "StudentT", [rho, dof]]
    yield ["indep"]
    yield ["sample", "Independent", []]
    n = 5 if tier == "quick" else 6
    perms = list(itertools.permutations(range(n)))
    size = 20 if tier == "quick" else 60
    for k in range(0, len(perms), size):
        for fam in ("Clayton", "Gumbel", "Joe", "Gaussian", "StudentT"):
            yield ["fitperm", fam, n, k, min(k + size, len(perms))]
    for fam in ("Clayton", "Gumbel", "Joe", "Gaussian", "StudentT"):
        for tau in (-1.0, -0.999, -0.9, -0.5, -0.1, -0.003, -1e-6, 0.0, 1e-5, 1e-3, 0.02, 0.1, 0.4, 0.7, 0.95, 0.97, 0.995, 1.0):
            yield ["giventau", fam, tau]
    for fam in ("Clayton", "Gumbel", "Joe", "Gaussian", "StudentT"):
        for t in (0.2, 0.5, 0.8):
            for r in ROT:
                yield ["mle", fam, t, r]
    k = 0
    for t in (0.0, 0.15, 0.3, 0.6, 0.85):
        for r in ROT:
            for crit in ("AIC", "BIC"):
                yield ["select", t, r, crit, k % 3]
                yield ["select", t, r, crit, 3 + k % 2]
                k += 1
    # tails on which the two criteria disagree
    for rho in (-0.7, 0.4, 0.8):
        for dof in (3, 5, 8, 12, 20):
            for n in (40, 80):
                for crit in ("AIC", "BIC"):
                    yield ["select", rho, [dof, n], crit, 5]
    yield ["selectbad"]
    for n in (1, 2, 5):
        for ties in (False, True):
            yield ["pseudo", n, ties]
    for q in ("inner", "bounds"):
        yield ["empconc", q]
    fams = ["normal", "fat", "skew", "shift"]
    for f in fams:
        for cls in ("Gaussian", "StudentT", "JohnsonSU", "NormalInverseGaussian"):
            if cls == "NormalInverseGaussian" and f in ("normal", "shift"):
                continue  # thin tails: scipy's own fit diverges
            for fixed in ("none", "loc", "scale"):
                yield ["univ", f, cls, fixed]
    for f in [*fams, "t5", "t7", "t9", "t12", "t16", "t22"]:
        for crit in ("AIC", "BIC"):
            yield ["univselect", f, crit]
    yield ["univbad"]
    for fam, params in ROWFAMS:
        yield ["rows", fam, params]


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + case[0]](ctx, *case[1:])
    ctx.trace()
    ctx.outcome(case[0])


# --- reference formulas ------------------------------------------------------


def _c_clayton(u, v, t):
    return (u**-t + v**-t - 1) ** (-1 / t)


def _c_gumbel(u, v, t):
    return (-(((-u.ln()) ** t + (-v.ln()) ** t) ** (1 / t))).exp()


def _c_joe(u, v, t):
    a, b = (1 - u) ** t, (1 - v) ** t
    return 1 - (a + b - a * b) ** (1 / t)


BASE = {"Clayton": _c_clayton, "Gumbel": _c_gumbel, "Joe": _c_joe}


def _rotated(C, r):
    if r == "R0":
        return C
    if r == "R90":
        return lambda u, v, t: v - C(v, 1 - u, t)
    if r == "R180":
        return lambda u, v, t: u + v - 1 + C(1 - u, 1 - v, t)
    return lambda u, v, t: u - C(1 - v, u, t)


def _model(fam, params, random_state=None):
    sd = _api()
    X = np.array([[0.2, 0.3], [0.4, 0.1], [0.7, 0.9], [0.6, 0.5], [0.9, 0.7]])
    m = getattr(sd, fam + "Copula")(random_state=random_state).fit(X)
    if fam in TH:
        m.theta_, m.rotation_ = params[0], sd.CopulaRotation[params[1]]
    elif fam == "Gaussian":
        m.rho_ = params[0]
    elif fam == "StudentT":
        m.rho_, m.dof_ = params
    return m


def _derivs(C, u, v, T):
    du, dv = min(u, 1 - u) * D("1e-11"), min(v, 1 - v) * D("1e-11")
    pp, pm = C(u + du, v + dv, T), C(u + du, v - dv, T)
    mp, mm = C(u - du, v + dv, T), C(u - du, v - dv, T)
    h1 = (pp + pm - mp - mm) / (4 * du)
    h2 = (pp - pm + mp - mm) / (4 * dv)
    dens = (pp - pm - mp + mm) / (4 * du * dv)
    return float(h1), float(h2), dens


def _volumes(ctx, m, pts, tol, what):
    """Margins, bounds and rectangle volumes of the joint distribution."""
    n = len(pts)
    G = np.array([[a, b] for a in pts for b in pts])
    F = m.cdf(G)
    ctx.expect(
        np.asarray(F).shape == (n * n,), "cdf-shape", lambda: f"{what}: {F.shape}"
    )
    lo = np.maximum(G.sum(axis=1) - 1, 0)
    hi = G.min(axis=1)
    ctx.expect(
        bool(np.all(F >= lo - tol) and np.all(F <= hi + tol)),
        "cdf-bounds",
        lambda: f"{what}: joint distribution outside its bounds",
    )
    M = F.reshape(n, n)
    V = M[1:, 1:] - M[:-1, 1:] - M[1:, :-1] + M[:-1, :-1]
    ctx.expect(
        bool(V.min() >= -4 * tol),
        "cdf-volume",
        lambda: f"{what}: negative probability {V.min()}",
    )
    ctx.expect(
        bool(np.max(np.abs(M[-1] - pts)) <= tol + 2e-9)
        and bool(np.max(np.abs(M[:, -1] - pts)) <= tol + 2e-9)
        and bool(np.max(np.abs(M[0])) <= tol + 2e-9)
        and bool(np.max(np.abs(M[:, 0])) <= tol + 2e-9),
        "cdf-margins",
        lambda: f"{what}: margins {M[-1]} {M[:, -1]} {M[0]} {M[:, 0]}",
    )
    q = np.array([p for p in pts if 0 < p < 1])
    Fq = m.cdf(np.column_stack([q, q]))
    ref = np.where(q <= 0.5, Fq / q, (1 - 2 * q + Fq) / (1 - q))
    got = m.tail_concentration(q)
    tl = np.where(q <= 0.5, tol / q, tol / (1 - q)) * 4 + 1e-9
    ctx.expect(
        bool(np.all(np.abs(got - ref) <= tl)),
        "tail-concentration",
        lambda: f"{what}: {got} vs {ref}",
    )
    for bad in (np.array([-0.1, 0.5]), np.array([0.5, 1.2])):
        try:
            m.tail_concentration(bad)
            ctx.fail("tail-range", f"{what}: quantiles {bad} accepted")
        except ValueError:
            pass
    for bad in (
        np.array([[0.5, 1.1]]),
        np.array([[-0.01, 0.5]]),
        np.array([[0.1, 0.2, 0.3]]),
    ):
        for f in (m.cdf, m.score_samples, m.partial_derivative):
            try:
                f(bad)
                ctx.fail("range", f"{what}: {bad} accepted")
            except ValueError:
                pass


def _inverse(ctx, m, pts, h_of, what):
    """The inverse conditional undoes the conditional."""
    G = np.array([[a, b] for a in pts for b in pts])
    for first in (True, False):
        p = m.partial_derivative(G, first_margin=first)
        ctx.expect(
            bool(np.all(np.isfinite(p)) and np.all(p >= -1e-6) and np.all(p <= 1 + 1e-6)),
            "h-range",
            lambda: f"{what}: conditional distribution {p.min()}..{p.max()}",
        )
        p = np.clip(p, 0, 1)
        Y = G.copy()
        Y[:, 1 if first else 0] = p
        x = m.inverse_partial_derivative(Y, first_margin=first)
        ctx.expect(
            bool(np.all(np.isfinite(x)) and np.all(x >= -1e-9) and np.all(x <= 1 + 1e-9)),
            "inv-range",
            lambda: f"{what}: inverse conditional {x}",
        )
        Z = G.copy()
        Z[:, 1 if first else 0] = np.clip(x, 0, 1)
        p2 = m.partial_derivative(Z, first_margin=first)
        t = G[:, 1 if first else 0]
        inner = np.all((G >= 1e-3) & (G <= 0.9991), axis=1)
        inner &= (p > 1e-8) & (p < 1 - 1e-8)
        ok = (np.abs(x - t) <= 1e-4) | (np.abs(p2 - p) <= 1e-4) | ~inner
        ctx.expect(
            bool(np.all(ok)),
            "inverse",
            lambda: f"{what} first={first}: inverse conditional does not undo: "
            f"{[(G[i].tolist(), p[i], x[i], p2[i]) for i in np.where(~ok)[0][:3]]}",
        )
        # and from arbitrary probabilities
        inner = np.array([q for q in pts if 1e-3 <= q <= 0.999])
        W = np.array([[a, b] for a in inner for b in inner])
        x = m.inverse_partial_derivative(W, first_margin=first)
        Z = W.copy()
        Z[:, 1 if first else 0] = np.clip(x, 0, 1)
        p2 = m.partial_derivative(Z, first_margin=first)
        inside = (x > 1e-7) & (x < 1 - 1e-7)
        e = np.abs(p2 - W[:, 1 if first else 0])
        ctx.expect(
            bool(np.all(e[inside] <= 1e-4)),
            "inverse-of",
            lambda: f"{what} first={first}: conditional of the inverse off by {e[inside].max()}",
        )
        # monotone in the probability
        k = len(inner)
        X = x.reshape(k, k)
        d = np.diff(X, axis=1 if first else 0)
        ctx.expect(
            bool(d.min() >= -1e-7),
            "inverse-monotone",
            lambda: f"{what} first={first}: inverse conditional decreases by {d.min()}",
        )


def do_arch(ctx, fam, theta, r, tier):
    pts = _points(tier)
    what = f"{fam}({theta}, {r})"
    m = _model(fam, [theta, r])
    C = _rotated(BASE[fam], r)
    T = D(theta)
    clip = [min(max(p, EPS), 1 - EPS) for p in pts]
    G = np.array([[a, b] for a in clip for b in clip])
    F = m.cdf(G)
    h2 = m.partial_derivative(G)
    h1 = m.partial_derivative(G, first_margin=True)
    ld = m.score_samples(G)
    ctx.step(4)
    for i, (a, b) in enumerate(G):
        u, v = D(float(a)), D(float(b))
        rc = float(C(u, v, T))
        r1, r2, dens = _derivs(C, u, v, T)
        ctx.state(what, a, b)
        at = f"{what} at ({a}, {b})"
        ctx.expect(abs(F[i] - rc) <= 3e-6, "cdf", lambda: f"{at}: {F[i]} expected {rc}")
        ctx.expect(abs(h1[i] - r1) <= 3e-6, "h1", lambda: f"{at}: {h1[i]} expected {r1}")
        ctx.expect(abs(h2[i] - r2) <= 3e-6, "h2", lambda: f"{at}: {h2[i]} expected {r2}")
        inner = 1e-3 <= min(a, b) and max(a, b) <= 0.9991
        if dens > D("1e-12") and (inner or (theta < 6 and fam == "Clayton")):
            rd = float(dens.ln())
            ctx.expect(
                abs(ld[i] - rd) <= 1e-4 * (1 + abs(rd)),
                "density",
                lambda: f"{at}: log density {ld[i]} expected {rd}",
            )
    _volumes(ctx, m, pts, 3e-6, what)
    _inverse(ctx, m, pts, None, what)
    # tail dependence
    lam = 2 ** (-1 / theta) if fam == "Clayton" else 2 - 2 ** (1 / theta)
    low = lam if r == ("R0" if fam == "Clayton" else "R180") else 0.0
    up = lam if r == ("R180" if fam == "Clayton" else "R0") else 0.0
    for name, got, ref in (
        ("lower", m.lower_tail_dependence, low),
        ("upper", m.upper_tail_dependence, up),
    ):
        ctx.expect(
            abs(got - ref) <= 1e-9,
            "tail-dependence",
            lambda: f"{what}: {name} tail dependence {got} expected {ref}",
        )
    if 0.05 < theta < 2.6 and theta > (0.1 if fam == "Clayton" else 1.15):
        # ... is the limit of the tail concentration
        q = D("1e-30")
        getcontext().prec = 120
        lims = (C(q, q, T) / q, (1 - 2 * (1 - q) + C(1 - q, 1 - q, T)) / q)
        getcontext().prec = 60
        ctx.expect(
            abs(float(lims[0]) - low) <= 2e-2 and abs(float(lims[1]) - up) <= 2e-2,
            "tail-limit",
            lambda: f"{what}: tail dependence {low}, {up}, limits {lims}",
        )


def _elliptic(ctx, m, pts, what, marg, joint, cond, cdf_tol):
    inner = [p for p in pts if 1e-3 <= p <= 0.9991]
    G = np.array([[a, b] for a in inner for b in inner])
    h2 = m.partial_derivative(G)
    h1 = m.partial_derivative(G, first_margin=True)
    ld = m.score_samples(G)
    x, y = marg.ppf(G[:, 0]), marg.ppf(G[:, 1])
    rd = joint.logpdf(np.column_stack([x, y])) - marg.logpdf(x) - marg.logpdf(y)
    for g in G:
        ctx.state(what, *g)
    ctx.expect(
        bool(np.all(np.abs(ld - rd) <= 1e-6 * (1 + np.abs(rd)))),
        "density",
        lambda: f"{what}: log density off by {np.abs(ld - rd).max()}",
    )
    for first, h in ((False, h2), (True, h1)):
        s, o = (y, x) if first else (x, y)
        ref = cond(s, o)
        ctx.expect(
            bool(np.all(np.abs(h - ref) <= 1e-6)),
            "conditional",
            lambda: f"{what} first={first}: conditional off by {np.abs(h - ref).max()}",
        )
    # the conditional is the integral of the density
    for a, b in ((0.3, 0.75), (0.95, 0.1), (0.5, 0.5), (0.1, 0.01)):
        yb, xa = marg.ppf(b), marg.ppf(a)
        val = si.quad(
            lambda s: joint.pdf([s, yb]) / marg.pdf(yb),
            -np.inf,
            xa,
            limit=200,
            points=None,
        )[0]
        got = m.partial_derivative(np.array([[a, b]]))[0]
        ctx.expect(
            abs(got - val) <= 1e-5,
            "integral",
            lambda: f"{what} at ({a}, {b}): conditional {got}, density integrates to {val}",
        )
        # the joint distribution is the integral of the conditional
        vv = (np.arange(4000) + 0.5) / 4000 * b
        num = m.partial_derivative(np.column_stack([np.full(4000, a), vv])).mean() * b
        F = m.cdf(np.array([[a, b], [a, b]]))[0]
        ctx.expect(
            abs(F - num) <= max(cdf_tol, 1e-4),
            "cdf",
            lambda: f"{what} at ({a}, {b}): joint distribution {F}, conditional integrates to {num}",
        )
    _volumes(ctx, m, pts, cdf_tol, what)
    _inverse(ctx, m, pts, None, what)


def do_gauss(ctx, rho, tier):
    m = _model("Gaussian", [rho])
    s = np.sqrt(1 - rho**2)
    joint = st.multivariate_normal([0, 0], [[1, rho], [rho, 1]])
    _elliptic(
        ctx,
        m,
        _points(tier),
        f"Gaussian({rho})",
        st.norm,
        joint,
        lambda a, b: st.norm.cdf((a - rho * b) / s),
        1e-5,
    )
    ctx.expect(
        m.lower_tail_dependence == 0 and m.upper_tail_dependence == 0,
        "tails",
        lambda: "Gaussian copula has tail dependence",
    )


def do_student(ctx, rho, dof, tier):
    m = _model("StudentT", [rho, dof])
    joint = st.multivariate_t([0, 0], [[1, rho], [rho, 1]], df=dof)

    def cond(a, b):
        sc = np.sqrt((1 - rho**2) * (dof + b**2) / (dof + 1))
        return st.t(dof + 1).cdf((a - rho * b) / sc)

    _elliptic(
        ctx,
        m,
        _points(tier),
        f"StudentT({rho}, {dof})",
        st.t(dof),
        joint,
        cond,
        4e-3,
    )
    ref = 2 * st.t(dof + 1).cdf(-np.sqrt((dof + 1) * (1 - rho) / (1 + rho)))
    for got in (m.lower_tail_dependence, m.upper_tail_dependence):
        ctx.expect(
            abs(got - ref) <= 1e-8,
            "tails",
            lambda: f"Student({rho}, {dof}) tail dependence {got} expected {ref}",
        )


def do_indep(ctx):
    m = _model("Independent", [])
    pts = _points("thorough")
    _volumes(ctx, m, pts, 1e-8, "Independent")
    _inverse(ctx, m, pts, None, "Independent")
    G = np.array([[a, b] for a in pts for b in pts])
    ctx.expect(np.allclose(m.cdf(G), G.prod(axis=1), atol=1e-8), "cdf", "not the product")
    ctx.expect(np.allclose(m.score_samples(G), 0), "density", "log density not zero")
    ctx.expect(
        np.allclose(m.partial_derivative(G), G[:, 0], atol=1e-8)
        and np.allclose(m.partial_derivative(G, first_margin=True), G[:, 1], atol=1e-8),
        "conditional",
        "conditional is not the margin",
    )
    ctx.expect(
        m.n_params == 0 and m.aic(G) == 0 and m.bic(G) == 0,
        "params",
        lambda: f"independent copula: {m.n_params} parameters",
    )


def do_rows(ctx, fam, params):
    """Each observation is treated on its own, whatever the number given at once."""
    m = _model(fam, params)
    pts = [0.05, 0.3, 0.5, 0.9]
    G = np.array([[a, b] for a in pts for b in pts])
    funcs = {
        "cdf": m.cdf,
        "score_samples": m.score_samples,
        "partial_derivative": m.partial_derivative,
        "partial_derivative-first": lambda g: m.partial_derivative(g, first_margin=True),
        "inverse": m.inverse_partial_derivative,
        "inverse-first": lambda g: m.inverse_partial_derivative(g, first_margin=True),
    }
    for name, f in funcs.items():
        whole = np.asarray(f(G))
        ctx.expect(whole.shape == (len(G),), "rows-shape", lambda: f"{fam}{params} {name}: {whole.shape}")
        tol = 4e-3 if fam == "StudentT" and name == "cdf" else 1e-7
        for k in (1, 2, 3):
            for i in range(len(G) - k + 1):
                ctx.step(1)
                got = f(G[i : i + k])
                ctx.expect(
                    isinstance(got, np.ndarray) and got.shape == (k,),
                    "rows-shape",
                    lambda: f"{fam}{params} {name} of {k} observations: {got!r}",
                )
                ctx.expect(
                    np.allclose(got, whole[i : i + k], atol=tol),
                    "rows",
                    lambda: f"{fam}{params} {name} at {G[i : i + k].tolist()}: {got} alone, {whole[i : i + k]} among others",
                )
        ctx.state("rows", fam, *params, name)


def do_sample(ctx, fam, params):
    n = 3000
    m = _model(fam, params, random_state=7)
    X = m.sample(n)
    what = f"{fam}{params}"
    ctx.expect(
        X.shape == (n, 2) and np.all((X >= 0) & (X <= 1)),
        "sample-shape",
        lambda: f"{what}: {X.shape}",
    )
    ctx.expect(
        np.array_equal(X, m.sample(n)), "sample-seed", lambda: f"{what}: not reproducible"
    )
    q = np.array([0.05, 0.2, 0.4, 0.6, 0.8, 0.95])
    for j in (0, 1):
        F = np.array([(X[:, j] <= a).mean() for a in q])
        ctx.expect(
            np.all(np.abs(F - q) <= 0.05),
            "sample-margin",
            lambda: f"{what}: margin {j} not uniform: {F}",
        )
    G = np.array([[a, b] for a in q for b in q])
    F = m.cdf(G)
    E = np.array([((X[:, 0] <= a) & (X[:, 1] <= b)).mean() for a, b in G])
    ctx.expect(
        np.max(np.abs(F - E)) <= 0.05,
        "sample-joint",
        lambda: f"{what}: samples off by {np.max(np.abs(F - E))}",
    )
    ctx.step(2)


# --- fitting -----------------------------------------------------------------


def _joe_tau(t):
    k = np.arange(1, 200001)
    return 1 - 4 * np.sum(1 / (k * (t * k + 2) * (t * (k - 1) + 2)))


TAU = {
    "Clayton": lambda t: t / (t + 2),
    "Gumbel": lambda t: 1 - 1 / t,
    "Joe": _joe_tau,
}
BOUND = {"Clayton": (1e-4, 50.0), "Gumbel": (1.0001, 80.0), "Joe": (1.005, 20.0)}


def _kendall(x, y):
    s = 0
    for i, j in itertools.combinations(range(len(x)), 2):
        s += np.sign((x[i] - x[j]) * (y[i] - y[j]))
    return s / (len(x) * (len(x) - 1) / 2)


def _check_tau(ctx, fam, m, tau, what):
    if fam in TH:
        lo, hi = BOUND[fam]
        a = abs(tau)
        tl, th = TAU[fam](lo), TAU[fam](hi)
        got = TAU[fam](m.theta_)
        ctx.expect(
            abs(got - min(max(a, tl), th)) <= 1e-5,
            "tau",
            lambda: f"{what}: theta {m.theta_} has rank correlation {got}, data {tau}",
        )
    else:
        ref = np.clip(np.sin(np.pi * tau / 2), -0.999, 0.999)
        ctx.expect(
            abs(m.rho_ - ref) <= 1e-9, "tau", lambda: f"{what}: rho {m.rho_} expected {ref}"
        )


def _best_rotation(ctx, fam, m, X, what):
    sd = _api()
    s0 = m.score(X)
    ctx.expect(
        abs(s0 - np.sum(m.score_samples(X))) <= 1e-8,
        "score",
        lambda: f"{what}: score is not the sum over samples",
    )
    k = m.n_params
    ctx.expect(k == (2 if fam == "StudentT" else 1), "params", lambda: f"{what}: {k}")
    ctx.expect(
        abs(m.aic(X) - (2 * k - 2 * s0)) <= 1e-8
        and abs(m.bic(X) - (k * np.log(len(X)) - 2 * s0)) <= 1e-8,
        "criterion",
        lambda: f"{what}: aic {m.aic(X)} bic {m.bic(X)} for score {s0}",
    )
    if fam not in TH:
        return
    best = -np.inf
    for r in ROT:
        o = _model(fam, [m.theta_, r])
        best = max(best, o.score(X))
    ctx.expect(
        s0 >= best - 1e-7,
        "rotation",
        lambda: f"{what}: rotation {m.rotation_} has likelihood {s0}, best {best}",
    )
    assert sd


def do_fitperm(ctx, fam, n, lo, hi):
    sd = _api()
    perms = list(itertools.permutations(range(n)))[lo:hi]
    u = (np.arange(n) + 1) / (n + 1)
    for p in perms:
        v = (np.array(p) + 1) / (n + 1)
        X = np.column_stack([u, v])
        keep = X.copy()
        tau = _kendall(u, v)
        what = f"{fam} on ordering {p}"
        m = getattr(sd, fam + "Copula")().fit(X)
        ctx.expect(np.array_equal(X, keep), "input", lambda: f"{what}: input changed")
        _check_tau(ctx, fam, m, tau, what)
        _best_rotation(ctx, fam, m, X, what)
        if fam == "StudentT":
            best = max(
                _model(fam, [m.rho_, d]).score(X) for d in (2.0, 3.0, 6.0, 12.0, 25.0, 50.0)
            )
            ctx.expect(
                m.score(X) >= best - 1e-2,
                "dof",
                lambda: f"{what}: dof {m.dof_} has likelihood {m.score(X)}, a grid reaches {best}",
            )
        if fam in TH and abs(tau) > 0.5:
            ok = (ROT[0], ROT[2]) if tau > 0 else (ROT[1], ROT[3])
            ctx.expect(
                m.rotation_.name in ok,
                "rotation-sign",
                lambda: f"{what}: rotation {m.rotation_} for rank correlation {tau}",
            )
        ctx.state(what)


def do_giventau(ctx, fam, tau):
    sd = _api()
    X = np.column_stack([(np.arange(6) + 1) / 7, np.array([2, 1, 4, 3, 6, 5]) / 7])
    m = getattr(sd, fam + "Copula")(kendall_tau=tau).fit(X)
    _check_tau(ctx, fam, m, tau, f"{fam} with kendall_tau={tau}")
    ctx.expect(m.kendall_tau == tau, "param", "parameter changed by fitting")
    _best_rotation(ctx, fam, m, X, f"{fam} with kendall_tau={tau}")


def _truth(t, r, n=80):
    """Deterministic points of a dependent pair: Clayton quantiles on a lattice."""
    k = np.arange(n)
    u = (k + 0.5) / n
    w = (k * 0.6180339887498949 + 0.37) % 1.0
    if t <= 0:
        v = w
    else:
        th = 2 * t / (1 - t)
        v = (1 + u**-th * (w ** (-th / (th + 1)) - 1)) ** (-1 / th)
    a, b = {
        "R0": (u, v),
        "R90": (1 - v, u),
        "R180": (1 - u, 1 - v),
        "R270": (v, 1 - u),
    }[r]
    return np.column_stack([a, b])


def _truth_t(rho, dof, n):
    k = np.arange(n)
    u, w = (k + 0.5) / n, (k * 0.6180339887498949 + 0.37) % 1.0
    x = st.t.ppf(u, dof)
    y = rho * x + np.sqrt((dof + x**2) * (1 - rho**2) / (dof + 1)) * st.t.ppf(w, dof + 1)
    return np.column_stack([u, st.t.cdf(y, dof)])


def do_mle(ctx, fam, t, r):
    sd = _api()
    X = _truth(t, r)
    what = f"{fam} by likelihood on data ({t}, {r})"
    m = getattr(sd, fam + "Copula")(itau=False).fit(X)
    s0 = m.score(X)
    _best_rotation(ctx, fam, m, X, what)
    i = getattr(sd, fam + "Copula")().fit(X)
    ctx.expect(
        s0 >= i.score(X) - 1e-3,
        "mle-itau",
        lambda: f"{what}: likelihood {s0} below rank inversion {i.score(X)}",
    )
    if fam in TH:
        lo, hi = BOUND[fam]
        grid = [
            (max(lo, min(hi, m.theta_ * f)), rr)
            for f in (0.5, 0.8, 0.95, 1.05, 1.25, 2.0)
            for rr in ROT
        ]
        if fam == "Clayton" and t == 0.5:
            ctx.expect(
                m.rotation_.name == r and abs(m.theta_ - 2.0) <= 0.8,
                "mle-truth",
                lambda: f"{what}: fitted {m.theta_}, {m.rotation_}",
            )
    elif fam == "Gaussian":
        grid = [(x,) for x in np.linspace(-0.95, 0.95, 20)]
    else:
        grid = [
            (float(np.clip(m.rho_ + d, -0.99, 0.99)), float(np.clip(m.dof_ * f, 2, 50)))
            for d in (-0.1, -0.02, 0, 0.02, 0.1)
            for f in (0.7, 1, 1.4)
        ]
    for g in grid:
        s = _model(fam, list(g)).score(X)
        ctx.state(what, g)
        ctx.expect(
            not s > s0 + 5e-2,
            "mle",
            lambda: f"{what}: likelihood {s0}, but {g} reaches {s}",
        )


def do_select(ctx, t, r, crit, k):
    sd = _api()
    X = _truth_t(t, *r) if k == 5 else _truth(t, r, n=40)
    C = sd.SelectionCriterion[crit]
    cands = [
        None,
        [sd.IndependentCopula(), sd.ClaytonCopula(), sd.GaussianCopula(itau=False)],
        [sd.JoeCopula(itau=False), sd.StudentTCopula(), sd.GumbelCopula()],
        [sd.GaussianCopula(kendall_tau=0.7)],
        [sd.GumbelCopula(kendall_tau=0.15), sd.ClaytonCopula(kendall_tau=0.2)],
        [sd.StudentTCopula(), sd.GaussianCopula()],
    ][k]
    level = [0.05, 0.2, 0.01, 0.05, 0.05, 0.05][k]
    pv = st.kendalltau(X[:, 0], X[:, 1]).pvalue
    kw = {} if cands is None else {"copula_candidates": cands}
    got = sd.select_bivariate_copula(
        X, selection_criterion=C, independence_level=level, **kw
    )
    names = ["Gaussian", "StudentT", "Clayton", "Gumbel", "Joe"]
    pool = [getattr(sd, f + "Copula")() for f in names] if cands is None else cands
    what = f"selection on ({t}, {r}) by {crit} among {pool}"
    if pv >= level:
        ctx.expect(
            isinstance(got, sd.IndependentCopula),
            "independence",
            lambda: f"{what}: p-value {pv} at level {level} gave {got}",
        )
        return
    import sklearn as sk

    vals = []
    for c in pool:
        c = sk.clone(c).fit(X)
        vals.append(c.aic(X) if crit == "AIC" else c.bic(X))
    mine = got.aic(X) if crit == "AIC" else got.bic(X)
    ctx.expect(
        abs(mine - min(vals)) <= 1e-6 and type(got) is type(pool[int(np.argmin(vals))]),
        "best",
        lambda: f"{what}: chose {got} with {mine}, candidates {vals}",
    )
    for c in pool:
        ctx.expect(
            not hasattr(c, "n_features_in_"), "candidates", "candidate instances fitted"
        )


def do_selectbad(ctx):
    sd = _api()
    X = _truth(0.5, "R0", 30)
    for bad, kw in (
        (X[:, :1], {}),
        (np.column_stack([X, X]), {}),
        (X[:, 0], {}),
        (X, {"copula_candidates": ["Gaussian"]}),
        (X, {"copula_candidates": [sd.Gaussian()]}),
    ):
        try:
            sd.select_bivariate_copula(bad, **kw)
            ctx.fail("select-refusal", f"accepted shape {bad.shape} {kw}")
        except ValueError:
            pass
        ctx.step()


def do_pseudo(ctx, n, ties):
    sd = _api()
    vals = range(3) if ties else None
    rows = (
        itertools.product(vals, repeat=min(n, 4))
        if ties
        else itertools.permutations(range(n))
    )
    for row in rows:
        x = np.array(row, dtype=float)
        X = np.column_stack([x, -x * 2])
        P = sd.compute_pseudo_observations(X)
        for j in (0, 1):
            c = X[:, j]
            ref = np.array([(np.sum(c < a) + (np.sum(c == a) + 1) / 2) for a in c])
            ctx.expect(
                np.allclose(P[:, j], ref / (len(c) + 1)),
                "pseudo",
                lambda: f"ranks of {c}: {P[:, j]} expected {ref / (len(c) + 1)}",
            )
        ctx.state(ties, row)


def do_empconc(ctx, which):
    sd = _api()
    n = 6
    q = (
        np.array([0.1, 1 / 3, 0.5, 0.51, 0.7, 0.9])
        if which == "inner"
        else np.array([0.0, 0.5, 1.0])
    )
    u = (np.arange(n) + 1) / (n + 1)
    for p in itertools.permutations(range(n)):
        X = np.column_stack([u, (np.array(p) + 1) / (n + 1)])
        got = sd.empirical_tail_concentration(X, q)
        for k, a in enumerate(q):
            if a <= 0.5:
                A, B = X[:, 0] <= a, X[:, 1] <= a
            else:
                A, B = X[:, 0] >= a, X[:, 1] >= a
            ref = (A & B).sum() / A.sum() if A.any() else 0.0
            ctx.expect(
                abs(got[k] - ref) <= 1e-12,
                "empirical-tail",
                lambda: f"ordering {p} at {a}: {got[k]} expected {ref}",
            )
        ctx.state(which, p)
    for bad, qq in ((X * 2, q), (X[:, :1], q), (X, np.array([1.5]))):
        try:
            sd.empirical_tail_concentration(bad, qq)
            ctx.fail("empirical-refusal", "invalid input accepted")
        except ValueError:
            pass


# --- margins -----------------------------------------------------------------


def _data(f, n=120):
    k = (np.arange(n) * 0.6180339887498949 + 0.11) % 1.0
    z = st.norm.ppf(np.clip(k, 1e-3, 1 - 1e-3))
    if f == "normal":
        x = 0.01 * z + 0.001
    elif f == "fat":
        x = 0.01 * st.t(3).ppf(np.clip(k, 1e-3, 1 - 1e-3))
    elif f.startswith("t"):
        x = 0.01 * st.t(int(f[1:])).ppf(np.clip(k, 1e-3, 1 - 1e-3))
    elif f == "skew":
        x = 0.01 * (np.exp(0.5 * z) - 1.1)
    else:
        x = 0.5 + 0.2 * z + 0.05 * z**3
    return x.reshape(-1, 1)


def do_univ(ctx, f, cls, fixed):
    sd = _api()
    X = _data(f)
    kw = {}
    if fixed == "loc":
        kw["loc"] = float(np.median(X)) * 0.9
    elif fixed == "scale":
        kw["scale"] = float(X.std()) * 1.1
    m = getattr(sd, cls)(random_state=3, **kw).fit(X)
    what = f"{cls}({kw}) on {f}"
    for k, v in kw.items():
        ctx.expect(
            getattr(m, k + "_") == v,
            "fixed",
            lambda: f"{what}: {k} became {getattr(m, k + '_')}",
        )
    ps = np.array([0.001, 0.01, 0.05, 0.25, 0.5, 0.75, 0.95, 0.99, 0.999]).reshape(-1, 1)
    x = m.ppf(ps)
    ctx.expect(np.all(np.diff(x[:, 0]) > 0), "ppf-monotone", lambda: f"{what}: {x[:, 0]}")
    back = m.cdf(x)
    ctx.expect(
        x.shape == ps.shape and np.allclose(back, ps, atol=1e-6),
        "cdf-ppf",
        lambda: f"{what}: cdf(ppf(p)) = {back.ravel()}",
    )
    # the distribution function is the integral of the density
    for a, b in zip(x[:-1, 0], x[1:, 0]):
        g = np.linspace(a, b, 801)
        pdf = np.exp(m.score_samples(g.reshape(-1, 1)))
        area = si.simpson(pdf, x=g)
        ref = float(m.cdf(np.array([[b]]))[0, 0] - m.cdf(np.array([[a]]))[0, 0])
        ctx.expect(
            abs(area - ref) <= 1e-5,
            "density",
            lambda: f"{what}: density integrates to {area}, distribution gives {ref}",
        )
        ctx.state(what, a)
    s = m.score(X)
    k = m.n_params
    want = {"Gaussian": 2, "StudentT": 3, "JohnsonSU": 4, "NormalInverseGaussian": 4}[cls]
    ctx.expect(k == want, "params", lambda: f"{what}: {k} parameters")
    ctx.expect(
        abs(s - m.score_samples(X).sum()) <= 1e-6
        and abs(m.aic(X) - (2 * k - 2 * s)) <= 1e-6
        and abs(m.bic(X) - (k * np.log(len(X)) - 2 * s)) <= 1e-6,
        "criterion",
        lambda: f"{what}: score {s} aic {m.aic(X)} bic {m.bic(X)}",
    )
    if cls == "Gaussian":
        loc = kw.get("loc", X.mean())
        sc = kw.get("scale", np.sqrt(((X - loc) ** 2).mean()))
        ctx.expect(
            abs(m.loc_ - loc) <= 1e-9 and abs(m.scale_ - sc) <= 1e-9,
            "gaussian-fit",
            lambda: f"{what}: {m.loc_} {m.scale_} expected {loc} {sc}",
        )
    S = m.sample(2000)
    ctx.expect(
        S.shape == (2000, 1) and np.array_equal(S, m.sample(2000)),
        "sample-seed",
        lambda: f"{what}: sample {S.shape}",
    )
    F = np.array([(S[:, 0] <= a).mean() for a in x[:, 0]])
    ctx.expect(
        np.all(np.abs(F - ps[:, 0]) <= 0.06),
        "sample",
        lambda: f"{what}: sample frequencies {F} for {ps[:, 0]}",
    )
    # fit is at least as good as the moments fit
    if not kw:
        base = st.norm(X.mean(), X.std()).logpdf(X).sum()
        ctx.expect(
            s >= base - 1.5,
            "fit-quality",
            lambda: f"{what}: likelihood {s}, plain normal {base}",
        )


def do_univselect(ctx, f, crit):
    import sklearn as sk

    sd = _api()
    X = _data(f)
    C = sd.SelectionCriterion[crit]
    for pool in (
        None,
        [sd.Gaussian(), sd.StudentT()],
        [sd.JohnsonSU(), sd.Gaussian(loc=0.0)],
        [sd.StudentT(), sd.NormalInverseGaussian(), sd.Gaussian()],
    ):
        kw = {} if pool is None else {"distribution_candidates": pool}
        got = sd.select_univariate_dist(X, selection_criterion=C, **kw)
        cand = pool or [sd.Gaussian(), sd.StudentT(), sd.JohnsonSU()]
        vals = []
        for c in cand:
            c = sk.clone(c).fit(X)
            vals.append(c.aic(X) if crit == "AIC" else c.bic(X))
        mine = got.aic(X) if crit == "AIC" else got.bic(X)
        ctx.expect(
            abs(mine - min(vals)) <= 1e-4 and type(got) is type(cand[int(np.argmin(vals))]),
            "univ-best",
            lambda: f"{f} {crit}: chose {got} with {mine}, candidates {vals}",
        )
        ctx.state(f, crit, str(pool))


def do_univbad(ctx):
    sd = _api()
    X = _data("normal")
    for fn in (
        lambda: sd.Gaussian(loc=0.0, scale=1.0).fit(X),
        lambda: sd.Gaussian().fit(np.column_stack([X, X])),
        lambda: sd.StudentT().fit(np.column_stack([X, X])),
        lambda: sd.select_univariate_dist(np.column_stack([X, X])),
        lambda: sd.select_univariate_dist(X, distribution_candidates=["normal"]),
        lambda: sd.select_univariate_dist(
            X, distribution_candidates=[sd.GaussianCopula()]
        ),
    ):
        try:
            fn()
            ctx.fail("univ-refusal", "invalid request accepted")
        except ValueError:
            pass
        ctx.step()
