"""C36: results follow a change of units, sign, order and orientation of the coordinates, and sums of operators."""
import itertools
import numpy as np
from mc.core import close
from mc.lib import Scripted, big_cols, big_matrix, irr, near, struct_family, sym_from_word, sym_words

RULE = ("all routines acting on operators x matrices (all small words, structured families, larger ones) x all transformations of the menu (units 2^-200..2^200, sign, 3; every permutation and sign "
        "pattern of the coordinates or cyclic ones for larger sizes, reflections; adding a multiple of the identity, adding operators; scaled samples) x samplers x scale-free stopping rules: "
        "the transformed call gives the transformed result, sample by sample, and the same number of samples")
ASSUMPTIONS = ["agreement to 1e-9 relative to the largest sample", "stopping rules without absolute thresholds", "sketches of the exchangeable estimators nonsingular (condition at most 1e6)",
               "Lanczos tolerance below the couplings in both units"]
EXTS = ("tqli", "fttr", "_lanczos")
UNITS = (2.0 ** -200, 2.0 ** -60, 2.0 ** -30, 2.0 ** -10, 3.0, -1.0, -2.0 ** 10, 2.0 ** 30, 2.0 ** 60, 2.0 ** 200)


def mats(tier):
    th = tier == "thorough"
    for i, w in enumerate(sym_words(2, (-1, 0, 2))):
        yield f"w{i}", sym_from_word(w, 2)
    for i, w in enumerate(sym_words(3, (-1, 0, 2))):
        if i % (3 if th else 24) == 5 % (3 if th else 24):
            yield f"w{i}", sym_from_word(w, 3)
    for n in (1, 2, 3, 4, 5) + ((6, 7) if th else ()):
        for nm, M in struct_family(n).items():
            yield nm, M
    yield "skew", np.array([[1.0, 2.0], [-0.5, 3.0]])
    yield "skew", np.array([[1.0, 2.0, 0.0], [-0.5, 3.0, 1.0], [4.0, 0.25, -2.0]])


KINDS = ["hutch", "diag", "hutchpp", "xtrace", "xdiag", "lanczos", "function", "toeplitz", "jacobi", "normalize", "stats"]


def cases(tier):
    for nm, A in mats(tier):
        for k in KINDS:
            if nm == "skew" and k in ("lanczos", "function", "jacobi", "normalize"):
                continue
            yield dict(k=k, A=A.tolist(), nm=nm)
    for n in (12, 40) + ((70, 150) if tier == "thorough" else ()):
        for nm in ("lin", "indef", "clust", "out"):
            for k in KINDS:
                if k in ("hutchpp", "xtrace", "xdiag") and nm == "clust":
                    continue
                yield dict(k=k, n=n, big=nm)


def matrix(case):
    return big_matrix(case["n"], case["big"])[0] if "big" in case else np.array(case["A"], dtype=float)


def vectors(n, k, salt=0):
    """k vectors without structure, none of their entries zero."""
    if n > 8:
        return [c + 0.03125 for c in big_cols(n, k, "graded" if salt else "signs")]
    return [irr(n) * (1 + 0.5 * ((np.arange(n) * (j + 2) + j + salt) % 3)) * (-1.0) ** ((np.arange(n) * (j + 1) + j // 2) % 2) for j in range(k)]


def moves(n):
    """(name, matrix of the change of coordinates)"""
    perms = list(itertools.permutations(range(n))) if n <= 3 else [np.roll(np.arange(n), 1), np.arange(n)[::-1], (np.arange(n) * (n - 1 if n % 2 else 3 if n % 3 else 5)) % n if np.gcd(n, 5) == 1 or n % 3 else np.arange(n)]
    for p in perms:
        if len(set(np.asarray(p).tolist())) == n:
            yield "perm", np.eye(n)[:, list(p)]
    for s in list(itertools.product((1, -1), repeat=n))[1:] if n <= 3 else [(-1.0) ** np.arange(n), np.where(np.arange(n) % 3, 1.0, -1.0)]:
        yield "signs", np.diag(np.asarray(s, dtype=float))


def reflections(n):
    if n > 1:
        for v in (np.ones(n), np.arange(1.0, n + 1)):
            yield "reflection", np.eye(n) - 2 * np.outer(v, v) / (v @ v)


RULES = [dict(converge="count", count=1), dict(converge="count", count=4), dict(converge="tolerance", rtol=0.05, atol=0.0), dict(converge="confidence", rtol=0.2, atol=0.0, confidence=0.9)]


def agree(ctx, what, got, exp, scale=0.0, tol=1e-9):
    got, exp = np.ravel(got), np.ravel(exp)
    ctx.op()
    s = max(scale, np.abs(exp).max(initial=0.0))
    ctx.check(got.shape == exp.shape and near(got, exp, tol * s), lambda: f"{what()}: {got}, expected {exp}")


def hutch(ctx, case, A):
    from primate.trace import hutch
    n = len(A)
    for salt in (0, 1):
        cols = vectors(n, 60, salt)
        for rule in RULES:
            for full in (False, True):
                kw = dict(rule, full=full, batch=1, **({"record": True} if full else {}))
                capped = rule["converge"] == "count"

                def go(B, cs):
                    p = Scripted(n, cs)
                    r = hutch(B, pdf=p, **kw)
                    return (r[0], p.pos, np.ravel(r[1].estimator.values)) if full else (r, p.pos, np.zeros(0))
                try:
                    e, t, vals = go(A, cols)
                except AssertionError:
                    ctx.check(not capped, lambda: f"{case} {rule}: more than 60 samples")
                    continue
                q = np.array([c @ A @ c for c in cols[:t]])
                M = max(np.abs(q).max(initial=0), np.abs(A).max() * np.max([x @ x for x in cols[:t]], initial=0))
                near_tie = not capped
                for c in UNITS:
                    what = lambda: f"hutch {case} {rule} full={full}: operator times {c}"
                    e2, t2, v2 = go(c * A, cols)
                    ctx.check(t2 == t or abs(np.log2(abs(c))) % 1 > 0 and near_tie, lambda: what() + f": {t2} samples instead of {t}")
                    if t2 == t:
                        agree(ctx, what, e2 / c, e, M)
                        agree(ctx, what, v2 / c, vals, M)
                    if abs(c) < 1e50 and abs(c) > 1e-50:
                        what = lambda: f"hutch {case} {rule} full={full}: vectors times {c}"
                        e2, t2, v2 = go(A, [c * x for x in cols])
                        ctx.check(t2 == t or c == 3.0 and near_tie, lambda: what() + f": {t2} samples instead of {t}")
                        if t2 == t:
                            agree(ctx, what, e2 / c ** 2, e, M)
                for nm, U in itertools.chain(moves(n), reflections(n)):
                    what = lambda: f"hutch {case} {rule} full={full}: {nm} {U.tolist()}"
                    e2, t2, v2 = go(U @ A @ U.T, [U @ x for x in cols])
                    ctx.check(t2 == t or near_tie, lambda: what() + f": {t2} samples instead of {t}")
                    if t2 == t:
                        agree(ctx, what, e2, e, np.abs(A).max() * np.max([x @ x for x in cols[:t]]))
                if capped:
                    for s in (-2.0, 0.25, 1e3):
                        e2 = go(A + s * np.eye(n), cols)[0]
                        agree(ctx, lambda: f"hutch {case} {rule} full={full}: {s} times the identity added", e2 - e, s * np.mean([x @ x for x in cols[:t]]), max(M, abs(s) * np.max([x @ x for x in cols[:t]])))
                    B = np.add.outer(np.arange(n), np.arange(n)) * 0.5 - np.eye(n)
                    agree(ctx, lambda: f"hutch {case} {rule} full={full}: sum of operators", go(A + B, cols)[0], e + go(B, cols)[0], max(M, np.abs(B).max() * np.max([x @ x for x in cols[:t]])))
                ctx.trace()
                ctx.state("hutch", case["nm"] if "nm" in case else case["big"], n, salt, str(rule), full)


def diag(ctx, case, A):
    from primate.diagonal import diag
    n = len(A)
    for salt in (0, 1):
        cols = vectors(n, 60, salt)
        for rule in RULES[:3]:
            for full in (False, True):
                capped = rule["converge"] == "count"

                def go(B, cs):
                    p = Scripted(n, cs)
                    r = diag(B, pdf=p, full=full, **rule)
                    return np.ravel(r[0] if full else r), p.pos
                try:
                    e, t = go(A, cols)
                except AssertionError:
                    ctx.check(not capped, lambda: f"{case} {rule}: more than 60 samples")
                    continue
                for c in UNITS:
                    for what, e2, t2 in ((f"operator times {c}",) + go(c * A, cols), (f"vectors times {c}",) + go(A, [c * x for x in cols])):
                        f = c if what[0] == "o" else 1.0
                        w = lambda: f"diag {case} {rule} full={full}: {what}"
                        ctx.check(t2 == t or c == 3.0 and not capped, lambda: w() + f": {t2} samples instead of {t}")
                        if t2 == t:
                            agree(ctx, w, e2 / f, e)
                for nm, U in moves(n):
                    w = lambda: f"diag {case} {rule} full={full}: {nm} {U.tolist()}"
                    e2, t2 = go(U @ A @ U.T, [U @ x for x in cols])
                    ctx.check(t2 == t or not capped, lambda: w() + f": {t2} samples instead of {t}")
                    if t2 == t:
                        agree(ctx, w, e2, np.abs(U) @ e, np.abs(A).max())
                if capped:
                    for s in (-2.0, 0.25, 1e3):
                        agree(ctx, lambda: f"diag {case} {rule} full={full}: {s} times the identity added", go(A + s * np.eye(n), cols)[0] - e, np.full(n, s), 100 * max(np.abs(A).max(), abs(s)))
                    B = np.add.outer(np.arange(n), np.arange(n)) * 0.5 - np.eye(n)
                    agree(ctx, lambda: f"diag {case} {rule} full={full}: sum of operators", go(A + B, cols)[0], e + go(B, cols)[0], 100 * max(np.abs(A).max(), np.abs(B).max()))
                ctx.trace()
                ctx.state("diag", case["nm"] if "nm" in case else case["big"], n, salt, str(rule), full)


def cond(M):
    s = np.linalg.svd(M, compute_uv=False)
    return s[0] / s[-1] if s.size and s[-1] > 0 else np.inf


def hutchpp(ctx, case, A):
    from primate.trace import hutchpp
    n = len(A)
    for m in sorted({1, 2, max(n // 3, 1), n}):
        p0 = Scripted(n, [], tail=vectors(n, 3))
        hutchpp(A, m=m, pdf=p0)
        nb, ng = p0.log[0], sum(p0.log[1:])
        W, G = vectors(n, nb, 1), vectors(n, ng, 0)
        k = cond(A @ np.array(W).T)
        if not k < 1e6 or nb > n:
            ctx.outcome("undetermined sketch")
            continue
        for mode in ("reduced", "full"):
            go = lambda B, W_, G_: hutchpp(B, m=m, pdf=Scripted(n, list(W_) + list(G_)), mode=mode)
            e = go(A, W, G)
            S = np.abs(A).max() * n * max(x @ x for x in G) * max(1.0, 1e-3 * k)
            for c in UNITS:
                agree(ctx, lambda: f"hutchpp {case} m={m} {mode}: operator times {c}", go(c * A, W, G) / c, e, S)
                agree(ctx, lambda: f"hutchpp {case} m={m} {mode}: sketch times {c}", go(A, [c * x for x in W], G), e, S)
                agree(ctx, lambda: f"hutchpp {case} m={m} {mode}: sketch vectors times different numbers", go(A, [x * (c if j % 2 else 1) for j, x in enumerate(W)], G) if 1e-10 < abs(c) < 1e10 and np.log2(abs(c)) < 12 and abs(c) > 1e-5 else e, e, S * 1e4)
            for nm, U in itertools.chain(moves(n), reflections(n)):
                agree(ctx, lambda: f"hutchpp {case} m={m} {mode}: {nm} {U.tolist()}", go(U @ A @ U.T, [U @ x for x in W], [U @ x for x in G]), e, S)
            agree(ctx, lambda: f"hutchpp {case} m={m} {mode}: sketch in reverse order", go(A, W[::-1], G), e, S)
            agree(ctx, lambda: f"hutchpp {case} m={m} {mode}: residual sample in reverse order", go(A, W, G[::-1]), e, S)
            ctx.trace()
            ctx.state("hutchpp", case["nm"] if "nm" in case else case["big"], n, m, mode)


def xtrace(ctx, case, A):
    from primate.random import isotropic
    from primate.trace import xtrace
    n = len(A)
    for m in sorted({1, 2, max(n // 2, 1), max(n - 1, 1)}):
        for kind in ("script", "sphere"):
            cols = vectors(n, m, 1)
            if kind == "sphere":
                Z = isotropic((n, m), pdf="sphere", seed=np.random.default_rng(n + m))
                cols = list(Z.T)
            k = max(cond(A @ np.array(cols[:j]).T) for j in range(1, m + 1))
            if not k < 1e6 or m > n:
                ctx.outcome("singular sketch")
                continue
            for batch in sorted({1, 2, m}):
                if m % batch:
                    continue

                def go(B, cs):
                    if kind == "sphere":
                        r = xtrace(B, batch=batch, pdf="sphere", seed=np.random.default_rng(n + m), converge="count", count=m, full=True, record=True)
                    else:
                        r = xtrace(B, batch=batch, pdf=Scripted(n, cs), converge="count", count=m, full=True, record=True)
                    return r[0], np.ravel(r[1].estimator.values)
                e, v = go(A, cols)
                S = max(np.abs(v).max(), np.abs(A).max()) * max(1.0, 1e-3 * k)
                for c in UNITS:
                    e2, v2 = go(c * A, cols)
                    agree(ctx, lambda: f"xtrace {case} m={m} batch={batch} {kind}: operator times {c}", e2 / c, e, S)
                    agree(ctx, lambda: f"xtrace {case} m={m} batch={batch} {kind}: operator times {c}, samples", v2 / c, v, S)
                if kind == "script":
                    for nm, U in itertools.chain(moves(n), reflections(n)):
                        e2, v2 = go(U @ A @ U.T, [U @ x for x in cols])
                        agree(ctx, lambda: f"xtrace {case} m={m} batch={batch}: {nm} {U.tolist()}", v2, v, S)
                    e2, v2 = go(A, cols[::-1])
                    agree(ctx, lambda: f"xtrace {case} m={m} batch={batch}: vectors in reverse order", v2 if batch == m else e2, v[::-1] if batch == m else e, S)
                    e2, v2 = go(A, [-x if j % 2 else x for j, x in enumerate(cols)])
                    agree(ctx, lambda: f"xtrace {case} m={m} batch={batch}: signs of vectors changed", v2, v, S)
                ctx.trace()
                ctx.state("xtrace", case["nm"] if "nm" in case else case["big"], n, m, kind, batch)


def xdiag(ctx, case, A):
    from primate.diagonal import xdiag
    from primate.random import isotropic
    n = len(A)
    for m in sorted({2, 2 * max(n // 3, 1), 2 * max(n - 1, 1)}):
        for pdf in ("sphere", "rademacher", "normal"):
            for seed in (0, 1):
                W = isotropic((n, m // 2), pdf=pdf, seed=np.random.default_rng(seed))
                k = cond(A @ W)
                if not k < 1e6 or m // 2 >= n:
                    ctx.outcome("singular sketch")
                    continue
                go = lambda B: np.ravel(xdiag(B, m=m, pdf=pdf, seed=np.random.default_rng(seed)))
                e = go(A)
                for c in UNITS:
                    agree(ctx, lambda: f"xdiag {case} m={m} {pdf} seed {seed}: operator times {c}", go(c * A) / c, e, np.abs(A).max() * max(1.0, 1e-3 * k))
                ctx.trace()
                ctx.state("xdiag", case["nm"] if "nm" in case else case["big"], n, m, pdf, seed)


def lanczos(ctx, case, A):
    from primate.lanczos import lanczos, rayleigh_ritz
    n = len(A)
    s = np.abs(np.linalg.eigvalsh(A)).max()
    if s == 0:
        return
    for v in vectors(n, 2, 1):
        for deg in sorted({1, 2, 3, max(n // 2, 1), n - 1}):
            if not 1 <= deg <= min(n, 8):
                continue
            for orth in (0, deg):
                go = lambda B, x: [np.ravel(t) for t in lanczos(B, v0=x.copy(), deg=deg, orth=orth, rtol=1e-13 * min(1.0, np.abs(B).max()))]
                a, b = go(A, v)
                if len(a) < deg or deg > 1 and np.min(b) < 1e-3 * s:
                    ctx.outcome("exhausted")
                    continue
                tol = 1e-9 * (1e3 if orth == 0 and deg > 3 else 1)
                for c in UNITS:
                    a2, b2 = go(c * A, v)
                    agree(ctx, lambda: f"lanczos {case} deg={deg} orth={orth}: operator times {c}, diagonal", a2 / c, a, s, tol)
                    agree(ctx, lambda: f"lanczos {case} deg={deg} orth={orth}: operator times {c}, couplings", b2 / abs(c), b, s, tol)
                    a2, b2 = go(A, c * v)
                    agree(ctx, lambda: f"lanczos {case} deg={deg} orth={orth}: start times {c}", np.r_[a2, b2], np.r_[a, b], s, tol)
                for t in (-2.0, 0.25, 64.0):
                    a2, b2 = go(A + t * np.eye(n), v)
                    agree(ctx, lambda: f"lanczos {case} deg={deg} orth={orth}: {t} times the identity added", np.r_[a2 - t, b2], np.r_[a, b], s + abs(t), 10 * tol)
                for nm, U in itertools.chain(moves(n), reflections(n)):
                    a2, b2 = go(U @ A @ U.T, U @ v)
                    agree(ctx, lambda: f"lanczos {case} deg={deg} orth={orth}: {nm} {U.tolist()}", np.r_[a2, b2], np.r_[a, b], s, 10 * tol)
                ctx.trace()
                ctx.state("lanczos", case["nm"] if "nm" in case else case["big"], n, deg, orth)


def function(ctx, case, A):
    from primate.operators import MatrixFunction
    n = len(A)
    s = np.abs(np.linalg.eigvalsh(A)).max()
    if s == 0:
        return
    A = A / s
    for deg in sorted({2, 3, max(2, min(n, 6))}):
        for fn, f in (("id", lambda x: x), ("exp", np.exp), ("x^3-1", lambda x: x ** 3 - 1)):
            V = np.column_stack(vectors(n, 3, 1))
            go = lambda B, g, X: MatrixFunction(B, fun=g, deg=deg, orth=deg)
            Y, q = MatrixFunction(A, fun=f, deg=deg, orth=deg) @ V, MatrixFunction(A, fun=f, deg=deg, orth=deg).quad(V)
            S, Sq = np.abs(V).max() * n, np.max(np.sum(V * V, axis=0))
            w = lambda: f"matrix function {fn} of {case} deg={deg}"
            for c in (2.0 ** 20, -2.0 ** 6, 3.0, -1.0, 0.5):
                M = MatrixFunction(c * A, fun=lambda x: f(x / c), deg=deg, orth=deg)
                agree(ctx, lambda: f"{w()}: operator times {c}", M @ V, Y, S, 1e-7 if abs(c) > 100 else 1e-8)
                agree(ctx, lambda: f"{w()}: operator times {c}, quadratic form", M.quad(V), q, Sq, 1e-7 if abs(c) > 100 else 1e-8)
            for c in UNITS:
                M = MatrixFunction(A, fun=f, deg=deg, orth=deg)
                agree(ctx, lambda: f"{w()}: vectors times {c}", (M @ (c * V)) / c, Y, S)
                if 1e-50 < abs(c) < 1e50:
                    agree(ctx, lambda: f"{w()}: vectors times {c}, quadratic form", M.quad(c * V) / c ** 2, q, Sq)
                M = MatrixFunction(A, fun=lambda x: c * f(x), deg=deg, orth=deg)
                agree(ctx, lambda: f"{w()}: function times {c}", (M @ V) / c, Y, S)
                agree(ctx, lambda: f"{w()}: function times {c}, quadratic form", M.quad(V) / c, q, Sq)
            for t in (-2.0, 0.25):
                M = MatrixFunction(A + t * np.eye(n), fun=lambda x: f(x - t), deg=deg, orth=deg)
                agree(ctx, lambda: f"{w()}: {t} times the identity added", M @ V, Y, S, 1e-7)
            for nm, U in itertools.chain(moves(n), reflections(n)):
                M = MatrixFunction(U @ A @ U.T, fun=f, deg=deg, orth=deg)
                agree(ctx, lambda: f"{w()}: {nm} {U.tolist()}", M @ (U @ V), U @ Y, S, 1e-7)
                agree(ctx, lambda: f"{w()}: {nm} {U.tolist()}, quadratic form", M.quad(U @ V), q, Sq, 1e-7)
            ctx.trace()
            ctx.state("function", case["nm"] if "nm" in case else case["big"], n, deg, fn)


def toeplitz(ctx, case, A):
    from primate.operators import Toeplitz
    n = len(A)
    c0, r0 = A[:, 0].copy(), A[0].copy()
    X = np.column_stack(vectors(n, 3, 1))
    Y = Toeplitz(c0, r0) @ X
    S = np.abs(A).max() * np.abs(X).max() * n
    for c in UNITS:
        agree(ctx, lambda: f"Toeplitz {case}: coefficients times {c}", (Toeplitz(c * c0, c * r0) @ X) / c, Y, S)
        agree(ctx, lambda: f"Toeplitz {case}: vectors times {c}", (Toeplitz(c0, r0) @ (c * X)) / c, Y, S)
    agree(ctx, lambda: f"Toeplitz {case}: reversed", (Toeplitz(r0, c0) @ X[::-1])[::-1], Y, S)
    for t in (-2.0, 0.25, 1e3):
        e = np.eye(n)[0] * t
        agree(ctx, lambda: f"Toeplitz {case}: {t} times the identity added", (Toeplitz(c0 + e, r0 + e) @ X) - t * X, Y, S + abs(t) * np.abs(X).max() * n)
    ctx.trace()
    ctx.state("toeplitz", case["nm"] if "nm" in case else case["big"], n)


def jacobi(ctx, case, A):
    from primate.integrate import quadrature
    from primate.tridiag import eigh_tridiag, eigvalsh_tridiag
    d, e = np.diag(A).copy(), np.diag(A, 1).copy() + (0.5 if len(A) > 12 else 0.0)
    n = len(d)
    S = max(np.abs(d).max(), np.abs(e).max(initial=0.0))
    if S == 0:
        return
    units = [c for c in UNITS if 1e-20 < abs(c) < 1e20]
    for m in ("mrrr", "tqli"):
        go = lambda d, e: np.sort(np.ravel(eigvalsh_tridiag(d.copy(), e.copy(), method=m)))
        w = go(d, e)
        for c in units:
            agree(ctx, lambda: f"eigenvalues ({m}) of {case}: times {c}", np.sort(go(c * d, c * e) / c), w, S)
        for t in (-2.0, 0.25, 1e3):
            agree(ctx, lambda: f"eigenvalues ({m}) of {case}: shifted by {t}", go(d + t, e) - t, w, S + abs(t))
        agree(ctx, lambda: f"eigenvalues ({m}) of {case}: reversed", go(d[::-1], e[::-1]), w, S)
        agree(ctx, lambda: f"eigenvalues ({m}) of {case}: signs of the couplings", go(d, e * (-1.0) ** np.arange(n - 1)), w, S)
        for q in ("gw", "fttr"):
            deg = min(n, 8)
            if q == "fttr" and (n > 1 and np.min(np.abs(e[: deg - 1]), initial=1.0) < 1e-3 * S):
                continue
            th0, ta0 = quadrature(d, e, deg=deg, quad=q)
            for c in units + []:
                if q == "fttr" and c < 0:
                    continue
                th, ta = quadrature(c * d, c * e, deg=deg, quad=q)
                o, o0 = np.argsort(th / c, kind="stable"), np.argsort(th0, kind="stable")
                agree(ctx, lambda: f"quadrature ({q}) of {case}: times {c}", (th / c)[o], th0[o0], S)
                for p in range(min(2 * deg, 6)):
                    agree(ctx, lambda: f"quadrature ({q}) of {case}: times {c}, moment {p}", np.sum(ta * (th / c / S) ** p), np.sum(ta0 * (th0 / S) ** p), 1.0, 1e-7 if q == "fttr" else 1e-9)
    ctx.trace()
    ctx.state("jacobi", case["nm"] if "nm" in case else case["big"], n)


def normalize(ctx, case, A):
    from primate.operators import normalize_unit
    n = len(A)
    w = np.linalg.eigvalsh(A)
    s = np.abs(w).max()
    if n < 3 or s == 0 or np.sum(np.abs(np.abs(w) - s) < 1e-3 * s) > np.sum(np.abs(w - w[np.argmax(np.abs(w))]) < 1e-9 * s):
        return
    dense = lambda B: normalize_unit(B) @ np.eye(n)
    N = dense(A)
    for c in (2.0 ** -60, 2.0 ** -30, 2.0 ** -10, 3.0, 2.0 ** 10, 2.0 ** 30, 2.0 ** 60):
        agree(ctx, lambda: f"normalised {case}: operator times {c}", dense(c * A), N, 1.0, 1e-7)
    for nm, U in moves(n):
        agree(ctx, lambda: f"normalised {case}: {nm} {U.tolist()}", dense(U @ A @ U.T), U @ N @ U.T, 1.0, 1e-7)
    ctx.trace()
    ctx.state("normalize", case["nm"] if "nm" in case else case["big"], n)


def stats(ctx, case, A):
    from primate.estimators import ControlVariableEstimator, KneeCriterion, MeanEstimator, ConfidenceCriterion, ToleranceCriterion
    from primate.linalg import update_trinv
    from primate.stats import confidence_interval
    x = np.ravel(A)[:40] + 0.125 * np.arange(min(A.size, 40))
    k = len(x)

    def answers(y):
        est, out = MeanEstimator(covariance=True, record=True), []
        for t in y:
            est.update(t)
            out.append((len(est), bool(ToleranceCriterion(rtol=0.1, atol=0.0)(est)), bool(ConfidenceCriterion(rtol=0.3, atol=0.0)(est)), bool(KneeCriterion(1.0)(est))))
        return est, out
    if k < 4:
        return
    e0, o0 = answers(x)
    ci = {sd: np.array(confidence_interval(x, 0.9, sd)) for sd in ("t", "normal")}
    y = np.column_stack([x, np.cos(np.arange(k)), np.sin(np.arange(k) * 2)])
    cv0 = ControlVariableEstimator(ecv=np.array([0.1, -0.2]))
    cv0.update(y)
    for c in UNITS:
        e, o = answers(c * x)
        ctx.check(o == o0 or c == 3.0, lambda: f"samples {x.tolist()} times {c}: answers of the rules {o}, before {o0}")
        agree(ctx, lambda: f"samples {x.tolist()} times {c}: mean", e.estimate / c, e0.estimate, np.abs(x).max())
        agree(ctx, lambda: f"samples {x.tolist()} times {c}: change", e.delta / c, e0.delta, np.abs(x).max())
        for sd in ci:
            v = np.array(confidence_interval(c * x, 0.9, sd)) / c
            agree(ctx, lambda: f"samples {x.tolist()} times {c}: {sd} interval", np.sort(v), ci[sd], np.abs(x).max())
        if 1e-50 < abs(c) < 1e50:
            for j, f in ((0, c), (1, 1.0)):
                z, m = y.copy(), np.array([0.1, -0.2])
                z[:, j] *= c
                if j:
                    m[0] *= c
                    if not 1e-5 < abs(c) < 1e5:
                        continue
                cv = ControlVariableEstimator(ecv=m)
                cv.update(z)
                agree(ctx, lambda: f"samples {x.tolist()}: column {j} times {c}: control variate estimate", cv.estimate / f, cv0.estimate, np.abs(x).max(), 1e-6)
    n = len(A)
    R = np.triu(A) + np.diag(np.where(np.diag(A) == 0, 2.0, 0.0))
    if n >= 2 and n <= 8 and cond(R) < 1e6:
        P = np.linalg.inv(R[:-1, :-1])
        U = np.asarray(update_trinv(P.copy(), R[:, -1].copy()))
        for c in UNITS:
            if 1e-50 < abs(c) < 1e50:
                V = np.asarray(update_trinv(P / c, c * R[:, -1]))
                agree(ctx, lambda: f"update_trinv of {R.tolist()} times {c}", V * c, U, np.abs(U).max())
    ctx.trace()
    ctx.state("stats", case["nm"] if "nm" in case else case["big"], n)


DO = dict(hutch=hutch, diag=diag, hutchpp=hutchpp, xtrace=xtrace, xdiag=xdiag, lanczos=lanczos, function=function, toeplitz=toeplitz, jacobi=jacobi, normalize=normalize, stats=stats)


def run(ctx, case):
    with np.errstate(all="ignore"):
        DO[case["k"]](ctx, case, matrix(case))
