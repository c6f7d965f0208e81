"""C32: the C++ header library (operators, orthogonalisation, parameter rules, recurrence)."""
import itertools
import os
import pathlib
import numpy as np
from mc.lib import chain, krylov_dim_exact, lanczos_ref, sym_words

RULE = ("all matrices of small shapes over an integer alphabet (plus families up to 200 x 90) x {dense, sparse, Gram, affine} x {matvec, rmatvec, matmat of every width} x all call "
        "sequences x precisions, every buffer surrounded by guard zones; all sets of columns x start index x count x direction for orth_vector (also zero, tiny and NaN columns); "
        "the complete integer box for the parameter rules and the modulus; the recurrence template on every operator kind x starts x degrees x "
        "re-orthogonalisation x number of stored vectors x dirty buffers; oracle: matrix products, rational Gram-Schmidt, extended-precision Lanczos")
ASSUMPTIONS = ["compiled with the system's Eigen and g++ -std=c++20 -O1", "agreement 1e-9 (double) and 2e-4 (single) relative"]
EXTS = ("tqli", "fttr", "_lanczos", "_headers")
TOL = {"8": 1e-9, "4": 2e-4}
TS = [0.0, 1.0, -2.0, 0.3]


def words(r, c, al, step=1):
    for i, w in enumerate(itertools.product(al, repeat=r * c)):
        if i % step == 0:
            yield np.array(w, dtype=float).reshape(r, c)


def family(r, c, k):
    i, j = np.arange(r)[:, None], np.arange(c)[None, :]
    M = ((i * 7 + j * 3 + i * j * (k + 1)) % 5) - 1.75 + (i == j) * 2.5
    return np.where((i * 5 + j * 11 + k) % 4 == 0, 0.0, M)


def cases(tier):
    th = tier == "thorough"
    for sfx in "84":
        for r, c, al, ch in ((1, 1, (-1, 0, 2), 9), (1, 2, (-1, 0, 2), 9), (2, 1, (-1, 0, 2), 9), (2, 2, (-1, 0, 2), 9), (1, 3, (-1, 0, 2), 9), (3, 1, (-1, 0, 2), 9),
                             (2, 3, (-1, 0, 2), 27 if th else 81), (3, 2, (-1, 0, 2), 27 if th else 81), (3, 3, (-2, 0, 1), 243 if th else 3 ** 7)):
            step = 1 if th or r * c < 6 else 3 if r * c == 6 else 31
            for part in range(max(1, 3 ** (r * c) // (ch * 27))):
                yield dict(t="ops", s=sfx, r=r, c=c, al=al, step=step, part=part, of=max(1, 3 ** (r * c) // (ch * 27)))
        for r, c in ((5, 4), (4, 5), (8, 8), (17, 3), (3, 17), (33, 33), (65, 40), (40, 65), (200, 90)):
            for k in range(3):
                yield dict(t="fam", s=sfx, r=r, c=c, k=k)
        for n in (1, 2, 3):
            for m in (1, 2, 3):
                for part in range(max(1, 3 ** (n * m) // 81) if n * m < 7 else 8):
                    yield dict(t="orth", s=sfx, n=n, m=m, part=part, of=max(1, 3 ** (n * m) // 81) if n * m < 7 else 8, th=th)
        for n in (6, 20, 80):
            yield dict(t="orthbig", s=sfx, n=n)
        for n in (1, 2, 3):
            for al in ((-1, 0, 2), (1, 0, -3)):
                for part in range(1 if n < 3 else 9):
                    yield dict(t="rec", s=sfx, n=n, al=al, part=part, of=1 if n < 3 else 9)
        for n in (4, 7, 16, 40):
            for name in ("zerodiag", "tinydiag"):
                yield dict(t="recbig", s=sfx, n=n, name=name)
    yield dict(t="param")
    yield dict(t="misc")


def mods(s):
    from primate import _headers as H
    dt = np.float64 if s == "8" else np.float32
    return H, dt, TOL[s]


def ok(ctx, got, exp, tol, what):
    out, clean = got
    exp = np.ravel(np.asarray(exp, dtype=float), order="F")
    ctx.op()
    ctx.check(clean, lambda: f"{what}: memory outside of the output was written or the input changed")
    sc = max(1.0, np.abs(exp).max()) if len(exp) else 1.0
    ctx.check(len(out) == len(exp) and (len(exp) == 0 or np.all(np.abs(np.array(out) - exp) <= tol * sc)), lambda: f"{what}: {out} instead of {exp.tolist()}")


def vecs(n):
    v = [np.ones(n), np.array([(i % 3) - 1.0 + 0.5 * i for i in range(n)])]
    return v + ([np.eye(n)[i] for i in range(n)] if n <= 3 else [np.eye(n)[n // 2]])


def make(H, s, kind, A, B=None):
    import scipy.sparse as sp
    dt = np.float64 if s == "8" else np.float32
    if kind == "Dense":
        return getattr(H, "Dense" + s)(np.asfortranarray(A.astype(dt)))
    if kind == "Affine":
        return getattr(H, "Affine" + s)(sp.csc_matrix(A.astype(dt)), sp.csc_matrix(B.astype(dt)))
    return getattr(H, kind + s)(sp.csc_matrix(A.astype(dt)))


def kinds(H, s, A):
    """(name, operator, matrix it stands for)"""
    yield "Dense", make(H, s, "Dense", A), A
    yield "Sparse", make(H, s, "Sparse", A), A
    yield "Gram", make(H, s, "Gram", A), A.T @ A


def calls(ctx, H, s, A, tol, seqs):
    for name, op, M in kinds(H, s, A):
        r, c = M.shape
        what = f"{name}{s} {A.tolist() if A.size < 20 else A.shape}"
        ctx.check(tuple(op.shape()) == (r, c), lambda: f"{what}: shape {op.shape()} instead of {(r, c)}")
        X, Y = vecs(c), vecs(r)
        for x in X:
            ok(ctx, op.matvec(x, r), M @ x, tol, what + f" matvec {x.tolist() if c < 9 else ''}")
        for y in Y:
            ok(ctx, op.rmatvec(y, c), M.T @ y, tol, what + " rmatvec")
        for k in (0, 1, 2, 3):
            B = np.column_stack((X * 2)[:k]) if k else np.zeros((c, 0))
            ok(ctx, op.matmat(np.ravel(B, order="F"), r * k, k), M @ B, tol, what + f" matmat of {k} columns")
        if seqs:
            B = np.column_stack([X[1], X[0]])
            for q in itertools.product(range(3), repeat=3):
                for t, i in enumerate(q):
                    if i == 0:
                        ok(ctx, op.matvec(X[t % 2], r), M @ X[t % 2], tol, what + f" sequence {q}")
                    elif i == 1:
                        ok(ctx, op.rmatvec(Y[t % 2], c), M.T @ Y[t % 2], tol, what + f" sequence {q}")
                    else:
                        ok(ctx, op.matmat(np.ravel(B, order="F"), r * 2, 2), M @ B, tol, what + f" sequence {q}")
        ctx.state(name, s, A.shape, A.tobytes())
    for B in (np.eye(*A.shape), np.flipud(A) * 0.5 + (A == 0), np.zeros(A.shape)):
        op = make(H, s, "Affine", A, B)
        what = f"Affine{s} {A.tolist() if A.size < 20 else A.shape} + t B"
        ctx.check(tuple(op.shape()) == A.shape, lambda: f"{what}: shape {op.shape()}")
        ok(ctx, op.matvec(vecs(A.shape[1])[1], A.shape[0]), A @ vecs(A.shape[1])[1], tol, what + " t unset")
        for q in itertools.product(TS, repeat=2):
            for t in q:
                op.set(t)
                for x in vecs(A.shape[1])[:2]:
                    ok(ctx, op.matvec(x, A.shape[0]), (A + t * B) @ x, tol, what + f" t={t} after {q}")
                    ok(ctx, op.matvec(x, A.shape[0]), (A + t * B) @ x, tol, what + f" t={t} again")
        ctx.state("affine", s, A.shape, A.tobytes(), B.tobytes())
    ctx.trace()


def mgs(v, U, start, p, rev, eps):
    v = np.array(v, dtype=np.longdouble)
    m = U.shape[1]
    for c in range(p):
        u = U[:, (start + (-c if rev else c)) % m].astype(np.longdouble)
        nn = u @ u
        if nn > 2 * eps * np.sqrt(len(v)) and abs(v @ u) > 2 * eps * np.sqrt(len(v)):
            v = v - (v @ u) / nn * u
    return v


def orth(ctx, case):
    H, dt, tol = mods(case["s"])
    f = getattr(H, "orth" + case["s"])
    eps = float(np.finfo(dt).eps)
    n = case["n"]
    if case["t"] == "orth":
        m = case["m"]
        al = (-1.0, 0.0, 1.0) if n * m <= 6 else (0.0, 1.0)
        mats = list(words(n, m, al, 1))
        mats += [np.where(np.arange(m) == j, 2.0 ** (-60 if case["s"] == "8" else -30), 1.0) * M for M in words(n, m, (0.0, 1.0)) for j in range(m)]
        mats += [np.where(np.arange(m)[None, :] == j, np.nan, M) for M in words(n, m, (0.0, 1.0)) for j in range(m)]
        starts, counts = range(-m, 2 * m + 1 if case["th"] else m), range(0, 2 * m + 2) if case["th"] else sorted({0, 1, m, 2 * m + 1})
        V = vecs(n)[:3] + [np.zeros(n)]
    else:
        m = 5
        Q = np.linalg.qr(family(n, m, 1))[0]
        mats = [Q, family(n, m, 0), np.where(np.arange(m) == 2, 0.0, Q), np.where(np.arange(m) == 3, np.nan, Q)]
        starts, counts = range(-2, m + 1), range(0, m + 3)
        V = vecs(n)
    for i, M in enumerate(mats):
        if i % case.get("of", 1) != case.get("part", 0):
            continue
        M = M.astype(dt).astype(float)
        for v in V:
            for st, p, rev in itertools.product(starts, counts, (False, True)):
                out, clean = f(v, np.asfortranarray(M.astype(dt)), st, p, rev)
                exp = mgs(v, M, st, p, rev, eps).astype(float)
                ctx.op()
                ctx.check(clean and np.all(np.abs(np.array(out) - exp) <= 10 * tol * max(1.0, np.abs(v).max())),
                          lambda: f"orth_vector{case['s']} v={v.tolist()} U={M.tolist() if M.size < 20 else M.shape} start={st} count={p} reverse={rev}: {out} instead of {exp.tolist()}")
        ctx.state(case["s"], M.tobytes())
    ctx.trace()


def recurrence(ctx, H, s, op, M, v, tol, what, ex=None):
    """The recurrence template on an operator that stands for the symmetric matrix M."""
    n = M.shape[0]
    kd = krylov_dim_exact(M, v) if ex is None else ex
    for deg in range(1, n + 1) if n <= 7 else (1, 2, n // 2):
        k = min(deg, kd)
        a, b, Q = lanczos_ref(M, v, k)
        for ncv in sorted({H.param_ncv(x, deg, n, n) for x in (2, 3, deg)}):
            for o in sorted({H.param_orth(x, deg, ncv, n, n) for x in (0, 1, -1)}):
                for fill in (0.0, np.nan, 7.0):
                    got, al, be, V, clean = op.recur(v, deg, 1e-8 if s == "8" else 1e-4, o, ncv, n, fill)
                    ctx.op()
                    w = f"{what} v={v.tolist() if n < 9 else ''} deg={deg} ncv={ncv} orth={o} dirty={fill}"
                    ctx.check(clean, lambda: f"{w}: wrote outside of its buffers")
                    ctx.check(got == k, lambda: f"{w}: {got} steps, the Krylov dimension is {kd}")
                    sc = max(1.0, np.abs(M).max()) * n
                    ctx.check(np.all(np.abs(np.array(al[:k]) - a) <= 100 * tol * sc) and np.all(np.abs(np.array(be[1:k]) - b[: k - 1]) <= 100 * tol * sc) and be[0] == 0,
                              lambda: f"{w}: coefficients {al[:k]} {be[:k]} instead of {a} {b}")
                    if ncv >= deg:
                        W = np.array(V).reshape(ncv, n).T[:, :k]
                        ctx.check(np.all(np.abs(W - Q.astype(float)) <= 1000 * tol * sc), lambda: f"{w}: basis {W.tolist()} instead of {Q.tolist()}")
        ctx.state(s, what, v.tobytes(), deg)


def run(ctx, case):
    if case["t"] == "param":
        return params(ctx)
    if case["t"] == "misc":
        return misc(ctx)
    if case["t"] in ("orth", "orthbig"):
        return orth(ctx, case)
    s = case["s"]
    H, dt, tol = mods(s)
    if case["t"] == "ops":
        for i, A in enumerate(words(case["r"], case["c"], case["al"], case["step"])):
            if i % case["of"] == case["part"]:
                calls(ctx, H, s, A, tol, i % 9 == 0)
    elif case["t"] == "fam":
        calls(ctx, H, s, family(case["r"], case["c"], case["k"]), tol * 10, case["r"] < 40)
    elif case["t"] == "rec":
        n = case["n"]
        for i, w in enumerate(sym_words(n, case["al"])):
            if i % case["of"] != case["part"]:
                continue
            A = np.zeros((n, n))
            A[np.triu_indices(n)] = w
            A = np.triu(A) + np.triu(A, 1).T
            for v in vecs(n):
                for name, op, M in kinds(H, s, A):
                    recurrence(ctx, H, s, op, M, v, tol, f"{name}{s} {A.tolist()}")
                op = make(H, s, "Affine", A, np.eye(n))
                op.set(-0.5)
                recurrence(ctx, H, s, op, A - 0.5 * np.eye(n), v, tol, f"Affine{s} {A.tolist()} - I/2")
            ctx.trace()
        for r in (1, 2, 3):
            if r != n:
                for A in list(words(r, n, (-1, 0, 2), 1 if r * n < 6 else 7))[case["part"] :: case["of"]]:
                    for v in vecs(n)[1:]:
                        recurrence(ctx, H, s, make(H, s, "Gram", A), A.T @ A, v, tol, f"Gram{s} {A.tolist()}")
                    ctx.trace()
    else:
        A, d, e, v = chain(case["n"], case["name"], False)[:4]
        for name in ("Dense", "Sparse"):
            recurrence(ctx, H, s, make(H, s, name, A), A, v, tol, f"{name}{s} chain {case['name']} {case['n']}", ex=case["n"])
        ctx.trace()


def params(ctx):
    from primate import _headers as H
    for n in range(1, 13):
        for d in range(-5, 41):
            x = H.param_deg(d, n, n)
            ctx.op()
            ctx.check(x == max(1, min(d, n)), lambda: f"degree {d} for dimension {n} becomes {x}")
        for d in range(1, n + 1):
            for c in range(-5, 21):
                y = H.param_ncv(c, d, n, n)
                ctx.op()
                ctx.check(y == min(max(c, 2), d), lambda: f"{c} stored vectors for degree {d} become {y}")
            for c in range(min(2, d), d + 1):
                for o in range(-5, 21):
                    z = H.param_orth(o, d, c, n, n)
                    ctx.op()
                    ctx.check(z == (c - 1 if o < 0 or o > d else min(o, c - 1)), lambda: f"orth={o} for degree {d} with {c} stored vectors becomes {z}")
        ctx.state("param", n)
    for a in range(-60, 61):
        for b in range(1, 21):
            ctx.op()
            ctx.check(H.mod(a, b) == a % b, lambda: f"mod({a}, {b}) = {H.mod(a, b)}")
    ctx.trace()


def misc(ctx):
    import primate
    from primate import _headers as H
    d = pathlib.Path(primate.get_include())
    ctx.check(d.is_dir() and os.path.samefile(d.parent, os.path.dirname(primate.__file__)) and (d / "lanczos.h").is_file() and (d / "eigen_operators.h").is_file() and (d / "linear_operator.h").is_file(),
              lambda: f"get_include() is {d}")
    for s in "84":
        for k, v in getattr(H, "concepts" + s).items():
            ctx.op()
            ctx.check(v, lambda: f"the {k} operators do not satisfy their concept (float{s})")
    ctx.trace()
    ctx.state("misc")
