"""C17: Lanczos quadratic forms."""
import itertools
import numpy as np
from mc.lib import SCALES, big_matrix, big_starts, chain, fun_mat, irr, krylov, near, struct_family, vec_family
from mc.props.c14 import large, mats, matrix, reps
from mc.props.c16 import FUNS, expected

RULE = ("all symmetric matrices over small alphabets plus structured families and larger matrices (to n=140/200, up to 40 columns) and weakly coupled chains with vectors scaled by 2^-60..2^40 x vectors x degrees x re-orthogonalisation x all monomials up "
        "to degree 2k-1 (any function at exhaustion), and all ordered blocks of 1..3 vectors (with repeats and zero columns) in every memory "
        "layout and precision: one number per column, equal to that column alone")
ASSUMPTIONS = ["vectors whose Krylov coefficients drop below 1e-3 before exhaustion are skipped (ill-conditioned)"]
EXTS = ("tqli", "fttr", "_lanczos")


def cases(tier):
    for c in mats(tier):
        if c["n"] == 3 and "w" in c and tier != "thorough" and c["w"][0] < 0:
            continue
        yield c
    yield from large(tier)
    for n in (3, 20):
        for cols in (63, 64, 65, 128, 129, 200, 257) + ((1030,) if n == 3 else ()):
            yield dict(n=n, cols=cols)


def run_wide(ctx, case, MatrixFunction):
    n, k = case["n"], case["cols"]
    A = np.diag(np.linspace(-1, 1, n)) + 0.3 * (np.eye(n, k=1) + np.eye(n, k=-1))
    i, j = np.arange(n)[:, None], np.arange(k)[None, :]
    X = np.cos(1.0 + i * (1 + j % 5) + 0.37 * j) * 2.0 ** (j % 4 - 2)
    e = np.einsum("ij,ij->j", X, fun_mat(A, np.exp) @ X)
    for order in ("C", "F"):
        for deg in (n, n + 3):
            M = MatrixFunction(A, fun=np.exp, deg=deg, orth=-1)
            y = M.quad(np.array(X, order=order))
            ctx.op(k)
            ctx.check(np.shape(y) == (k,) and near(y, e, 1e-9 * np.abs(e).max()), lambda: f"tridiagonal matrix of size {n}, block of {k} columns ({order}): forms {y}, expected {e}")
    ctx.trace()
    ctx.state("wide", n, k)


def run_big(ctx, case, MatrixFunction):
    n, name, v = case["n"], case["big"], big_starts(case["n"])[case["iv"]]
    A, w, U = big_matrix(n, name)
    s = np.abs(w).max()
    base = [v] + big_starts(n) + [U[:, 0], U[:, -1] + U[:, 1], np.zeros(n)]
    B = np.column_stack(base + [base[(3 * j) % 7] * (1 + j % 3) for j in range(40 - len(base))])  # 40 columns
    for deg in sorted({2, 5, 9, n}):
        if deg > n:
            continue
        for p in {0, 1, deg, 2 * deg - 1} if deg < n else (0, 1, 2, 3):
            M = MatrixFunction(A / s, fun=lambda x, p=p: x ** p, deg=deg, orth=deg)
            e = np.sum(((w / s)[:, None] ** p) * (U.T @ B) ** 2, axis=0)
            tol = 1e-8 * np.maximum(1, np.sum(B * B, axis=0)).max()
            for k in (1, 2, 8, 17, 40):
                y = M.quad(B[:, :k])
                ctx.op(k)
                ctx.check(np.shape(y) == (k,) and near(y, e[:k], tol), lambda: f"{name} matrix of size {n}, degree {deg}: forms of A^{p} with {k} vectors: {y} expected {e[:k]}")
            ctx.trace()
    f = lambda x: np.exp(x)
    M = MatrixFunction(A / s, fun=f, deg=n, orth=-1)
    e = np.sum(f(w / s)[:, None] * (U.T @ B) ** 2, axis=0)
    y = M.quad(B)
    ctx.check(near(y, e, 1e-8 * np.maximum(1, np.sum(B * B, axis=0)).max()), lambda: f"{name} matrix of size {n}: exp forms {y} expected {e}")
    ctx.state(n, name, case["iv"])


def run_chain(ctx, case, MatrixFunction):
    n = case["n"]
    A, d, e, v = chain(n, case["chain"], case["perm"])
    B = np.column_stack([v, A @ v + v, np.eye(n)[-1], np.ones(n)])
    for fn, f in (("exp", np.exp), ("x", lambda x: x), ("x^2+1", lambda x: x * x + 1)):
        F = fun_mat(A, f)
        for deg in sorted({2, 3, max(2, n)}):
            for orth in (0, -1):
                if deg > n or (orth == 0 and deg > 3):
                    continue
                M = MatrixFunction(A, fun=f, deg=deg, orth=orth)
                T = np.diag(d[:deg]) + np.diag(e[: deg - 1], 1) + np.diag(e[: deg - 1], -1)
                ex = fun_mat(T, f)[0, 0]
                ctx.op()
                y = float(np.ravel(M.quad(v))[0])
                ctx.check(abs(y - ex) <= 1e-12 * max(1, abs(ex)), lambda: f"chain {case}, {fn}, deg={deg} orth={orth}: {y}, Gauss rule of the matrix entries {ex}")
                r = M.quad(B)
                for sc in SCALES:
                    y = M.quad(sc * B)
                    ctx.op(B.shape[1])
                    ctx.check(near(y / sc ** 2, r, 1e-10 * max(1.0, np.abs(r).max())), lambda: f"chain {case}, {fn}, deg={deg} orth={orth}: vectors scaled by {sc} give {y / sc ** 2} times the squared scale, unscaled {r}")
        ctx.trace()
    ctx.state(n, case["chain"], case["perm"])


def run(ctx, case):
    from primate.operators import MatrixFunction
    n = case["n"]
    if "big" in case:
        return run_big(ctx, case, MatrixFunction)
    if "chain" in case:
        return run_chain(ctx, case, MatrixFunction)
    if "cols" in case:
        return run_wide(ctx, case, MatrixFunction)
    A = matrix(case)
    kA = A.copy()
    nrm = max(1.0, np.linalg.norm(A, 2))
    vs = [irr(n)] + vec_family(n) + [np.zeros(n)]
    w = np.linalg.eigvalsh(A)
    info = [(v,) + krylov(A, v)[:2] for v in vs]
    for deg in range(2, n + 2):
        d = min(deg, n)
        for p in range(0, 2 * d):
            for orth in (0, d):
                M = MatrixFunction(A, fun=(lambda x, p=p: x ** p), deg=deg, orth=orth)
                for v, kd, gap in info:
                    if gap < 1e-3 or (orth == 0 and n > 6):
                        continue
                    y = M.quad(v)
                    ctx.op()
                    e = v @ np.linalg.matrix_power(A, p) @ v
                    tol = (1e-8 if orth else 1e-6) * nrm ** p * max(1.0, v @ v)
                    ctx.check(np.size(y) == 1 and abs(float(np.ravel(y)[0]) - e) <= tol, lambda: f"A={A.tolist()} v={v.tolist()} deg={deg} orth={orth}: v'A^{p}v computed as {y}, is {e}")
            ctx.trace(2)
            ctx.state(tuple(A.ravel()), deg, p)
        for name, f in FUNS.items():
            if (name == "exp" and nrm >= 50) or (name == "sign" and np.min(np.abs(w - 0.3)) < 1e-6):
                continue
            M = MatrixFunction(A, fun=f, deg=deg, orth=-1)
            for v, kd, gap in info:
                if kd > d or gap < 1e-3:
                    continue
                y = M.quad(v)
                ctx.op()
                e = v @ expected(A, f, v)
                tol = 1e-7 * max(1.0, np.max(np.abs(f(w)))) * max(1.0, v @ v)
                ctx.check(np.size(y) == 1 and abs(float(np.ravel(y)[0]) - e) <= tol, lambda: f"A={A.tolist()} v={v.tolist()} deg={deg}: v'{name}(A)v computed as {y}, is {e}")
    f = FUNS["exp"] if nrm < 50 else FUNS["atan"]
    cols = [i for i, (v, kd, gap) in enumerate(info) if gap >= 1e-3]
    cols = cols[-5:] if ctx.tier == "thorough" and n < 4 else cols[-4:]
    # the column behaviour is that of the blocks, hardly of the matrix: every fourth (n = 4: sixteenth) matrix meets all blocks
    code = sum(x * 3 ** i for i, x in enumerate(case["w"])) if "w" in case else 0
    light = code % (16 if n == 4 else 4) != 0
    if n == 4 and code % 4:
        return ctx.check(np.array_equal(A, kA), "operator modified")
    for deg in sorted({2, max(2, min(n, 3))}):
        for orth in (0, deg):
            M = MatrixFunction(A, fun=f, deg=deg, orth=orth)
            single = {i: float(np.ravel(MatrixFunction(A, fun=f, deg=deg, orth=orth).quad(vs[i]))[0]) for i in cols}
            sc = max(1.0, max(abs(x) for x in single.values()))
            for k in (1, 2) if light else (1, 2, 3):
                for blk in itertools.product(cols, repeat=k):
                    V = np.array([vs[i] for i in blk]).T
                    e = np.array([single[i] for i in blk])
                    for order in ("F", "C") if k < 3 else ("C",):
                        X = np.array(V, order=order)
                        y = M.quad(X)
                        ctx.op()
                        ctx.check(np.shape(y) == (k,) and near(y, e, 1e-9 * sc), lambda: f"A={A.tolist()} block {V.tolist()} ({order}) deg={deg} orth={orth}: {y}, column by column {e}")
                        ctx.check(np.array_equal(X, V), lambda: f"A={A.tolist()}: the block {V.tolist()} was modified to {X.tolist()}")
                    if k == 2:
                        big = np.full((2 * n, 2 * k), 9.0)
                        big[::2, ::2] = V
                        y = M.quad(big[::2, ::2])
                        ctx.check(near(y, e, 1e-9 * sc), lambda: f"A={A.tolist()} strided block {V.tolist()}: {y}, column by column {e}")
                        y = M.quad(V.astype(np.float32))
                        ctx.check(near(y, e, 1e-9 * sc) or not np.array_equal(V, V.astype(np.float32)), lambda: f"A={A.tolist()} single precision block: {y}, expected {e}")
                    if k == 1:
                        y = M.quad(vs[blk[0]].copy())
                        ctx.check(np.size(y) == 1 and near(np.ravel(y), e, 1e-9 * sc), lambda: f"A={A.tolist()}: 1-D vector gives {y}, column {e}")
                ctx.trace(len(cols) ** k)
            for v in (irr(n), np.ones(n)):  # columns that hardly differ
                if krylov(A, v)[1] < 1e-3 and not np.all(v == v[0]):
                    continue
                for rel in (0.07, 1e-3, 1e-5, 1e-8) if not light else (0.07, 1e-5):
                    V = np.column_stack([v] + [v * (1 + rel * np.eye(n)[i]) for i in range(min(n, 3))] + [v * (1 - rel), -v])
                    y = M.quad(V)
                    e = np.array([float(np.ravel(MatrixFunction(A, fun=f, deg=deg, orth=orth).quad(V[:, j].copy()))[0]) for j in range(V.shape[1])])
                    ctx.op(V.shape[1])
                    ctx.check(near(y, e, 1e-12 * max(1.0, np.abs(e).max())), lambda: f"A={A.tolist()} deg={deg} orth={orth}: block of nearly equal columns {V.tolist()}: {y}, column by column {e}")
            if not light and orth == deg:
                V = np.array([vs[i] for i in cols]).T
                e = np.array([single[i] for i in cols])
                for nm, R in reps(A, np.float64):
                    y = MatrixFunction(R, fun=f, deg=deg, orth=deg).quad(V)
                    ctx.op()
                    ctx.check(near(y, e, 1e-8 * sc), lambda: f"A={A.tolist()} as {nm}: {y} expected {e}")
                if np.max(np.abs(A)) < 20:
                    for nm, R in reps(A, np.float32):
                        y = MatrixFunction(R, fun=f, deg=deg, orth=deg, dtype=np.float32).quad(V)
                        ctx.check(near(y, e, 5e-3 * sc), lambda: f"A={A.tolist()} as {nm} in single precision: {y} expected {e}")
    ctx.check(np.array_equal(A, kA), "operator modified")
