"""C16: matrix-function operator."""
import numpy as np
from mc.core import close, raises
from mc.lib import SCALES, big_matrix, big_starts, chain, irr, near, fun_mat, krylov, struct_family, vec_family
from mc.props.c14 import large, mats, matrix, reps

RULE = ("all symmetric matrices over small alphabets plus structured families and larger matrices (to n=140/200) and weakly coupled chains with vectors scaled by 2^-60..2^40 x vectors (unit, mixed, eigenvectors, zero) x degrees x "
        "functions (all monomials below the degree; smooth, non-smooth and singular functions once the Krylov space is exhausted) x call "
        "forms (matvec, @, column, block, adjoint, one-call) x representations, compared with the dense spectral definition")
ASSUMPTIONS = ["full re-orthogonalisation", "vectors whose Krylov coefficients drop below 1e-3 before exhaustion are skipped (ill-conditioned)",
               "functions undefined at zero: only where the vector has no component in the kernel"]
EXTS = ("tqli", "fttr", "_lanczos")


def cases(tier):
    for c in mats(tier):
        if c["n"] == 3 and "w" in c and tier != "thorough" and c["w"][0] < 0:
            continue
        yield c
    yield from large(tier)
    yield dict(n=0, rej=1)


def run_big(ctx, case, MatrixFunction):
    n, name, v = case["n"], case["big"], big_starts(case["n"])[case["iv"]]
    A, w, U = big_matrix(n, name)
    B = np.column_stack([v] + big_starts(n) + [U[:, 0], U[:, -1] + U[:, 1]])
    s = np.abs(w).max()
    for fn, f in (("exp", lambda x: np.exp(x / s)), ("sqrt|x|", lambda x: np.sqrt(np.abs(x) / s)), ("sign", lambda x: np.where(x > 0.3 * s, 1.0, -2.0)), ("x^2", lambda x: (x / s) ** 2)):
        if fn == "sign" and np.min(np.abs(w / s - 0.3)) < 1e-6:
            continue
        M = MatrixFunction(A, fun=f, deg=n, orth=-1)
        E = U @ (f(w)[:, None] * (U.T @ B))
        tol = 1e-6 * np.abs(B).max() * np.sqrt(n) * (300 if fn == "sqrt|x|" else 1)
        Y = M @ B
        ctx.op(B.shape[1])
        ctx.check(near(Y, E, tol), lambda: f"{name} matrix of size {n}, {fn}: block product off by {np.abs(Y - E).max()}")
        ctx.check(near(M @ v, E[:, 0], tol), lambda: f"{name} matrix of size {n}, {fn}: product off by {np.abs(M @ v - E[:, 0]).max()}")
        if fn in ("exp", "x^2"):  # smooth functions are not hurt by rounding
            ctx.check(near(Y, E, 1e-9 * np.abs(B).max() * np.sqrt(n)), lambda: f"{name} matrix of size {n}, {fn}: block product off by {np.abs(Y - E).max()}")
        ctx.trace()
    for deg in (2, 5, 9, 20):  # polynomials below the degree are reproduced at any size
        if deg > n:
            continue
        for p in {0, 1, deg // 2, deg - 1}:
            for orth in (deg, -1):
                M = MatrixFunction(A / s, fun=lambda x, p=p: x ** p, deg=deg, orth=orth)
                Y = M @ B
                E = U @ ((w / s)[:, None] ** p * (U.T @ B))
                ctx.op(B.shape[1])
                ctx.check(near(Y, E, 1e-8 * np.abs(B).max() * np.sqrt(n)), lambda: f"{name} matrix of size {n}: A^{p} at degree {deg} off by {np.abs(Y - E).max()}")
        ctx.trace()
    ctx.state(n, name, case["iv"])


def run_chain(ctx, case, MatrixFunction):
    n = case["n"]
    A, d, e, v = chain(n, case["chain"], case["perm"])
    B = np.column_stack([v, A @ v + v, np.eye(n)[-1], np.ones(n)])
    for fn, f in (("exp", np.exp), ("x", lambda x: x), ("x^2+1", lambda x: x * x + 1)):
        E = fun_mat(A, f) @ B
        for deg in sorted({max(2, n), n + 1}):
            M = MatrixFunction(A, fun=f, deg=deg, orth=-1)
            tol = 1e-9 * max(1.0, np.abs(E).max())
            if case["chain"].startswith("weak6"):
                tol *= 100
            Y = M @ B[:, :1]
            ctx.op()
            ctx.check(near(Y, E[:, :1], tol), lambda: f"chain {case}, {fn}, deg={deg}: {Y} expected {E[:, 0]}")
            r = MatrixFunction(A, fun=f, deg=deg, orth=-1) @ B
            for sc in SCALES:
                y = M @ (sc * B)
                ctx.op(B.shape[1])
                ctx.check(near(y / sc, r, 1e-10 * max(1.0, np.abs(E).max())), lambda: f"chain {case}, {fn}, deg={deg}: vectors scaled by {sc} give {y / sc} times the scale, unscaled {r}")
                y = M.matvec(sc * v)
                ctx.check(near(y / sc, E[:, 0], tol), lambda: f"chain {case}, {fn}, deg={deg}: vector scaled by {sc} gives {y / sc} times the scale, expected {E[:, 0]}")
        ctx.trace()
    ctx.state(n, case["chain"], case["perm"])


FUNS = {"exp": np.exp, "cube-1": lambda x: x ** 3 - 1, "atan": np.arctan, "sign": lambda x: np.where(x > 0.3, 1.0, -2.0), "const": lambda x: 3.0 + 0 * x}


def expected(A, f, v):
    """f(A)v with eigen-components of v that vanish left out (f may be undefined there)."""
    w, U = np.linalg.eigh(A)
    c = U.T @ v
    keep = np.abs(c) > 1e-10
    return U[:, keep] @ (f(w[keep]) * c[keep])


def run(ctx, case):
    from primate.operators import MatrixFunction, matrix_function
    if "rej" in case:
        ctx.op()
        A = np.diag([1.0, 2.0, 3.0])
        ctx.check(raises(MatrixFunction, A, deg=1) and raises(MatrixFunction, A, deg=0), "degree below two accepted")
        ctx.check(raises(MatrixFunction, np.ones((2, 3))) and raises(MatrixFunction, np.ones(3)), "non-square operator accepted")
        ctx.check(raises(MatrixFunction, A, fun="bogus"), "unknown function name accepted")
        ctx.check(raises(MatrixFunction, A, fun=lambda x: 1.0) and raises(MatrixFunction, A, fun=3), "function that does not return arrays accepted")
        M = MatrixFunction(A)
        ctx.check(raises(M.matvec, np.ones(4)) and raises(lambda: M @ np.ones(2)), "vector of wrong length accepted")
        for k in (2, 4, 6):
            ctx.check(raises(matrix_function, A, np.exp, np.ones(k)) and raises(M.quad, np.ones(k)) and raises(M.quad, np.ones((k, 2))), f"vector of length {k} accepted by an operator of size 3")
        ctx.check(raises(M.quad, np.ones((3, 1, 1))), "three-dimensional block accepted")
        return
    n = case["n"]
    if "big" in case:
        return run_big(ctx, case, MatrixFunction)
    if "chain" in case:
        return run_chain(ctx, case, MatrixFunction)
    A = matrix(case)
    nrm = max(1.0, np.linalg.norm(A, 2))
    vs = [irr(n)] + vec_family(n) + [np.zeros(n)]
    w, U = np.linalg.eigh(A)
    info = [(v,) + krylov(A, v)[:2] for v in vs]
    for deg in range(2, n + 2):
        d = min(deg, n)
        ops = {}
        for p in range(0, d):
            M = MatrixFunction(A, fun=(lambda x, p=p: x ** p), deg=deg, orth=deg)
            for v, kd, gap in info:
                if gap < 1e-3:
                    continue
                y = M @ v
                ctx.op()
                e = np.linalg.matrix_power(A, p) @ v
                tol = 1e-8 * nrm ** p * max(1.0, np.linalg.norm(v))
                ctx.check(np.shape(y) == (n,) and near(y, e, tol), lambda: f"A={A.tolist()} v={v.tolist()} deg={deg}: A^{p} v computed as {y}, is {e}")
        fs = {k: f for k, f in FUNS.items() if nrm < 50 or k != "exp"}
        for name, f in fs.items():
            M = MatrixFunction(A, fun=f, deg=deg, orth=-1)
            for v, kd, gap in info:
                if kd > d or gap < 1e-3:
                    continue
                if name == "sign" and np.min(np.abs(w - 0.3)) < 1e-6:
                    continue
                y = M.matvec(v)
                ctx.op()
                e = expected(A, f, v)
                tol = 1e-7 * max(1.0, np.max(np.abs(f(w)))) * max(1.0, np.linalg.norm(v))
                ctx.check(near(y, e, tol), lambda: f"A={A.tolist()} v={v.tolist()} deg={deg}: {name}(A)v computed as {y}, is {e}")
            ctx.state(tuple(A.ravel()), deg, name)
        for name, f in (("inv", np.reciprocal), ("log", np.log), ("isqrt", lambda x: x ** -0.5)):
            M = MatrixFunction(A, fun=f, deg=deg, orth=-1)
            for v, kd, gap in info:
                if kd > d or gap < 1e-3:
                    continue
                c = np.abs(U.T @ v)
                used = w[c > 1e-10]
                if used.size == 0:
                    used = np.array([1.0])
                if np.min(np.abs(used)) < 1e-3 or (name != "inv" and np.min(used) < 1e-3):
                    continue
                y = M @ v
                ctx.op()
                e = expected(A, f, v)
                ctx.check(near(y, e, 1e-6 * max(1.0, np.max(np.abs(e)))), lambda: f"A={A.tolist()} v={v.tolist()} deg={deg}: {name}(A)v computed as {y}, is {e}")
        # call forms
        f = FUNS["exp"] if nrm < 50 else FUNS["atan"]
        M = MatrixFunction(A, fun=f, deg=deg, orth=deg)
        ok = [v for v, kd, gap in info if gap >= 1e-3][-4:]
        V = np.array(ok).T
        ref = np.array([MatrixFunction(A, fun=f, deg=deg, orth=deg) @ v for v in ok]).T
        fm = max(1.0, np.max(np.abs(ref)))
        kV = V.copy()
        kA = A.copy()
        forms = {"block @": lambda: M @ V, "matmat": lambda: M.matmat(V), "F block": lambda: M @ np.asfortranarray(V), "adjoint block": lambda: M.H @ V,
                 "transpose": lambda: np.array([M.T @ V[:, j] for j in range(V.shape[1])]).T if deg == n else M @ V,
                 "columns": lambda: np.hstack([M @ V[:, [j]] for j in range(V.shape[1])]), "matvec columns": lambda: np.array([M.matvec(V[:, j]) for j in range(V.shape[1])]).T,
                 "rmatvec": lambda: np.array([M.rmatvec(V[:, j]) for j in range(V.shape[1])]).T, "dot": lambda: np.array([M.dot(V[:, j]) for j in range(V.shape[1])]).T}
        for nm, g in forms.items():
            y = g()
            ctx.op()
            ctx.check(np.shape(y) == V.shape and near(y, ref, 1e-8 * fm), lambda: f"A={A.tolist()} V={V.tolist()} deg={deg}: {nm} gives {y}, single products {ref}")
        ctx.check(np.array_equal(V, kV) and np.array_equal(A, kA), lambda: f"A={A.tolist()}: inputs modified")
        ctx.trace(len(forms))
        if n >= 2 and (("name" in case) or sum(case["w"]) % 4 == 0):
            # default re-orthogonalisation of the one-call form is 3 vectors: exact for degrees up to 3
            if d <= 3:
                v = ok[0]
                y1, y2 = matrix_function(A, fun=f, v=v, deg=deg), matrix_function(A, fun=f, deg=deg) @ v
                ctx.check(near(np.ravel(y1), ref[:, 0], 1e-7 * fm) and near(np.ravel(y2), ref[:, 0], 1e-7 * fm), lambda: f"A={A.tolist()} v={v.tolist()}: one-call form gives {y1}/{y2}, operator {ref[:, 0]}")
            # several functions at once: one column each
            gs = [f, lambda x: x, lambda x: 1.0 + 0 * x, np.square]
            for r in (1, 2, 3, 4):
                for fs_ in (gs[:r], gs[::-1][:r]):
                    y = matrix_function(A, fun=lambda x: np.vstack([g(x) for g in fs_]), v=ok[0], deg=min(d, 3))
                    e = np.column_stack([np.ravel(matrix_function(A, fun=g, v=ok[0], deg=min(d, 3))) for g in fs_])
                    ctx.op()
                    ctx.check(np.shape(y) == ((n, r) if r > 1 else (n,)) and near(np.reshape(y, (n, r)), e, 1e-9 * max(1.0, np.abs(e).max())), lambda: f"A={A.tolist()} v={ok[0].tolist()}: {r} functions at once give {y}, one at a time {e}")
            for nm, R in reps(A, np.float64):
                y = MatrixFunction(R, fun=f, deg=deg, orth=deg) @ V
                ctx.op()
                ctx.check(near(y, ref, 1e-8 * fm), lambda: f"A={A.tolist()} as {nm} deg={deg}: {y} expected {ref}")
            for nm, R in reps(A, np.float32):
                M32 = MatrixFunction(R, fun=f, deg=deg, orth=deg, dtype=np.float32)
                y = M32 @ V[:, 0].astype(np.float32)
                ctx.check(M32.dtype == np.float32, lambda: f"single precision operator reports {M32.dtype}")
                ctx.check(near(y, ref[:, 0], 2e-3 * fm), lambda: f"A={A.tolist()} as {nm} in single precision: {y} expected {ref[:, 0]}")
            for name, g, kw in (("identity", lambda x: x, {}), ("abs", np.abs, {}), ("exp", lambda x: np.exp(0.5 * x), dict(t=0.5)), ("numrank", lambda x: np.where(np.abs(x) < 0.5, 0.0, 1.0), dict(threshold=0.5)),
                                ("smoothstep", lambda x: (lambda t: 3 * t ** 2 - 2 * t ** 3)(np.clip((x - 0.1) / 0.8, 0, 1)), dict(a=0.1, b=0.9))):
                y1 = MatrixFunction(A / nrm, fun=name, deg=deg, orth=deg, **kw) @ V
                y2 = MatrixFunction(A / nrm, fun=g, deg=deg, orth=deg) @ V
                ctx.op(2)
                ctx.check(near(y1, y2, 1e-9 * max(1, np.max(np.abs(V)))), lambda: f"A={A.tolist()}: named function {name} gives {y1}, the callable {y2}")
            M0 = MatrixFunction(A, deg=deg, orth=deg)
            ctx.check(near(M0 @ V, A @ V, 1e-8 * nrm * 10), "the default function is not the identity")
            ctx.check(M.shape == A.shape and M.degree == d, lambda: f"shape {M.shape}, degree {M.degree}")
