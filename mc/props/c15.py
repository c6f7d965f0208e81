"""C15: Rayleigh-Ritz values."""
import numpy as np
from mc.core import close
from mc.lib import SCALES, big_matrix, chain, big_starts, irr, near, krylov, krylov_dim_exact, lanczos_ref, struct_family, vec_family
from mc.props.c14 import large, mats, matrix, reps

RULE = ("all symmetric matrices over small alphabets plus structured families and larger matrices (to n=140/200; weakly coupled chains to n=40) x start vectors (incl. invariant ones) x degrees x "
        "re-orthogonalisation x return flags x representations: values = eigenvalues of the exact Lanczos matrix on the Krylov space "
        "reached (count included), inside the spectrum, eigenvalues of A at full Krylov dimension; vectors/basis consistent")
ASSUMPTIONS = ["degrees are raised to at least two by the routine", "agreement 1e-8 relative"]
EXTS = ("tqli", "fttr", "_lanczos")


def cases(tier):
    yield from mats(tier)
    yield from large(tier)


def run_big(ctx, case, rayleigh_ritz):
    n, name, v = case["n"], case["big"], big_starts(case["n"])[case["iv"]]
    A, w, U = big_matrix(n, name)
    sc = np.abs(w).max()
    prev = None
    for deg in sorted({2, 3, 5, 8, n // 2, n}):
        k = min(deg, 7 if name == "rank" else n)
        what = f"{name} matrix of size {n}, start {case['iv']}, deg={deg}"
        r = np.sort(rayleigh_ritz(A, deg=deg, v0=v, orth=deg))
        r2, Y, Q = rayleigh_ritz(A, deg=deg, v0=v, orth=deg, return_eigenvectors=True, return_basis=True)
        ctx.op(2)
        ctx.check(r.shape == (k,) and near(np.sort(r2), r, 1e-9 * sc), lambda: f"{what}: {r.shape} values for a Krylov space of dimension {k}")
        ctx.check(r[0] >= w.min() - 1e-8 * sc and r[-1] <= w.max() + 1e-8 * sc, lambda: f"{what}: values outside the spectrum")
        H = Q.T @ A @ Q
        ctx.check(near(np.linalg.eigvalsh((H + H.T) / 2), r, 1e-6 * sc), lambda: f"{what}: values {r} are not the eigenvalues of the projection Q'AQ")
        ctx.check(near(Y.T @ Y, np.eye(k), 1e-8) and near(H @ Y, Y * r2, 1e-6 * sc), lambda: f"{what}: Ritz vectors do not belong to the values")
        if prev is not None:  # Cauchy interlacing: the extreme values only move outwards
            ctx.check(r[0] <= prev[0] + 1e-8 * sc and r[-1] >= prev[-1] - 1e-8 * sc, lambda: f"{what}: extreme values moved inwards from {prev[[0, -1]]} to {r[[0, -1]]}")
        prev = r
        if deg == n:
            ctx.check(near(r, np.sort(w) if k == n else np.unique(w), 1e-8 * sc), lambda: f"{what}: {r} are not the eigenvalues {w}")
        ctx.trace()
    rd = np.sort(rayleigh_ritz(A, v0=v, orth=n))
    ctx.check(near(rd, prev, 1e-8 * sc), lambda: f"{name} matrix of size {n}: the default degree is not the full one")
    ctx.state(n, name, case["iv"])


def run_chain(ctx, case, rayleigh_ritz):
    """Permuted weakly coupled / tiny-entry chains from a unit vector: values are those of the leading block of the chain."""
    n = case["n"]
    A, d, e, v = chain(n, case["chain"], case["perm"])
    lam = np.linalg.eigvalsh(A)
    sc = np.abs(lam).max()
    for s in (1.0,) + SCALES:
        for deg in sorted({2, 3, n - 1, n} - {1}):
            if deg > n:
                continue
            E = np.linalg.eigvalsh(np.diag(d[:deg]) + np.diag(e[: deg - 1], 1) + np.diag(e[: deg - 1], -1))
            for orth in sorted({0, 1, deg}):
                what = f"chain {case}, start scaled by {s}, deg={deg} orth={orth}"
                r = rayleigh_ritz(A, deg=deg, v0=s * v, orth=orth)
                r2, Y, Q = rayleigh_ritz(A, deg=deg, v0=s * v, orth=orth, return_eigenvectors=True, return_basis=True)
                ctx.op(2)
                for x in (r, r2):
                    ctx.check(np.shape(x) == (deg,) and near(np.sort(x), E, 1e-12 * sc), lambda: f"{what}: values {x} expected {E}")
                U = Q @ Y
                ctx.check(near(U.T @ U, np.eye(deg), 1e-9) and near(np.einsum("ij,ij->j", U, A @ U), r2, 1e-9 * sc), lambda: f"{what}: Ritz vectors do not belong to the values")
            ctx.trace()
    ctx.state(n, case["chain"], case["perm"])


def run(ctx, case):
    from primate.lanczos import rayleigh_ritz
    n = case["n"]
    if "big" in case:
        return run_big(ctx, case, rayleigh_ritz)
    if "chain" in case:
        return run_chain(ctx, case, rayleigh_ritz)
    A = matrix(case)
    sc = max(1.0, np.max(np.abs(A)))
    lam = np.linalg.eigvalsh(A)
    for iv, v in enumerate(vec_family(n) + ([irr(n)] if "name" in case or sum(case["w"]) % 2 == 0 else [])):
        kd, gap, nxt = krylov(A, v)
        if gap < 1e-3:
            continue
        for deg in range(1, n + 1):
            d = min(max(deg, 2), n)
            k = min(d, kd)
            a, b, Qr = lanczos_ref(A, v, k)
            a, b = a.astype(float), b.astype(float)
            E = np.linalg.eigvalsh(np.diag(a) + np.diag(b[: k - 1], 1) + np.diag(b[: k - 1], -1))
            for orth in sorted({0, 2, d}):
                if orth < d and n > 6:
                    continue
                what = f"A={A.tolist()} v={v.tolist()} deg={deg} orth={orth}"
                kA, kv = A.copy(), v.copy()
                rw = np.asarray(rayleigh_ritz(A, deg=deg, v0=v, orth=orth))
                ctx.op()
                tol = 1e-8 * sc
                ctx.check(rw.shape == (k,), lambda: f"{what}: {len(rw)} values {rw}, but the Krylov space has dimension {k}")
                ctx.check(near(np.sort(rw), E, tol), lambda: f"{what}: values {rw} expected {E}")
                ctx.check(np.all(rw >= lam[0] - tol) and np.all(rw <= lam[-1] + tol), lambda: f"{what}: values {rw} outside the spectrum {lam}")
                if kd <= d:
                    ctx.check(all(np.min(np.abs(lam - r)) < 10 * tol for r in rw), lambda: f"{what}: {rw} are not eigenvalues {lam}")
                r2, Y = rayleigh_ritz(A, deg=deg, v0=v, orth=orth, return_eigenvectors=True)
                r3, Q3 = rayleigh_ritz(A, deg=deg, v0=v, orth=orth, return_basis=True)
                r4, Y4, Q4 = rayleigh_ritz(A, deg=deg, v0=v, orth=orth, return_eigenvectors=True, return_basis=True)
                ctx.op(3)
                ctx.check(np.array_equal(A, kA) and np.array_equal(v, kv), lambda: f"{what}: inputs modified")
                for r in (r2, r3, r4):
                    ctx.check(np.shape(r) == (k,) and near(np.sort(r), E, tol), lambda: f"{what}: values {r} with flags, expected {E}")
                ctx.check(Y.shape == (k, k) and near(Y.T @ Y, np.eye(k), 1e-8), lambda: f"{what}: Ritz coefficient vectors {Y.shape} not orthonormal")
                T = np.diag(a) + np.diag(b[: k - 1], 1) + np.diag(b[: k - 1], -1)
                ctx.check(near(T @ Y, Y * r2, 10 * tol), lambda: f"{what}: vectors do not belong to the values")
                for Q in (Q3, Q4):
                    ctx.check(Q.shape == (n, k) and near(Q.T @ Q, np.eye(k), 1e-6), lambda: f"{what}: basis {Q} is not orthonormal of rank {k}")
                U = Q4 @ Y4
                ctx.check(near(np.einsum("ij,ij->j", U, A @ U), r4, 1e-6 * sc), lambda: f"{what}: Rayleigh quotients of the Ritz vectors differ from the values")
                ctx.trace(4)
            ctx.state(tuple(A.ravel()), tuple(v), deg)
        if iv == n and ("name" in case or sum(case["w"]) % 4 == 0):
            a, b, Qr = lanczos_ref(A, v, kd if n > 1 else 1)
            E = np.linalg.eigvalsh((np.diag(a) + np.diag(b[:-1], 1) + np.diag(b[:-1], -1)).astype(float))
            for nm, R in reps(A, np.float64):
                rw = rayleigh_ritz(R, v0=v, orth=n)
                ctx.op()
                ctx.check(np.shape(rw) == E.shape and near(np.sort(rw), E, 1e-8 * sc), lambda: f"A={A.tolist()} as {nm}: values {rw} expected {E}")
    for seed in (0, 5):
        rw = rayleigh_ritz(A, seed=seed, orth=n)
        ctx.op()
        ctx.check(all(np.min(np.abs(lam - r)) < 1e-5 * sc for r in rw), lambda: f"A={A.tolist()} random start seed {seed}: {rw} are not eigenvalues {lam}")
        ctx.check(np.array_equal(rw, rayleigh_ritz(A, seed=seed, orth=n)), "two runs with the same seed differ")
