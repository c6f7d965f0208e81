"""C14: Lanczos tridiagonalisation."""
import itertools
import numpy as np
from mc.core import close, raises
from mc.lib import BIG, CHAINS, SCALES, big_matrix, big_starts, chain, irr, near, krylov_dim_exact, lanczos_ref, struct_family, sym_from_word, sym_words, vec_family

RULE = ("all symmetric matrices over small integer alphabets (n<=4) plus structured families up to n=8 (defining relations on larger ones, up to n=140/200; exact coefficients of weakly coupled and tiny-entry chains to n=40, start vectors scaled by 2^-60..2^40) x start vectors x all degrees x "
        "re-orthogonalisation settings x {basis, no basis, sparse} x representations x precisions x clean/dirty workspaces: Krylov "
        "dimension from exact rational elimination, coefficients and basis against extended-precision Lanczos, relation AQ=QT+residual")
ASSUMPTIONS = ["invariant subspaces are recognised relative to rtol (single precision runs use rtol=1e-4)",
               "without full re-orthogonalisation only matrices up to n=6 with well separated coefficients are compared"]
EXTS = ("tqli", "fttr", "_lanczos")


def mats(tier):
    th = tier == "thorough"
    for n, al in ((1, (-2, 0, 1, 3)), (2, (-1, 0, 1, 2)), (3, (-1, 0, 2) if not th else (-1, 0, 1, 2)), (4, (0, 1) if not th else (-1, 0, 1))):
        for i, w in enumerate(sym_words(n, al)):
            if n == 4 and th and i % 2:
                continue
            yield dict(n=n, w=w)
    for n in range(1, 9 if th else 7):
        for name in struct_family(n):
            yield dict(n=n, name=name)


def matrix(c):
    return sym_from_word(c["w"], c["n"]) if "w" in c else struct_family(c["n"])[c["name"]]


def cases(tier):
    for c in mats(tier):
        yield c
    yield from large(tier, chains=True)
    yield dict(rej=1, n=0)


def large(tier, chains=False):
    for n in (12, 33, 60) + ((100, 200) if tier == "thorough" else ()):
        for name in BIG:
            for iv in range(3):
                yield dict(n=n, big=name, iv=iv)
    if tier != "thorough":
        for n in (80, 140):
            yield dict(n=n, big="lin", iv=1)
            yield dict(n=n, big="indef", iv=0)
    yield dict(n=270, big="lin", iv=1)
    yield dict(n=270, big="indef", iv=0)
    if tier == "thorough":
        yield dict(n=530, big="lin", iv=2)
    for n in (2, 3, 4, 5, 7, 16, 40) + ((330, 1030) if chains else ()):
        for name in CHAINS:
            for perm in (False, True):
                yield dict(n=n, chain=name, perm=perm)


def run_chain(ctx, case, lanczos):
    """Permuted tridiagonal matrices from a unit vector: the coefficients are the matrix entries, weak couplings and tiny entries included."""
    n = case["n"]
    A, d, e, v = chain(n, case["chain"], case["perm"])
    for sc in (1.0,) + (SCALES if n < 200 else (SCALES[0],)):
        for deg in sorted({1, 2, 3, n - 1, n} - {0}) if n < 200 else (2, 40):
            if deg > n:
                continue
            for orth in sorted({0, 1, deg}) + [-1] if n < 200 else (0, deg):
                (a, b), Q = lanczos(A, v0=sc * v, deg=deg, orth=orth, return_basis=True)
                a2, b2 = lanczos(A, v0=sc * v, deg=deg, orth=orth)
                ctx.op(2)
                for nm, x, y in (("with", a, b), ("without", a2, b2)):
                    ctx.check(near(x, d[:deg], 1e-13) and near(y, e[: deg - 1], 1e-13), lambda: f"chain {case}, start scaled by {sc}, deg={deg} orth={orth} {nm} basis: {x}, {y}, matrix entries {d[:deg]}, {e[:deg - 1]}")
                ctx.check(near(np.abs(Q.T @ v), np.eye(deg)[0], 1e-12) and near(Q.T @ Q, np.eye(deg), 1e-12), lambda: f"chain {case}, start scaled by {sc}, deg={deg} orth={orth}: basis {Q}")
            ctx.trace()
    ctx.state(n, case["chain"], case["perm"])


def strided_operator(A):
    """scipy LinearOperator whose products are strided views of larger arrays (as e.g. slices of a padded or stacked product are)"""
    from scipy.sparse.linalg import LinearOperator

    class View(LinearOperator):
        def __init__(self, A):
            self.A = A
            super().__init__(A.dtype, A.shape)

        def _matvec(self, x):
            y = np.full((self.shape[0], 2), -7.0, dtype=self.dtype)
            y[:, 0] = self.A @ x.ravel()
            return y[:, 0]

        def _matmat(self, X):
            Y = np.full((self.shape[0], 2 * X.shape[1] + 1), -7.0, dtype=self.dtype)
            Y[:, 1::2] = self.A @ X
            return Y[:, 1::2]

        def _adjoint(self):
            return View(self.A.T)
    return View(A)


def reps(A, dt):
    import scipy.sparse as sp
    from scipy.sparse.linalg import aslinearoperator
    from mc.lib import Spy
    A = A.astype(dt)
    yield "C", np.ascontiguousarray(A)
    yield "F", np.asfortranarray(A)
    yield "csr", sp.csr_matrix(A)
    yield "csc_array", sp.csc_array(A)
    yield "coo", sp.coo_matrix(A)
    yield "linop", aslinearoperator(A)
    yield "duck", Spy(A, dt)
    yield "view", strided_operator(A)


def dense(A):
    if hasattr(A, "toarray"):
        return A.toarray()
    if hasattr(A, "A") and not isinstance(A, np.ndarray):
        return np.array(A.A)
    return np.array(A)


def expect(A, v, deg, kd):
    n = len(v)
    k = min(deg, kd)
    a, b, Q = lanczos_ref(A, v, k)
    av, bv, Qv = np.zeros(deg), np.zeros(deg), np.zeros((n, deg))
    av[:k] = a
    bv[: k - 1] = b[: k - 1]
    Qv[:, :k] = Q
    return k, av, bv[: deg - 1], Qv, float(np.min(b[: k - 1])) if k > 1 else np.inf


def judge(ctx, A, v, deg, k, exp, out, Q, what, tol):
    a, b = (np.asarray(x, dtype=float) for x in out)
    ea, eb, eQ = exp
    sc = max(1.0, np.max(np.abs(A)))
    ctx.check(a.shape == (deg,) and b.shape == (max(deg - 1, 0),), lambda: f"{what}: coefficient shapes {a.shape}, {b.shape}")
    ctx.check(near(a, ea, tol * sc), lambda: f"{what}: diagonal {a} expected {ea} (Krylov dimension {k})")
    ctx.check(near(b, eb, tol * sc), lambda: f"{what}: off-diagonal {b} expected {eb} (Krylov dimension {k})")
    if Q is not None:
        Q = np.asarray(Q, dtype=float)
        ctx.check(Q.shape == (len(v), deg), lambda: f"{what}: basis shape {Q.shape}")
        ctx.check(near(Q[:, :k].T @ Q[:, :k], np.eye(k), tol), lambda: f"{what}: basis is not orthonormal: {Q}")
        ctx.check(not np.any(Q[:, k:]), lambda: f"{what}: basis has leftovers beyond the Krylov space of dimension {k}: {Q}")
        ctx.check(near(Q, eQ, tol * 10), lambda: f"{what}: basis {Q} expected {eQ}")
        T = np.diag(a[:k]) + np.diag(b[: k - 1], 1) + np.diag(b[: k - 1], -1)
        R = A @ Q[:, :k] - Q[:, :k] @ T
        ctx.check(near(R[:, : k - 1], 0, 10 * tol * sc), lambda: f"{what}: AQ-QT is not confined to the last column: {R}")
        if k < deg:
            ctx.check(near(R, 0, 10 * tol * sc), lambda: f"{what}: invariant subspace but AQ-QT={R}")


def run_big(ctx, case, lanczos):
    """Larger matrices: the defining relations instead of the coefficients themselves (which are ill-conditioned functions of A and v)."""
    n, name, v = case["n"], case["big"], big_starts(case["n"])[case["iv"]]
    A, w, U = big_matrix(n, name)
    sc = np.abs(w).max()
    lo = 1e-7 if name == "log" else 1e-10
    for deg in sorted({1, 2, 3, 5, 8, n // 2, n - 1, n}):
        what = f"{name} matrix of size {n}, start {case['iv']}, deg={deg}"
        full = None
        for orth in sorted({0, 1, 3, deg // 2, deg}) + [-1]:
            out, Q = lanczos(A, v0=v, deg=deg, orth=orth, return_basis=True)
            o2 = lanczos(A, v0=v, deg=deg, orth=orth)
            ctx.op(2)
            a, b = (np.asarray(x, dtype=float) for x in out)
            ctx.check(a.shape == (deg,) and b.shape == (deg - 1,) and Q.shape == (n, deg) and np.all(np.isfinite(a)) and np.all(b >= 0), lambda: f"{what} orth={orth}: malformed result {a} {b}")
            ctx.check(near(np.linalg.norm(Q[:, 0]), 1.0, 1e-12) and near(Q[:, 0], v / np.linalg.norm(v), 1e-12), lambda: f"{what} orth={orth}: first basis vector is not the start vector")
            k = int(np.sum(np.linalg.norm(Q, axis=0) > 0.5))
            T = np.diag(a[:k]) + np.diag(b[: k - 1], 1) + np.diag(b[: k - 1], -1)
            ctx.check(not np.any(Q[:, k:]) and not np.any(a[k:]) and near(b[k - 1:], 0, 1e-8 * sc), lambda: f"{what} orth={orth}: leftovers beyond the {k} computed vectors")
            R = A @ Q[:, :k] - Q[:, :k] @ T
            ctx.check(near(R[:, : k - 1], 0, 1e-8 * sc), lambda: f"{what} orth={orth}: AQ-QT is not confined to the last column ({np.abs(R[:, : k - 1]).max()})")
            ctx.check(near(np.linalg.norm(Q[:, :k], axis=0), 1.0, 1e-12), lambda: f"{what} orth={orth}: basis vectors are not unit vectors")
            lam = np.linalg.eigvalsh(T)
            ctx.check(lam[0] >= w.min() - 1e-8 * sc and lam[-1] <= w.max() + 1e-8 * sc, lambda: f"{what} orth={orth}: Ritz values {lam} outside the spectrum")
            T2 = np.diag(np.asarray(o2[0])) + np.diag(np.asarray(o2[1]), 1) + np.diag(np.asarray(o2[1]), -1)
            if orth in (deg, -1):
                exp = 7 if name == "rank" else n
                ctx.check(k == min(deg, exp), lambda: f"{what}: {k} vectors, the Krylov space has dimension {exp}")
                ctx.check(near(Q[:, :k].T @ Q[:, :k], np.eye(k), lo), lambda: f"{what}: fully re-orthogonalised basis deviates from orthonormality by {np.abs(Q[:, :k].T @ Q[:, :k] - np.eye(k)).max()}")
                ctx.check(near(np.linalg.eigvalsh(T2[:k, :k]), lam, 1e-8 * sc) and near(T2[k:], 0, 1e-8 * sc), lambda: f"{what}: without the basis the Ritz values are {np.linalg.eigvalsh(T2)}, with the basis {lam}")
                if deg == n:
                    ctx.check(near(lam, np.sort(w) if k == n else np.unique(w), 1e-8 * sc), lambda: f"{what}: eigenvalues {lam} of the full tridiagonal matrix, {w} expected")
                if full is None:
                    full = (a, b, Q)
                else:
                    ctx.check(near(full[0], a, 1e-9 * sc) and near(full[1], b, 1e-9 * sc) and near(full[2], Q, 1e-8), lambda: f"{what}: orth=-1 differs from orth=deg")
            ctx.trace(2)
    deg = min(n, 6 if name == "rank" else 9)
    a0, b0 = lanczos(A, v0=v, deg=deg, orth=deg)
    for dt, rt, tol in ((np.float64, 1e-8, 1e-8), (np.float32, 1e-6, 2e-3)):  # every representation, the matrix-free ones included
        if dt == np.float32 and name not in ("lin", "indef"):
            continue
        for nm, R in reps(A / sc, dt):
            o, Q = lanczos(R, v0=v, deg=deg, orth=deg, return_basis=True, rtol=rt)
            o2 = lanczos(R, v0=v.astype(dt), deg=deg, orth=deg, rtol=rt)
            ctx.op(2)
            for x in (o, o2):
                ctx.check(near(x[0], a0 / sc, tol) and near(x[1], b0 / sc, tol), lambda: f"{name} matrix of size {n}, start {case['iv']}, deg={deg} as {nm} in {dt.__name__}: {x}, dense {a0 / sc}, {b0 / sc}")
            ctx.check(near(Q.T @ Q, np.eye(deg), tol) and near(Q.T @ ((A / sc) @ Q), np.diag(a0) / sc + np.diag(b0, 1) / sc + np.diag(b0, -1) / sc, tol), lambda: f"{name} matrix of size {n}, deg={deg} as {nm} in {dt.__name__}: basis does not belong to the coefficients")
        ctx.trace()
    ctx.state(n, name, case["iv"])


def run(ctx, case):
    from primate.lanczos import lanczos
    if "rej" in case:
        ctx.op()
        A = np.diag([1.0, 2.0, 3.0])
        for v in (np.ones(2), np.ones(4), np.ones(0)):
            ctx.check(raises(lanczos, A, v0=v), lambda: f"start vector of length {len(v)} accepted")
        ctx.check(raises(lanczos, A, deg=0), "degree zero accepted")
        ctx.check(raises(lanczos, A.astype(int)), "integer operator accepted")
        ctx.check(raises(lanczos, A, dtype=np.int64) and raises(lanczos, A.astype(np.complex128)), "non-float precision accepted")
        ctx.check(raises(lanczos, A, deg=3, alpha=np.zeros(3)) and raises(lanczos, A, deg=3, beta=np.zeros(5)), "workspace of wrong length accepted")
        ctx.check(raises(lanczos, A, deg=3, alpha=np.zeros(4, dtype=np.float32)), "workspace of wrong precision accepted")
        ctx.check(raises(lanczos, A, deg=3, return_basis=True, Q=np.zeros((3, 3), order="C")[:, ::-1]), "non-contiguous basis workspace accepted")
        return
    n = case["n"]
    if "big" in case:
        return run_big(ctx, case, lanczos)
    if "chain" in case:
        return run_chain(ctx, case, lanczos)
    A = matrix(case)
    structured = "name" in case
    for iv, v in enumerate(vec_family(n) + ([irr(n)] if structured or sum(case["w"]) % 2 == 0 else [])):
        kd = krylov_dim_exact(A, v) if not structured or case["name"] not in ("reprot", "invol", "proj", "hilb", "lap") or n <= 3 else None
        if kd is None or structured:
            from mc.lib import krylov
            kd, gap, nxt = krylov(A, v)
            if gap < 1e-3:
                continue
        for deg in range(1, n + 1):
            k, ea, eb, eQ, bmin = expect(A, v, deg, kd)
            if bmin < 1e-3:
                continue
            exp = (ea, eb, eQ)
            orths = sorted({0, 1, 2, deg})
            for orth in orths + [-1]:
                if orth not in (deg, -1) and n > 6:
                    continue
                full = orth in (-1,) or orth >= deg
                tol = 1e-9 if full else 1e-7
                what = f"A={A.tolist()} v={v.tolist()} deg={deg} orth={orth}"
                kA, kv = A.copy(), v.copy()
                (o, Q) = lanczos(A, v0=v, deg=deg, orth=orth, return_basis=True)
                o2 = lanczos(A, v0=v, deg=deg, orth=orth)
                ctx.op(2)
                ctx.check(np.array_equal(A, kA) and np.array_equal(v, kv), lambda: f"{what}: operator or start vector modified")
                judge(ctx, A, v, deg, k, exp, o, Q, what, tol)
                judge(ctx, A, v, deg, k, exp, o2, None, what + " (no basis)", tol)
                T = lanczos(A, v0=v, deg=deg, orth=orth, sparse_mat=True)
                E = np.diag(ea) + np.diag(eb, 1) + np.diag(eb, -1)
                ctx.check(T.shape == (deg, deg) and near(T.toarray(), E, tol * max(1, np.max(np.abs(A)))), lambda: f"{what}: sparse form {T.toarray()} expected {E}")
                al, be, QQ = np.full(deg + 1, 7.0), np.full(deg + 1, -3.0), np.full((n, deg), 5.0, order="F")
                o3, Q3 = lanczos(A, v0=v, deg=deg, orth=orth, return_basis=True, alpha=al, beta=be, Q=QQ)
                ctx.op(2)
                judge(ctx, A, v, deg, k, exp, o3, Q3, what + " (dirty workspaces)", tol)
                ctx.trace(4)
            ctx.state(tuple(A.ravel()), tuple(v), deg)
        if (iv in (n, n + 1) and (structured or sum(case["w"]) % 4 == 0)):
            for dt in (np.float64, np.float32):
                if dt == np.float32 and np.max(np.abs(A)) > 20:
                    continue
                for nm, R in reps(A, dt):
                    keep = dense(R)
                    for deg in {n, max(1, n - 1)}:
                        k, ea, eb, eQ, bmin = expect(A.astype(dt), v, deg, kd)
                        if bmin < 1e-2:
                            continue
                        tol = 1e-9 if dt == np.float64 else 2e-3
                        kw = {} if dt == np.float64 else dict(rtol=1e-4)
                        o, Q = lanczos(R, v0=v, deg=deg, orth=deg, return_basis=True, **kw)
                        ctx.op()
                        what = f"A={A.tolist()} v={v.tolist()} deg={deg} as {nm} in {dt.__name__}"
                        ctx.check(o[0].dtype == dt and Q.dtype == dt, lambda: f"{what}: result precision {o[0].dtype}")
                        judge(ctx, A, v, deg, k, (ea, eb, eQ), o, Q, what, tol)
                        ctx.check(np.array_equal(dense(R), keep), lambda: f"{what}: operator modified")
                        if dt == np.float32:  # computation in double requested for single precision data
                            o, Q = lanczos(R, v0=v, deg=deg, orth=deg, return_basis=True, dtype=np.float64, rtol=1e-6)
                            ctx.check(o[0].dtype == np.float64, lambda: f"{what}: dtype=float64 requested, got {o[0].dtype}")
                            if nm not in ("linop", "duck", "view") and np.array_equal(A, A.astype(np.float32)):
                                judge(ctx, A, v, deg, k, (ea, eb, eQ), o, Q, what + " computed in double", 1e-9)
                        ctx.trace()
            ctx.state("rep", tuple(A.ravel()), tuple(v))
    for seed in (0, 3):
        r = [lanczos(A, deg=n, seed=s, orth=n, return_basis=True) for s in (seed, np.random.default_rng(seed))]
        ctx.op(2)
        ctx.check(np.array_equal(r[0][0][0], r[1][0][0]) and np.array_equal(r[0][1], r[1][1]), "two runs with the same seed differ")
        q = r[0][1][:, 0]
        ctx.check(abs(np.linalg.norm(q) - 1) < 1e-9 and np.isclose(r[0][0][0][0], q @ A @ q, atol=1e-8 * max(1, np.max(np.abs(A)))), "random start: alpha_1 is not q'Aq")
