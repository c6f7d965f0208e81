"""C20: spectral normalisation."""
import numpy as np
from mc.lib import cosine_basis, near
from mc.props.c14 import mats, matrix, reps

RULE = ("all non-zero symmetric matrices over the alphabets plus structured families (positive, negative, indefinite, rank-deficient; up to n = 64 and scaled by 2^-30..2^30) x "
        "representations: the normalised operator equals s*A+t*I for one (s, t), its spectrum lies in [-1,1], blocks = columns, A unchanged")
ASSUMPTIONS = ["agreement 1e-7 (the spectral radius comes from an iterative solver)"]
EXTS = ("tqli", "fttr", "_lanczos")


def cases(tier):
    for c in mats(tier):
        if c["n"] >= 2 and np.any(matrix(c)):
            if c["n"] == 4 and "w" in c and sum(c["w"]) % 3 and tier != "thorough":
                continue
            yield c
    for n in (2, 3, 7, 12, 20, 33, 64):
        for name in ("pos", "neg", "indef", "rank1", "tri", "chain", "clustneg"):
            for sc in (2.0 ** -30, 1e-3, 1.0, 1e4, 2.0 ** 30):
                yield dict(n=n, big=name, sc=sc)
    for n in (130, 270):
        for name in ("pos", "indef", "rank1", "clustneg"):
            yield dict(n=n, big=name, sc=1.0)


def big(n, name):
    i = np.arange(n)
    Q = cosine_basis(n)
    if name == "tri":
        return 2.0 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
    if name == "chain":
        return np.diag((-1.0) ** i * (1 + i % 4)) + 0.5 * (np.eye(n, k=1) + np.eye(n, k=-1)) - 2.0 * np.diag(1.0 * (i == 0))
    w = {"pos": 1.0 + i * 2.0 / n, "neg": -1.0 - i, "indef": np.where(i % 2 == 0, 1.0 + i, -0.5 - i / 2), "rank1": np.where(i == 1, -3.0, 0.0), "clustneg": np.where(i == 0, -5.0, 1.0)}[name]
    A = (Q * w) @ Q.T
    return (A + A.T) / 2


def run(ctx, case):
    from primate.operators import normalize_unit
    n = case["n"]
    A = big(n, case["big"]) * case["sc"] if "big" in case else matrix(case)
    full = "name" in case or ("big" in case and case["sc"] == 1.0) or "w" in case and sum(case["w"]) % 4 == 0
    for nm, R in reps(A, np.float64):
        if nm in ("duck",) or (not full and nm not in ("C", "linop", "view")):
            continue
        keep = A.copy()
        N = normalize_unit(R)
        ctx.op()
        what = f"A={A.tolist()} as {nm}"
        M = np.array([N @ e for e in np.eye(n)]).T
        ctx.check(M.shape == (n, n) and np.all(np.isfinite(M)), lambda: f"{what}: {M}")
        ctx.check(near(N @ np.eye(n), M, 1e-9) and near(N.matvec(np.ones(n)), M @ np.ones(n), 1e-8) and N.shape == (n, n), lambda: f"{what}: not a linear operator on blocks")
        # fit M = s A + t I (A not a multiple of I), otherwise M must be a multiple of I
        a0 = A - np.trace(A) / n * np.eye(n)
        t0 = np.trace(M) / n
        if np.abs(a0).max() > 1e-12 * np.abs(A).max():
            s = np.sum((M - t0 * np.eye(n)) * a0) / np.sum(a0 * a0)
            t = t0 - s * np.trace(A) / n
            ctx.check(abs(s) * np.abs(a0).max() > 1e-9, lambda: f"{what}: the spectrum collapsed to a point")
            ctx.check(near(M, s * A + t * np.eye(n), 1e-7), lambda: f"{what}: {M.tolist()} is not an affine image of A")
        else:
            ctx.check(near(M, t0 * np.eye(n), 1e-7), lambda: f"{what}: {M.tolist()} is not an affine image of A")
        lam = np.linalg.eigvalsh((M + M.T) / 2)
        ctx.check(near(M, M.T, 1e-7) and lam[0] >= -1 - 1e-9 and lam[-1] <= 1 + 1e-9, lambda: f"{what}: normalised spectrum {lam}")
        back = R.toarray() if hasattr(R, "toarray") else (R @ np.eye(n))
        ctx.check(np.array_equal(back, keep), lambda: f"{what}: the original operator changed")
        ctx.trace()
    ctx.state(tuple(A.ravel()))
