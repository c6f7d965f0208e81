"""C27: XDiag against the naive leave-one-out definition."""
import itertools
import numpy as np
from mc.lib import GRADED, big_matrix, graded_matrix, mt_generator, struct_family, sym_from_word, sym_words
from mc.props.c14 import reps

RULE = ("all matrices of the alphabet (symmetric and not) and structured families n<=6, larger ones to n=70/120, x every sign sketch (all generator words) for n<=3, a seed "
        "grid for the other distributions and sizes x all budgets m from 1 to 2n+3 and the default x representations: naive leave-one-out "
        "definition, number of matrix-vector products counted by the operator")
ASSUMPTIONS = ["sketches are nonsingular: condition number of A*W at most 1e4 (others are skipped)", "the sketch is what isotropic() yields for the same generator state"]
EXTS = ("tqli", "fttr", "_lanczos")


class Counting:
    """Matrix-free operator (with transpose) counting the vectors it is applied to."""

    def __init__(self, A, box=None, ref=None):
        self.A, self.shape, self.dtype, self.box = A, A.shape, A.dtype, [0] if box is None else box

    def matvec(self, x):
        self.box[0] += 1 if x.ndim == 1 else x.shape[1]
        return self.A @ x

    __matmul__ = matvec

    @property
    def T(self):
        return Counting(self.A.T, self.box)


def mats(tier):
    th = tier == "thorough"
    for a in (-2.0, 1.5):
        yield 1, [[a]]
    for w in sym_words(2, (-1, 0, 2)):
        yield 2, sym_from_word(w, 2).tolist()
    for w in itertools.product((-1, 0, 2), repeat=4):
        if w[1] != w[2]:
            yield 2, [[float(w[0]), float(w[1])], [float(w[2]), float(w[3])]]
    for i, w in enumerate(sym_words(3, (-1, 0, 2))):
        if th or i % 7 == 0:
            yield 3, sym_from_word(w, 3).tolist()
    for n in range(3, 8 if th else 7):
        for nm, M in struct_family(n).items():
            yield n, M.tolist()
        yield n, (np.triu(np.ones((n, n))) + np.diag(np.arange(n))).tolist()


def cases(tier):
    for n, A in mats(tier):
        yield dict(n=n, A=A)
    for n in (12, 33, 70) + ((120,) if tier == "thorough" else ()):
        for nm in ("lin", "indef", "clust"):
            yield dict(n=n, large=nm)
    yield dict(n=270, large="lin")
    yield from GRADED


def loo(A, W):
    n, m = W.shape
    out = []
    for i in range(m):
        Wi = np.delete(W, i, axis=1)
        Q = np.linalg.svd(A @ Wi, full_matrices=False)[0] if m > 1 else np.zeros((n, 0))
        w, y = W[:, i], A @ W[:, i]
        out.append(np.diag(Q @ (Q.T @ A)) + w * (y - Q @ (Q.T @ y)))
    return np.mean(out, axis=0)


def run(ctx, case):
    from primate.diagonal import xdiag
    from primate.random import isotropic
    n = case["n"]
    A = big_matrix(n, case["large"])[0] if "large" in case else graded_matrix(n, case["dec"], case["graded"]) if "graded" in case else np.array(case["A"], dtype=float)
    kA = A.copy()
    th = ctx.tier == "thorough"
    R = [r for r in reps(A, np.float64) if r[0] not in ("duck",)]

    def one(m, pdf, gen, name, idx):
        k = (2 * n if m is None else min(m + m % 2, 2 * n)) // 2
        W = isotropic((n, k), pdf=pdf, seed=gen())
        s = np.linalg.svd(A @ W, compute_uv=False)
        if not (s[-1] > 0 and s[0] <= (1e11 if "graded" in case else 1e4) * s[-1]):
            ctx.outcome("singular sketch")
            return
        e = loo(A, W)
        sc = (max(1e-10, 4e-13 * s[0] / s[-1]) if "graded" in case else 1e-7) * max(1.0, np.abs(e).max(), np.abs(A).max())
        cnt = Counting(A)
        rn, op = ("counting", cnt) if idx % 2 == 0 else R[(idx // 2) % len(R)]
        d = xdiag(op, m=m, pdf=pdf, seed=gen())
        ctx.op()
        ctx.check(np.shape(d) == (n,) and np.abs(d - e).max() <= sc, lambda: f"{rn} A={A.tolist()} m={m} pdf={pdf} {name}, sketch {W.T.tolist()}: {d}, leave-one-out definition {e}")
        if rn == "counting":
            bud = 2 * n if m is None else min(m + m % 2, 2 * n)
            ctx.check(cnt.box[0] <= bud, lambda: f"A={A.tolist()} m={m}: {cnt.box[0]} matrix-vector products, budget {bud}")
        ctx.outcome("compared")
        ctx.state(tuple(A.ravel()), m, pdf, tuple(W.ravel()))

    idx = 0
    for m in ([None] if n < 200 else []) + (list(range(1, 2 * n + 4)) if "A" in case or "graded" in case else [1, 2, 3, 7, 8, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 3, 64, 65, 66, 129] if n < 200 else [1, 2, 8, 65, 129]):
        k = (2 * n if m is None else min(m + m % 2, 2 * n)) // 2
        if n <= 3 and n * k <= (9 if th else 6):
            for bits in itertools.product((0, 0xFFFFFFFF), repeat=n * k):
                words = [b for b in bits for _ in range(2)]
                one(m, "rademacher", lambda: mt_generator(words), f"signs {bits}", idx)
                idx += 1
        for pdf in ("sphere", "normal", "rademacher"):
            for seed in range(12 if th else 4):
                one(m, pdf, lambda: np.random.default_rng(seed), f"seed {seed}", idx)
                idx += 1
                if idx % 5 == 0 and seed == 0 and pdf == "sphere":  # sphere is the default distribution
                    try:
                        a, b = xdiag(A, m=m, seed=seed), xdiag(A, m=m, pdf="sphere", seed=seed)
                    except np.linalg.LinAlgError:
                        continue
                    ctx.check(np.array_equal(a, b, equal_nan=True), lambda: f"A={A.tolist()} m={m}: the default distribution is not the sphere")
    ctx.trace()
    ctx.check(np.array_equal(A, kA), "operator modified")
