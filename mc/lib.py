"""Finite alphabets and reference helpers shared by the property modules (no import from primate)."""
import itertools
from fractions import Fraction
import numpy as np


def compositions(n):
    """All ordered ways to write n as a sum of positive parts."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k,) + rest


def words(alphabet, n):
    return itertools.product(alphabet, repeat=n)


def sym_from_word(w, n):
    A = np.zeros((n, n))
    it = iter(w)
    for i in range(n):
        for j in range(i, n):
            A[i, j] = A[j, i] = next(it)
    return A


def sym_words(n, alphabet):
    """Upper-triangle words of all symmetric n x n matrices over the alphabet."""
    return itertools.product(alphabet, repeat=n * (n + 1) // 2)


def orth_family(n):
    """A few exactly representable orthogonal matrices (Householder reflections with integer vectors)."""
    out = [np.eye(n)]
    for u in ([1.0] * n, [float((-1) ** i * (i + 1)) for i in range(n)]):
        u = np.array(u)
        out.append(np.eye(n) - 2 * np.outer(u, u) / (u @ u))
    return out


def spectra(n, vals):
    return itertools.combinations_with_replacement(vals, n)


def struct_family(n):
    """Structured symmetric matrices: diagonal, path Laplacian, arrow, low rank, repeated eigenvalues, indefinite."""
    i = np.arange(1, n + 1, dtype=float)
    out = {"zero": np.zeros((n, n)), "eye": np.eye(n), "negeye": -2 * np.eye(n), "diag": np.diag(i), "diagneg": np.diag(i - 2),
           "ones": np.ones((n, n)), "antidiag": np.fliplr(np.eye(n)), "rank1": np.outer(i, i) / n}
    if n >= 2:
        L = 2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
        L[0, 0] = L[-1, -1] = 1
        out["lap"] = L
        out["path"] = np.eye(n, k=1) + np.eye(n, k=-1)
        ar = np.diag(i)
        ar[0, :] = ar[:, 0] = 1.0
        out["arrow"] = ar
        out["hilb"] = 1.0 / (i[:, None] + i[None, :] - 1)
        d = np.ones(n)
        d[0] = 3.0
        out["rep"] = np.diag(d)
        u = np.ones(n)
        H = np.eye(n) - 2 * np.outer(u, u) / (u @ u)
        out["reprot"] = H @ np.diag(d) @ H
        d2 = np.where(np.arange(n) % 2 == 0, 1.0, -1.0)
        out["invol"] = H @ np.diag(d2) @ H
        d3 = np.zeros(n)
        d3[: max(1, n // 2)] = 2.0
        out["proj"] = H @ np.diag(d3) @ H
        out["big"] = 1e3 * (np.outer(i, i[::-1]) + np.outer(i[::-1], i)) / 2
    return {k: (v + v.T) / 2 for k, v in out.items()}


def vec_family(n):
    """Start vectors: unit vectors, all ones, sign patterns, graded, sparse."""
    out = [np.eye(n)[:, j] for j in range(n)]
    out.append(np.ones(n))
    out.append(np.array([(-1.0) ** j for j in range(n)]))
    out.append(np.arange(1, n + 1, dtype=float))
    if n >= 2:
        v = np.zeros(n)
        v[0], v[-1] = 1.0, -2.0
        out.append(v)
    return out


def irr(n):
    """Vector starting with a short binary fraction, the rest needing every bit of double precision."""
    i = np.arange(n)
    return np.where(i == 0, 0.5, (1 + 2.0 ** -24 + i * 2.0 ** -50) * np.where(i % 3 == 1, -1.0, 1.0) + np.where(i % 4 == 3, 1 / 3, 0.0))


def krylov_dim_exact(A, v):
    """Exact dimension of span{v, Av, ...} for A, v with exactly representable entries (rational elimination)."""
    n = len(v)
    F = [[Fraction(float(x)) for x in r] for r in A]
    x = [Fraction(float(t)) for t in v]
    rows = []  # echelon rows with pivot
    k = 0
    for _ in range(n):
        y = list(x)
        for p, r in rows:
            if y[p] != 0:
                f = y[p] / r[p]
                y = [a - f * b for a, b in zip(y, r)]
        p = next((i for i, a in enumerate(y) if a != 0), None)
        if p is None:
            break
        rows.append((p, y))
        k += 1
        x = [sum(a * b for a, b in zip(r, x)) for r in F]
    return k


def lanczos_ref(A, v, k):
    """Reference Lanczos basis/coefficients by modified Gram-Schmidt applied twice (full re-orthogonalisation)."""
    A = np.asarray(A, dtype=np.longdouble)
    n = len(v)
    Q = np.zeros((n, k), dtype=np.longdouble)
    a, b = np.zeros(k, dtype=np.longdouble), np.zeros(k, dtype=np.longdouble)
    q = np.asarray(v, dtype=np.longdouble)
    q = q / np.sqrt(q @ q)
    for j in range(k):
        Q[:, j] = q
        w = A @ q
        a[j] = q @ w
        for _ in range(3):
            w = w - Q[:, : j + 1] @ (Q[:, : j + 1].T @ w)
        b[j] = np.sqrt(w @ w)
        if j + 1 < k:
            q = w / b[j]
    return a, b, Q


def krylov(A, v, tol=1e-6):
    """(k, smallest relevant beta, next beta): numerical Krylov dimension with the gap that separates it."""
    n = len(v)
    if not np.any(v):
        return 0, np.inf, 0.0
    Q = np.zeros((n, n), dtype=np.longdouble)
    A = np.asarray(A, dtype=np.longdouble)
    q = np.asarray(v, dtype=np.longdouble)
    q = q / np.sqrt(q @ q)
    small = np.inf
    for j in range(n):
        Q[:, j] = q
        w = A @ q
        for _ in range(3):
            w = w - Q[:, : j + 1] @ (Q[:, : j + 1].T @ w)
        bt = float(np.sqrt(w @ w))
        if j + 1 == n or bt < tol * 1e-3:
            return j + 1, small, bt
        small = min(small, bt)
        q = w / np.longdouble(bt)
    return n, small, 0.0


def near(a, b, tol):
    """max |a-b| <= tol with equal shapes (b may be a scalar); NaN is never near."""
    a, b = np.asarray(a), np.asarray(b)
    if b.ndim and a.shape != b.shape:
        return False
    return a.size == 0 or bool(np.abs(a - b).max() <= tol)


def fun_mat(A, f):
    w, U = np.linalg.eigh(np.asarray(A, dtype=float))
    return (U * f(w)) @ U.T


class Spy:
    """Matrix-free operator that records every vector/block it was applied to (duck-typed, minimal interface)."""

    def __init__(self, A, dtype=np.float64):
        self.A, self.shape, self.dtype, self.calls = np.asarray(A, dtype=dtype), A.shape, np.dtype(dtype), []

    def matvec(self, x):
        self.calls.append(np.array(x, copy=True))
        return self.A @ x

    __matmul__ = matvec

    def __call__(self, x):
        return self.matvec(x)

    @property
    def T(self):
        return self


class TooMany(AssertionError):
    pass


class Scripted:
    """Scripted sampling distribution: hands out the given column vectors in order and logs every request.

    After the script is exhausted `tail` decides: None raises TooMany (the sampler was asked for more than allowed)."""

    def __init__(self, n, cols, tail=None):
        self.n, self.cols, self.pos, self.log, self.tail = n, [np.asarray(c, dtype=float) for c in cols], 0, [], tail

    def __call__(self, size):
        one_d = isinstance(size, (int, np.integer))
        shape = (int(size),) if one_d else tuple(int(s) for s in size)
        if len(shape) not in (1, 2) or shape[0] != self.n:
            raise AssertionError(f"sampler asked for shape {size!r}, expected {self.n} rows")
        k = 1 if len(shape) == 1 else shape[1]
        out = np.zeros((self.n, k), order="F")
        for j in range(k):
            if self.pos >= len(self.cols):
                if self.tail is None:
                    raise TooMany(f"sampled more than the {len(self.cols)} scripted vectors")
                out[:, j] = self.tail[(self.pos - len(self.cols)) % len(self.tail)]
            else:
                out[:, j] = self.cols[self.pos]
            self.pos += 1
        self.log.append(k)
        return out

    def drawn(self):
        c = self.cols + ([] if self.tail is None else [self.tail[i % len(self.tail)] for i in range(max(0, self.pos - len(self.cols)))])
        return c[: self.pos]


def untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    x = y
    for _ in range(7):
        x = y ^ ((x << 7) & 0x9D2C5680)
    y = x & 0xFFFFFFFF
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xFFFFFFFF


def mt_generator(wordsout, rest=0x5A5A5A5A):
    """A real numpy Generator whose next 32-bit outputs are exactly the given words (then `rest`-derived state words)."""
    bg = np.random.MT19937(0)
    st = bg.state
    key = np.array(st["state"]["key"], dtype=np.uint32)
    for i, w in enumerate(wordsout):
        key[i] = untemper(int(w))
    st["state"]["key"], st["state"]["pos"] = key, 0
    bg.state = st
    return np.random.Generator(bg)


def cosine_basis(n):
    """Orthogonal to machine precision, dense."""
    i = np.arange(n)
    Q = np.sqrt(2 / n) * np.cos(np.pi * (i[:, None] + 0.5) * (i + 0.5) / n)
    return np.linalg.qr(Q)[0]


BIG = ("lin", "log", "out", "indef", "clust", "rank")


def big_matrix(n, name):
    """(A, eigenvalues, orthonormality expected from full re-orthogonalisation): dense matrices of larger size with a prescribed spectrum."""
    w = {"lin": np.arange(1.0, n + 1), "log": 2.0 ** (-np.arange(n) * 20 / n), "out": np.r_[np.linspace(0, 1, n - 3), 1e2, 1e4, 1e5], "indef": np.linspace(-1, 1, n),
         "clust": np.r_[1 + 1e-3 * np.arange(n // 2), 5 + 1e-2 * np.arange(n - n // 2)], "rank": np.r_[np.zeros(n - 6), np.arange(1.0, 7.0)]}[name]
    U = cosine_basis(n)
    A = (U * w) @ U.T
    return (A + A.T) / 2, w, U


def graded_matrix(n, dec, kind):
    """Dense matrix with eigenvalues over `dec` orders of magnitude (diagonal, rotated, indefinite, not symmetric)."""
    w = 10.0 ** (-dec * np.arange(n) / (n - 1)) * np.where((np.arange(n) % 2 == 1) & (kind == "indef"), -1.0, 1.0)
    U = np.eye(n) if kind == "diag" else cosine_basis(n)
    A = (U * w) @ U.T
    return (A + A.T) / 2


GRADED = [dict(n=n, dec=dec, graded=kind) for n in (3, 4, 6, 8, 12, 20) for dec in (5, 7, 9) for kind in ("diag", "rot", "indef")]


def big_starts(n):
    return [np.ones(n), np.arange(1.0, n + 1), np.eye(n)[0]]


CHAINS = ("weak3", "weak5", "weak6", "mixed", "tinydiag", "zerodiag", "faint")


def chain(n, name, perm=False):
    """(A, d, e, start): a (permuted) tridiagonal matrix and the unit vector from which Lanczos must reproduce d and |e| exactly."""
    i = np.arange(n)
    d = 1.0 + i % 3 - 0.25 * i
    e = {"weak3": np.full(n - 1, 1e-3), "weak5": np.full(n - 1, 1e-5), "weak6": np.full(n - 1, -1e-6), "mixed": np.where(i[:-1] % 2 == 0, 1e-5, -2.0),
         "tinydiag": np.full(n - 1, 1.0), "zerodiag": 1.0 + i[:-1] % 2, "faint": 0.5 ** (1 + i[:-1] % 17)}[name]
    if name == "tinydiag":
        d = 1e-9 * np.where(i % 2 == 0, 1.0, -3.0)
    if name == "zerodiag":
        d = np.zeros(n)
    T = np.diag(d) + np.diag(e, 1) + np.diag(e, -1)
    v = np.eye(n)[0]
    if perm:
        o = (i * 3 + 1) % n if n % 3 else i[::-1]
        T, v = T[np.ix_(o, o)], v[o]
    return T, d, np.abs(e), v


SCALES = (2.0 ** -60, 2.0 ** -40, 2.0 ** -20, 2.0 ** 20, 2.0 ** 40, -1.0)


def big_cols(n, k, kind="signs"):
    """k deterministic, well spread column vectors of length n (signs, graded entries, or scaled orthogonal ones)."""
    i = np.arange(n)
    if kind == "orth":
        Q = cosine_basis(n) * np.sqrt(n)
        return [Q[:, (3 * j + 1) % n if n % 3 else j % n] * (1.0 + j // n) for j in range(k)]
    out = []
    for j in range(k):
        x = np.cos((i + 1) ** 2 * (j + 1) * 0.7310585 + 1.7 * j + 0.3 * i)
        out.append(np.where(x >= 0, 1.0, -1.0) if kind == "signs" else np.where(np.abs(x) < 0.1, 0.5, x) * (1.0 + j % 3))
    return out
