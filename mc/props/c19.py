"""C19: Toeplitz operator == dense Toeplitz matrix."""
import itertools
import numpy as np
from mc.core import raises
from mc.lib import irr, near

RULE = ("all first columns and rows over the alphabet up to size 3 (symmetric ones up to size 5), unit and mixed vectors and blocks, all call "
        "sequences up to the depth over a vector menu; arrays of the caller overwritten after construction; columns and rows of different types and forms; any units")
ASSUMPTIONS = ["agreement 1e-10 relative; single precision 1e-5", "the first entry of the row is ignored (the corner is the column's)"]
EXTS = ("tqli", "fttr", "_lanczos")
AL = (-1.0, 0.0, 2.0)


def cases(tier):
    th = tier == "thorough"
    for n in range(1, 4 if not th else 5):
        for c in itertools.product(AL, repeat=n):
            yield dict(c=c, r=None)
            for r in itertools.product(AL, repeat=n - 1):
                yield dict(c=c, r=(c[0],) + r)
            if n > 1:
                yield dict(c=c, r=(7.0,) + c[1:][::-1])
    for n in (4, 5):
        for c in itertools.product(AL, repeat=n):
            yield dict(c=c, r=None)
    for n in (6, 7, 16, 33, 64, 65, 100, 129, 257, 513, 1030):
        i = np.arange(n, dtype=float)
        yield dict(c=tuple(1 / (1 + i)), r=None)
        yield dict(c=tuple(np.cos(i)), r=tuple(np.where(i == 0, 1.0, -np.sin(i))))
        yield dict(c=tuple(i), r=tuple(0 * i))
    yield dict(rej=1)


def dense(c, r):
    n = len(c)
    return np.array([[c[i - j] if i >= j else r[j - i] for j in range(n)] for i in range(n)])


def run(ctx, case):
    from primate.operators import Toeplitz
    if "rej" in case:
        ctx.op()
        T = Toeplitz(np.array([1.0, 2.0, 3.0]))
        for k in (1, 2, 4):
            ctx.check(raises(lambda: T @ np.ones(k)), lambda: f"vector of length {k} accepted by a 3x3 operator")
            ctx.check(raises(lambda: T.matvec(np.ones((k, 1)))), lambda: f"column of length {k} accepted by a 3x3 operator")
        return
    c, r = case["c"], case["r"]
    n = len(c)
    D = dense(c, c if r is None else r)
    ca, ra = np.array(c), None if r is None else np.array(r)
    sc = max(1.0, np.abs(D).sum(axis=1).max())
    mk = lambda **k: Toeplitz(ca, **k) if ra is None else Toeplitz(ca, ra, **k)
    T = mk()
    ctx.check(np.array_equal(ca, np.array(c)) and (ra is None or np.array_equal(ra, np.array(r))), "caller's arrays modified by the constructor")
    ctx.check(T.shape == (n, n), lambda: f"shape {T.shape}")
    what = f"c={c} r={r}"
    I = np.eye(n)
    vs = [I[:, j] for j in range(n)] + [np.arange(1, n + 1, dtype=float), np.array([(-2.0) ** (j % 5) for j in range(n)]), irr(n)]
    V = np.array(vs).T
    ca[:] = 55.0
    if ra is not None:
        ra[:] = -44.0
    for nm, g in (("block @", lambda: T @ V), ("F block", lambda: T @ np.asfortranarray(V)), ("matmat", lambda: T.matmat(V)), ("columns", lambda: np.hstack([T @ v[:, None] for v in vs])),
                  ("matvec", lambda: np.array([T.matvec(v) for v in vs]).T), ("dot", lambda: np.array([T.dot(v) for v in vs]).T), ("identity", lambda: np.c_[T @ np.eye(n), T @ V[:, n:]])):
        kV = V.copy()
        y = g()
        ctx.op(V.shape[1])
        ctx.check(np.shape(y) == V.shape and near(y, D @ V, 1e-10 * sc * max(1, np.abs(V).max())), lambda: f"{what}: {nm} gives {y}, dense matrix {D @ V}")
        ctx.check(np.array_equal(V, kV), "input modified")
    for x in (irr(n), -3 * irr(n)):
        ctx.check(near(T @ x, D @ x, 1e-11 * sc) and near(T.matvec(x[:, None]), D @ x[:, None], 1e-11 * sc), lambda: f"{what}: product with {x} gives {T @ x}, dense matrix {D @ x}")
    yi = T @ np.arange(n)
    ctx.check(near(yi, D @ np.arange(n), 1e-10 * sc * n), lambda: f"{what}: integer vector gives {yi}")
    # histories
    menu = [vs[0], vs[-1], vs[-2], vs[-3], np.zeros(n), V[:, :2]]
    dep = (3 if len(c) <= 3 else 2) if ctx.tier == "quick" else 4 if len(c) <= 3 else 3
    for seq in itertools.product(range(len(menu)), repeat=dep):
        held = []
        for i in seq:
            y = T @ menu[i]
            ctx.op()
            ctx.check(near(y, D @ menu[i], 1e-10 * sc * max(1, np.abs(V).max())), lambda: f"{what}: product {i} in sequence {seq} gives {y}, dense matrix {D @ menu[i]}")
            held.append((y, np.array(y)))
        for y, k in held:
            ctx.check(np.array_equal(y, k), lambda: f"{what}: an earlier product changed during {seq}")
        ctx.trace()
    for k in (-200, -60, -40, -20, 20, 60, 200):  # in any units
        u = 2.0 ** k
        Tu = Toeplitz(u * np.array(c)) if r is None else Toeplitz(u * np.array(c), u * np.array(r))
        for f, g in ((u, 1.0), (1.0, u)) if abs(k) < 200 else ((u, 1.0),):
            y = (Tu if f != 1.0 else T) @ (g * vs[-1])
            ctx.op()
            ctx.check(near(y / u, D @ vs[-1], 1e-10 * sc * max(1, np.abs(V).max())), lambda: f"{what}: {'coefficients' if f != 1.0 else 'vectors'} in units of 2^{k} give {y / u} in that unit, dense matrix {D @ vs[-1]}")
    if n <= 3:  # column and row of different types and forms
        R = np.array(c if r is None else r, dtype=float)
        for cn, cf, cv in (("int64", lambda a: a.astype(int), 1.0), ("int32", lambda a: a.astype(np.int32), 1.0), ("list of int", lambda a: [int(t) for t in a], 1.0), ("float32", lambda a: (a / 2).astype(np.float32), 0.5), ("float64", lambda a: a * 0.3, 0.3), ("tuple", lambda a: tuple(a), 1.0)):
            for rn, rf, rv in (("int64", lambda a: a.astype(int), 1.0), ("float64", lambda a: a * 0.3, 0.3), ("float32", lambda a: (a / 8).astype(np.float32), 0.125), ("list", lambda a: [0.7 * t for t in a], 0.7), ("int8", lambda a: a.astype(np.int8), 1.0)):
                Tm = Toeplitz(cf(np.array(c)), rf(R))
                Dm = dense(cv * np.array(c), rv * R)
                y = Tm @ vs[-1]
                ctx.op()
                ctx.check(near(y, Dm @ vs[-1], 1e-10 * sc * max(1, np.abs(V).max())), lambda: f"{what}: column as {cn} ({cv} times), row as {rn} ({rv} times): product {y}, dense matrix {Dm @ vs[-1]}")
    T32 = Toeplitz(np.array(c), dtype=np.float32) if r is None else Toeplitz(np.array(c), np.array(r), dtype=np.float32)
    y = T32 @ vs[-1].astype(np.float32)
    ctx.check(y.dtype == np.float32 and near(y, D @ vs[-1], 1e-5 * sc * max(1, np.abs(V).max()) * n), lambda: f"{what}: single precision gives {y} ({y.dtype})")
    ctx.state(c, r)
