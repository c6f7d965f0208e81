"""C11: tridiagonal eigensolver."""
import itertools
import numpy as np
from mc.core import raises
from mc.lib import near

RULE = ("all diagonal words x off-diagonal words over the alphabets (with zero, negative, repeated entries) up to the size bound, longer "
        "structured matrices, the same matrices scaled by powers of two, x methods x input forms (off-diagonal with and without the leading zero): eigenvalues with multiplicity, "
        "orthonormality, residual, unmodified inputs")
ASSUMPTIONS = ["eigenvalues of the reference from numpy's dense symmetric solver", "agreement 1e-9 relative to the norm of the matrix"]
EXTS = ("tqli", "fttr", "_lanczos")
DV, EV = (-1.0, 0.0, 2.0), (-1.0, 0.0, 0.5, 2.0)


def cases(tier):
    th = tier == "thorough"
    N = 5 if th else 4
    for n in range(1, N + 1):
        dv = DV if n < 5 else DV[1:]
        ev = EV if n < 5 else EV[:3]
        for d in itertools.product(dv, repeat=n):
            for e in itertools.product(ev, repeat=n - 1):
                yield dict(d=d, e=e)
                if n <= (4 if th else 3):
                    for k in (-120, -40, 30, 200):  # the same matrix in other units
                        yield dict(d=d, e=e, scale=k)
    for n in (6, 10, 17, 30) + ((60, 150, 300, 620, 1030) if th else (60, 100, 300, 620)):
        for name in range(11) if n < 600 else (0, 1):
            yield dict(n=n, name=name)
            for k in (-120, -40, 30, 200):
                if n <= 17 or th:
                    yield dict(n=n, name=name, scale=k)
    yield dict(rej=True)


def struct(n, k):
    i = np.arange(n, dtype=float)
    if k == 0:
        return np.full(n, 2.0), np.full(n - 1, -1.0)
    if k == 1:
        return np.abs(i - n // 2), np.ones(n - 1)  # Wilkinson
    if k == 2:
        return np.zeros(n), np.sqrt(i[1:])
    if k == 3:
        return np.ones(n), np.where(i[1:] % 3 == 0, 0.0, 1.0)
    if k == 4:
        return 10.0 ** (-(i % 7)), 10.0 ** (-(i[1:] % 5))
    if k == 5:
        return 1e6 * np.ones(n), 1e-3 * np.ones(n - 1)
    if k == 6:
        return np.zeros(n), np.zeros(n - 1)
    if k == 8:
        return np.cos(i), 1e-7 * (1.0 + i[1:] % 3)
    if k == 10:
        return np.zeros(n), np.full(n - 1, 1e-9)
    if k == 9:
        return np.where(i < n // 2, 1e-6, 1.0) * (1 + i % 11), np.where(i[1:] < n // 2, 1e-7, 1e-3)
    return np.where(i % 2 == 0, 1.0, -1.0) * 2.0 ** (i % 9), 3.0 ** -(i[1:] % 6)


def run(ctx, case):
    from primate.tridiag import eigh_tridiag, eigvalsh_tridiag
    if "rej" in case:
        ctx.op()
        for f in (eigh_tridiag, eigvalsh_tridiag):
            ctx.check(raises(f, np.ones(3), np.ones(2), method="bogus"), "unknown method accepted")
            for k in (0, 1, 4, 5):
                ctx.check(raises(f, np.ones(3), np.ones(k)), lambda: f"off-diagonal of length {k} accepted for 3 diagonal entries")
        return
    d, e = (np.array(case["d"]), np.array(case["e"])) if "d" in case else struct(case["n"], case["name"])
    n = len(d)
    s = 2.0 ** case.get("scale", 0)
    d, e = d * s, e * s
    T = np.diag(d) + np.diag(e, 1) + np.diag(e, -1)
    w = np.linalg.eigvalsh(T / s) * s
    sc = max(s if case.get("name") != 10 else 0.0, np.max(np.abs(T)))
    for method in ("auto", "mrrr", "tqli"):
        res = []
        for form in (0, 1):
            ee = np.append([0.0], e) if form else e.copy()
            dd = d.copy()
            kd, ke = dd.copy(), ee.copy()
            r0 = eigvalsh_tridiag(dd, ee, method=method)
            r, Y = eigh_tridiag(dd, ee, method=method)
            ctx.op(2)
            what = f"d={list(d)} e={list(e)} method={method} form={form}"
            ctx.check(np.array_equal(dd, kd) and np.array_equal(ee, ke), lambda: f"{what}: inputs modified to {dd}, {ee}")
            r0, r, Y = np.asarray(r0), np.asarray(r), np.asarray(Y)
            ctx.check(r0.shape == (n,) and r.shape == (n,) and Y.shape == (n, n), lambda: f"{what}: shapes {r0.shape} {r.shape} {Y.shape}")
            tol = 1e-9 * sc
            ctx.check(near(np.sort(r0), w, tol), lambda: f"{what}: eigvalsh_tridiag gives {r0}, eigenvalues are {w}")
            ctx.check(near(np.sort(r), w, tol), lambda: f"{what}: eigh_tridiag gives {r}, eigenvalues are {w}")
            ctx.check(near(Y.T @ Y, np.eye(n), 1e-9), lambda: f"{what}: eigenvectors are not orthonormal")
            ctx.check(near(T @ Y, Y * r, tol * 10), lambda: f"{what}: residual {np.max(np.abs(T @ Y - Y * r))}")
            res.append((r0, r, Y))
        ctx.check(near(res[0][0], res[1][0], 1e-9 * sc) and near(res[0][1], res[1][1], 1e-9 * sc),
                  lambda: f"d={list(d)} e={list(e)} method={method}: the two input forms give different results")
        ctx.trace()
    ctx.state(tuple(d), tuple(e))
