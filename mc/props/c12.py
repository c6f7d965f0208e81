"""C12: Gauss quadrature of Jacobi matrices."""
import itertools
from fractions import Fraction
import numpy as np
from mc.core import raises
from mc.lib import near

RULE = ("all Jacobi matrices over the alphabets up to the size bound (incl. zero and negative off-diagonals) plus structured ones to n=80, x all degrees x "
        "methods x input forms x output arrays: nodes = eigenvalues of the leading block, weights non-negative with sum one, moments "
        "e1'T^j e1 for all j <= 2k-1")
ASSUMPTIONS = ["nodes carrying zero weight may be reported in any order", "agreement 1e-8 relative", "fttr, documented as unstable, only up to n=14 and, except for weights a perturbation of the node by 4 ulp leaves alone, without weak couplings"]
EXTS = ("tqli", "fttr", "_lanczos")
DV, EV = (-1.0, 0.0, 1.5), (0.0, 0.5, 2.0)


def cases(tier):
    N = 5 if tier == "thorough" else 4
    for n in range(1, N + 1):
        dv = DV if n < 5 else DV[1:]
        for d in itertools.product(dv, repeat=n):
            for e in itertools.product(EV, repeat=n - 1):
                yield dict(d=d, e=e)
    for n in (2, 3, 4) + ((5,) if tier == "thorough" else ()):  # couplings of mixed sign
        for d in itertools.product((-1.0, 1.5), repeat=n):
            for e in itertools.product((-2.0, 0.5, -0.5), repeat=n - 1):
                if min(e) < 0:
                    yield dict(d=d, e=e)
    for n in (6, 9, 14, 40, 80, 150, 300):
        for k in range(6):
            yield dict(n=n, name=k)
    for n in (1, 2, 3):  # in other units
        for d in itertools.product((-1.0, 0.0, 1.5), repeat=n):
            for e in itertools.product((0.5, 1.0, 2.0), repeat=n - 1):
                for u in (2.0 ** -100, 2.0 ** -47, 2.0 ** 47, 2.0 ** 100):
                    yield dict(d=d, e=e, u=u)
    for n in (6, 14, 40):
        for k in range(5):
            for u in (2.0 ** -60, 2.0 ** 60):
                yield dict(n=n, name=k, u=u)
    for n in range(2, 7):
        for g in (1, 4, 10):
            for k in range(1, 8):
                yield dict(faint=(n, g, k))
    yield dict(rej=True)


def struct(n, k):
    i = np.arange(1, n, dtype=float)
    if k == 0:
        return np.zeros(n), i / np.sqrt(4 * i * i - 1)  # Legendre
    if k == 1:
        b = np.full(n - 1, 0.5)
        b[0] = np.sqrt(0.5)
        return np.zeros(n), b  # Chebyshev
    if k == 2:
        return 2 * np.arange(n) / n + 1.0, np.sqrt(i) / n
    if k == 3:
        return np.full(n, 2.0), np.full(n - 1, 1.0)
    if k == 4:
        return np.where(np.arange(n) % 2 == 0, 1.0, -0.5), 0.3 * (-1.0) ** (np.arange(n - 1) // 2)
    return 1.0 + np.arange(n) % 3, np.where(i % 3 == 0, 1e-5, 1.0)  # weak couplings


def weight(d, e, x):
    """1 / sum of squares of the orthonormal polynomials at x, in exact arithmetic."""
    p, s = [Fraction(1)], Fraction(1)
    for i in range(1, len(d)):
        q = (x - Fraction(d[i - 1])) * p[-1] - (Fraction(e[i - 2]) * p[-2] if i > 1 else 0)
        p.append(q / Fraction(e[i - 1]))
        s += p[-1] ** 2
    return 1 / s


def faint(ctx, n, g, k):
    """The recurrence gives weights of any size to relative accuracy, wherever the node determines them."""
    from primate.integrate import quadrature
    for sg in (1.0, -1.0):
        d, e = g * np.arange(n, dtype=float) * sg, np.full(n - 1, 10.0 ** -k)
        theta, tau = quadrature(d, e, quad="fttr")
        theta, tau = np.array(theta, dtype=float), np.array(tau, dtype=float)
        ctx.op(n)
        for t, w in zip(theta, tau):
            x = Fraction(float(t))
            u = Fraction(2.0 ** -50) * max(abs(x), 1)
            ws = [weight(d, e, y) for y in (x, x - u, x + u)]
            if max(ws) - min(ws) > Fraction(1, 10 ** 6) * ws[0]:
                ctx.outcome("weight not determined by the node")
                continue
            ctx.outcome("weight determined by the node")
            ctx.check(abs(w - float(ws[0])) <= 1e-4 * float(ws[0]), lambda: f"d={d.tolist()} e={e.tolist()} fttr: weight {w} at node {t}, the recurrence gives {float(ws[0])}")
        ctx.trace()
    ctx.state("faint", n, g, k)


def run(ctx, case):
    from primate.integrate import quadrature
    if "rej" in case:
        ctx.op()
        for q in ("bogus", "", "simpson"):
            ctx.check(raises(quadrature, np.ones(3), np.ones(2), quad=q), lambda: f"method {q!r} accepted")
        ctx.check(raises(quadrature, np.ones(3), np.ones(3)), "off-diagonal with a non-zero leading entry accepted")
        ctx.check(raises(quadrature, np.ones(3), np.ones(2), nodes=np.zeros(2), weights=np.zeros(3)), "output array of wrong length accepted")
        ctx.check(raises(quadrature, np.ones(3), np.ones(2), deg=2, nodes=np.zeros(3), weights=np.zeros(3)), "output array of wrong length accepted")
        return
    if "faint" in case:
        return faint(ctx, *case["faint"])
    d, e = (np.array(case["d"]), np.array(case["e"])) if "d" in case else struct(case["n"], case["name"])
    n, u = len(d), case.get("u", 1.0)
    T = np.diag(d) + np.diag(e, 1) + np.diag(e, -1)
    for k in (list(range(1, n + 1)) if n < 20 else sorted({1, 2, 3, 17, 33, 64, 65, 129, 257, n - 1, n} & set(range(n + 1)))) + [None, n + 3]:
        kk = n if k is None else min(k, n)
        Tk = T[:kk, :kk]
        w = np.linalg.eigvalsh(Tk)
        sc = max(1.0, np.linalg.norm(Tk, 2))
        mom, x = [], np.eye(n)[0]  # moments in units of the norm
        for j in range(2 * kk):
            mom.append(x[0])
            x = (T / sc) @ x
        for quad in ("gw", "golub_welsch", "fttr") if (n < 20 and case.get("name") != 5) or (case.get("name") in (0, 1) and n <= 150) else ("gw", "golub_welsch"):
            for form in (0, 1):
                ee = np.append([0.0], e) if form else e.copy()
                ee, dd = ee * u, d * u
                kd, ke = dd.copy(), ee.copy()
                what = f"d={list(d)} e={list(e)} deg={k} quad={quad} form={form} times {u}"
                th, ta = quadrature(dd, ee, deg=k, quad=quad) if k is not None else quadrature(dd, ee, quad=quad)
                nodes, weights = np.full(kk, np.nan), np.full(kk, np.nan)
                quadrature(dd, ee, deg=k, quad=quad, nodes=nodes, weights=weights)
                ctx.op(2)
                ctx.check(np.array_equal(dd, kd) and np.array_equal(ee, ke), lambda: f"{what}: inputs modified")
                th, ta = np.array(th), np.array(ta)
                for out in ("nodes", "weights"):
                    o = np.full(kk, np.nan)
                    r = quadrature(dd, ee, deg=k, quad=quad, **{out: o})
                    ctx.check(np.array_equal(o, r[out == "weights"]) and np.array_equal(r[0], th) and np.array_equal(r[1], ta), lambda: f"{what}, only {out} given: array {o}, result {r}, without {th}, {ta}")
                ctx.check(th.shape == (kk,) and ta.shape == (kk,), lambda: f"{what}: {th.shape} nodes, {ta.shape} weights")
                ctx.check(np.array_equal(nodes, th) and np.array_equal(weights, ta), lambda: f"{what}: output arrays {nodes}, {weights} differ from the result {th}, {ta}")
                th = th / u
                ctx.check(near(np.sort(th), w, 1e-8 * sc), lambda: f"{what}: nodes {th}, eigenvalues of the leading block {w}")
                ctx.check(np.all(ta >= -1e-12) and abs(ta.sum() - 1) < 1e-8, lambda: f"{what}: weights {ta}")
                for j in range(2 * kk):
                    got = float(np.sum(ta * (th / sc) ** j))
                    ctx.check(abs(got - mom[j]) <= 1e-7, lambda: f"{what}: moment {j} (relative to the norm) is {got}, expected {mom[j]}")
                ctx.trace()
    ctx.state(tuple(d), tuple(e))
