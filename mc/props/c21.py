"""C21: built-in spectral functions."""
import itertools, math
import numpy as np
from mc.core import raises
from mc.lib import near

RULE = ("all function names x parameter grid x argument grid (boundaries, out of range, tiny, huge) x vector lengths and positions x call "
        "forms (named, direct, deferred), compared with scalar reference formulas; monotone range and limits of smoothstep and soft-sign")
ASSUMPTIONS = ["arguments are vectors (1-D arrays), as the operators pass them"]
EXTS = ()
GRID = [-3.0, -1.0, -0.999999, -0.5, -1e-6, -1e-9, 0.0, 1e-17, 1e-15, 1e-12, 1e-9, 5e-7, 1e-6, 2e-6, 0.25, 0.5, 0.75, 1.0, 1.0000001, 2.0, 10.0]
WIDE = [-1e12, -3e4, -700.5, -200.0, -45.5, -18.25, -3.75, -1.0, -1 / 3, 0.1, 1 / 3, 0.9, 1.0, 3.75, 18.25, 45.5, 200.0, 230.25, 1e3, 3e4, 1e12]
EPS = np.finfo(np.float64).eps


def soft(x, q):
    x = max(-1.0, min(1.0, x))
    s, c = 0.0, 1.0
    for i in range(q + 1):
        if i:
            c *= (2 * i - 1) / (2 * i)
        s += x * (1 - x * x) ** i * c
    return s


def smooth(x, a, b):
    d = (b - a) if a != b else 1.0
    y = max(0.0, min(1.0, (x - a) / d))
    return 3 * y * y - 2 * y ** 3


REFS = {
    "identity": ([{}], lambda x: x),
    "abs": ([{}], abs),
    "sqrt": ([{}], lambda x: math.sqrt(x) if x >= 0 else math.nan),
    "log": ([{}], lambda x: math.log(max(x, EPS))),
    "inv": ([{}], lambda x: math.inf if x == 0 else 1 / x),
    "exp": ([{}] + [dict(t=t) for t in (-1.0, 0.0, 0.5, 1.0, 3.0)], lambda x, t=1.0: math.exp(t * x)),
    "smoothstep": ([{}] + [dict(a=a, b=b) for a, b in ((0.0, 1.0), (-1.0, 1.0), (0.25, 0.75), (0.5, 0.5), (-2.0, -1.0), (1.0, 0.0), (2.0, -1.0))] + [dict(a=-1.0), dict(b=2.0)], lambda x, a=0.0, b=1.0: smooth(x, a, b)),
    "softsign": ([{}] + [dict(q=q) for q in (0, 1, 2, 5, 10, 20, 40, 100)], lambda x, q=10: soft(x, q)),
    "numrank": ([{}] + [dict(threshold=t) for t in (1e-6, 1e-9, 0.5, 1.0)], lambda x, threshold=1e-6: 0.0 if abs(x) < threshold else 1.0),
}


def cases(tier):
    for name, (ps, _) in REFS.items():
        for i in range(len(ps)):
            for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
                yield dict(name=name, p=i, n=n)
            yield dict(name=name, p=i, n=len(GRID))
            for n in (32, 64, 65, 100, 257, 1000, 1030, 5000):
                yield dict(name=name, p=i, n=n)
            yield dict(name=name, p=i, wide=1)
    yield dict(direct=1)
    yield dict(shape=1)
    yield dict(rej=1)


def same(got, exp):
    got, exp = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
    return got.shape == exp.shape and np.allclose(got, exp, rtol=1e-10, atol=1e-12, equal_nan=True)


def run(ctx, case):
    from primate import special as S
    if "rej" in case:
        ctx.op()
        for bad in ("bogus", "", "Exp", "identity ", "step"):
            ctx.check(raises(S.param_callable, bad), lambda: f"name {bad!r} accepted")
        for bad in (3, 2.5, [1]):
            ctx.check(raises(S.param_callable, bad), lambda: f"{bad!r} accepted")
        ctx.check(raises(S.smoothstep, np.ones(2), deg=2), "even smoothstep degree accepted")
        f = lambda x: x + 1
        ctx.check(S.param_callable(f) is f, "a callable is not passed through")
        ctx.check(S.param_callable(None)(3.5) == 3.5, "no function is not the identity")
        return
    x = np.array(GRID)
    if "direct" in case:
        for q in (0, 1, 3, 10):
            e = [soft(t, q) for t in GRID]
            ctx.op(2)
            ctx.check(same(S.softsign(x, q=q), e) and same(S.softsign(q=q)(x), e), lambda: f"softsign q={q}: {S.softsign(x, q=q)} expected {e}")
        ctx.check(same(S.softsign(x), [soft(t, 1) for t in GRID]), "softsign default")
        for a, b in ((0.0, 1.0), (-1.0, 2.0), (0.5, 0.5), (1.0, -0.5)):
            e = [smooth(t, a, b) for t in GRID]
            ctx.op(2)
            ctx.check(same(S.smoothstep(x, a=a, b=b), e) and same(S.smoothstep(a=a, b=b)(x), e), lambda: f"smoothstep {a},{b}")
        ctx.check(same(S.smoothstep(x), [smooth(t, 0, 1) for t in GRID]), "smoothstep default")
        for t in (0.0, 1.0, -2.0):
            e = [math.exp(t * u) for u in GRID]
            ctx.op(2)
            ctx.check(same(S.exp(x, t=t), e) and same(S.exp(t=t)(x), e), lambda: f"exp t={t}")
        ctx.check(same(S.exp(x), [math.exp(u) for u in GRID]), "exp default")
        for c in (0.0, 0.5, -1.0, 1e-6):
            for nn in (False, True):
                e = [0.0 if (abs(u) if nn else u) < c else 1.0 for u in GRID]
                ctx.op(2)
                ctx.check(same(S.step(x, c=c, nonnegative=nn), e) and same(S.step(c=c, nonnegative=nn)(x), e), lambda: f"step c={c} nonnegative={nn}")
        ctx.check(same(S.step(x), [0.0 if u < 0 else 1.0 for u in GRID]), "step default")
        ctx.check(S.identity(x) is x or same(S.identity(x), GRID), "identity")
        ctx.trace()
        return
    if "shape" in case:
        for q in (0, 1, 2, 5, 10, 30, 64, 130):
            t = np.linspace(-1.5, 1.5, 601)
            y = S.softsign(t, q=q)
            ctx.op()
            ctx.check(np.all(np.diff(y) >= -1e-12) and near(y, -y[::-1], 1e-12) and np.all(np.abs(y) <= 1 + 1e-12), lambda: f"softsign q={q} is not monotone/odd/bounded")
            ctx.check(near(S.softsign(np.array([-5.0, -1.0, 0.0, 1.0, 5.0]), q=q), np.array([-1.0, -1.0, 0.0, 1.0, 1.0]), 1e-12), lambda: f"softsign q={q} limits")
        last = None
        for q in (1, 5, 20, 100):  # converges to sgn
            err = abs(1 - S.softsign(np.array([0.3]), q=q)[0])
            ctx.check(last is None or err < last, lambda: f"softsign does not approach the sign function: q={q} error {err}")
            last = err
        for a, b in ((0.0, 1.0), (-1.0, 3.0), (0.2, 0.3)):
            t = np.linspace(a - 1, b + 1, 601)
            y = S.smoothstep(t, a=a, b=b)
            ctx.op()
            ctx.check(np.all(np.diff(y) >= -1e-12) and y.min() == 0.0 and y.max() == 1.0, lambda: f"smoothstep {a},{b} is not monotone from 0 to 1")
            ctx.check(near(S.smoothstep(np.array([a, (a + b) / 2, b]), a=a, b=b), np.array([0.0, 0.5, 1.0]), 1e-12), lambda: f"smoothstep {a},{b} limits")
            y0 = S.smoothstep(t, a=a, b=b)
            for k in (-300, -60, -40, -30, -20, -10, -3, 3, 10, 30, 60, 300):  # in any units
                u = 2.0 ** k
                ctx.op()
                for y in (S.smoothstep(u * t, a=u * a, b=u * b), S.smoothstep(a=u * a, b=u * b)(u * t), S.param_callable("smoothstep", a=u * a, b=u * b)(u * t)):
                    ctx.check(near(y, y0, 1e-12), lambda: f"smoothstep {a},{b} in units of 2^{k}: off by {np.abs(y - y0).max()}")
                for nn in (False, True):
                    ctx.check(np.array_equal(S.step(u * t, c=u * b, nonnegative=nn), S.step(t, c=b, nonnegative=nn)), lambda: f"step {b} in units of 2^{k}")
                ctx.check(np.array_equal(S.param_callable("numrank", threshold=u * b)(u * t), S.step(t, c=b, nonnegative=True)), lambda: f"numrank {b} in units of 2^{k}")
                ctx.check(near(S.exp(u * t, t=1.5 / u), np.exp(1.5 * t), 1e-12 * np.exp(1.5 * (b + 1))), lambda: f"exp in units of 2^{k}")
        ctx.trace()
        return
    name, n = case["name"], case.get("n")
    kw = REFS[name][0][case["p"]]
    ref = REFS[name][1]
    f = S.param_callable(name, **dict(kw))
    if "wide" in case:  # far outside the unit interval, in double and single precision, and as whole numbers
        g = [t for t in WIDE if name != "exp" or abs(t * kw.get("t", 1.0)) < 700]
        for arr, rt in ((np.array(g), 1e-10), (np.array(g, dtype=np.float32), 2e-6), (np.array([int(t) for t in g if t == int(t)] + [0, 2, 5] if name != "inv" else [1, -1]), 1e-10)):
            if name == "exp" and arr.dtype == np.float32:
                arr = arr[np.abs(arr * kw.get("t", 1.0)) < 85]
            for k in range(len(arr)):
                for x in (arr[k:k + 1], arr[k:k + 3], np.roll(arr, k), np.tile(np.roll(arr, k), 20)):
                    keep = x.copy()
                    y = np.asarray(f(x), dtype=float)
                    e = np.array([ref(float(t), **kw) for t in x])
                    tol = rt * (4 * max(1.0, np.max(np.abs(np.log(np.abs(np.where(e == 0, 1.0, e)))))) if name == "exp" and rt > 1e-9 else 1)
                    if name == "log" and rt > 1e-9:  # the floor under the argument is the machine epsilon of its precision
                        y, e = y[x > 1e-3], e[x > 1e-3]
                    ctx.op()
                    ctx.check(y.shape == e.shape and np.allclose(y, e, rtol=tol, atol=tol if rt > 1e-9 else 1e-12, equal_nan=True), lambda: f"{name}{kw}({x[:21].tolist()} {x.dtype}) = {y[:21]}, expected {e[:21]}")
                    ctx.check(np.array_equal(x, keep), lambda: f"{name} modified its argument")
            ctx.trace()
        ctx.state(name, case["p"], "wide")
        return
    table = [ref(t, **kw) for t in GRID]
    if n > len(GRID):
        words = [tuple((i * i + s * i + i // 7) % len(GRID) for i in range(n)) for s in range(6)] + [(s,) * n for s in range(len(GRID))]
    elif n == len(GRID):
        words = [tuple(range(n)), tuple(reversed(range(n)))]
    elif n <= 2:
        words = itertools.product(range(len(GRID)), repeat=n)
    else:
        words = itertools.product(range(0, len(GRID), 2 if n == 3 else 4), repeat=n)
    for w in words:
        x = np.array([GRID[i] for i in w])
        k = x.copy()
        y = f(x)
        ctx.op()
        e = np.array([table[i] for i in w])
        ctx.check(same(y, e), lambda: f"{name}{kw}({x.tolist()}) = {y}, expected {e}")
        ctx.check(np.array_equal(x, k), lambda: f"{name} modified its argument")
        y2 = S.param_callable(name, **dict(kw))(x)
        ctx.check(same(y2, e), lambda: f"{name}{kw}: a second function object gives {y2}")
        ctx.trace()
    ctx.state(name, case["p"], n)
