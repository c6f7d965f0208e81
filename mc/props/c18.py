"""C18: matrix-function operators are history independent."""
import itertools
import numpy as np
from mc.lib import chain, near, struct_family, vec_family

RULE = ("all operation sequences up to the depth over {matvec, @, block @, quad, block quad, change of function} x vectors (incl. invariant and "
        "zero, tiny and huge vectors) on one operator, plus every ordered pair of operations repeated 15 times, for every operator configuration (matrix, degree, re-orthogonalisation, precision): every result equals "
        "that of a freshly built operator, and no result handed out earlier changes; also every ordered pair of functions (agreeing at one or zero, sharing code or name, changed in place) x products (matvec, @, rmatvec, .T, .H, matmat, rmatmat, quad); after inputs are refilled in place and after every ordered pair of a failed (wrong length, NaN, infinite, failing function, operator failing at its k-th product) and a good call, and after refused changes of the function")
ASSUMPTIONS = ["agreement 1e-9 relative (1e-4 single precision)"]
EXTS = ("tqli", "fttr", "_lanczos")
F = [lambda x: np.exp(0.3 * x), lambda x: x ** 2 - 1.0]


def configs(tier):
    out = []
    for n, name in ((3, "lap"), (4, "proj"), (4, "path"), (3, "rank1"), (5, "arrow")) + (((5, "invol"), (2, "antidiag"), (4, "hilb")) if tier == "thorough" else ()):
        for deg, orth in ((2, 0), (3, 3), (n, 0), (n, n)):
            if deg <= n:
                out.append((n, name, deg, orth, "f8"))
    out.append((4, "path", 4, 4, "f4"))
    out.append((4, "proj", 3, 0, "f4"))
    out += [(12, "zerodiag", 5, 0, "f8"), (24, "faint", 24, 24, "f8"), (70, "mixed", 8, 3, "f8"), (130, "zerodiag", 4, 2, "f4")]
    return sorted(set(out))


OPS = ["mv0", "mv1", "mv2", "mvz", "blk", "q0", "q1", "qblk", "mvt", "qh", "f0", "f1"]


def cases(tier):
    dep = 4 if tier == "thorough" else 3
    for c in configs(tier):
        yield dict(cfg=c, inplace=1)
        yield dict(cfg=c, broken=1)
        yield dict(cfg=c, rejected=1)
        for a in range(15):
            yield dict(cfg=c, funs=a, th=tier == "thorough")
        for first in OPS:
            for second in OPS:
                yield dict(cfg=c, pre=[first, second], dep=dep - 2 if c[0] < 50 else 1)
                if first != second:
                    yield dict(cfg=c, pre=[first, second] * 15, dep=0)


def inplace(ctx, case):
    """One array object refilled between the calls."""
    from primate.operators import MatrixFunction
    n, name, deg, orth, dts = case["cfg"]
    dt = np.dtype(dts)
    A = (struct_family(n)[name] if n < 12 else chain(n, name)[0]).astype(dt)
    tol = 1e-9 if dt == np.float64 else 1e-4
    src = [v.astype(dt) for v in vectors(n)]
    calls = {"mv": lambda M, x: M.matvec(x), "@": lambda M, x: M @ x, "q": lambda M, x: M.quad(x), "blk": lambda M, x: M @ x.reshape(n, -1), "qb": lambda M, x: M.quad(x.reshape(n, -1)), "mm": lambda M, x: M.matmat(x.reshape(n, -1))}
    for c1, c2 in itertools.product(calls, repeat=2):
        for i, j in itertools.permutations(range(len(src)), 2):
            M = MatrixFunction(A, fun=F[0], deg=deg, orth=orth, dtype=dt)
            x = src[i].copy()
            y1 = calls[c1](M, x)
            k1 = np.array(y1)
            x[:] = src[j]
            y2 = calls[c2](M, x)
            e = calls[c2](MatrixFunction(A, fun=F[0], deg=deg, orth=orth, dtype=dt), src[j].copy())
            ctx.op(2)
            ctx.check(np.shape(y2) == np.shape(e) and near(y2, e, tol * max(1.0, np.abs(e).max())), lambda: f"{case['cfg']}: {c2} on an array refilled after {c1} gives {y2}, on a fresh array and operator {e}")
            ctx.check(np.array_equal(y1, k1) and np.array_equal(x, src[j]), lambda: f"{case['cfg']}: {c1} then {c2} on one refilled array: earlier result or the array itself modified")
        ctx.trace()
        ctx.state(tuple(case["cfg"]), c1, c2, "inplace")


class Flaky:
    """Matrix-free operator that fails on demand."""

    def __init__(self, A):
        self.A, self.shape, self.dtype, self.left = A, A.shape, A.dtype, None

    def matvec(self, x):
        if self.left is not None:
            if self.left == 0:
                self.left = None
                raise RuntimeError("operator failed")
            self.left -= 1
        return self.A @ x

    __matmul__ = matvec


def broken(ctx, case):
    """Calls that fail (wrong length, failing function, failing operator at every product) or bring NaN leave nothing behind."""
    from primate.operators import MatrixFunction
    n, name, deg, orth, dts = case["cfg"]
    dt = np.dtype(dts)
    A = (struct_family(n)[name] if n < 12 else chain(n, name)[0]).astype(dt)
    tol = 1e-9 if dt == np.float64 else 1e-4
    src = [v.astype(dt) for v in vectors(n)]
    calls = {"mv": lambda M, x: M.matvec(x), "q": lambda M, x: M.quad(x), "blk": lambda M, x: M @ np.column_stack([x, src[0]]), "qb": lambda M, x: M.quad(np.column_stack([x, src[0]]))}

    fail = [False]

    def fun(t):
        if fail[0]:
            raise ValueError("function failed")
        return F[0](t)

    def attempt(g, *a):
        try:
            g(*a)
            return "no error"
        except Exception as e:
            return type(e).__name__

    def bad(M, op, kind, call, x):
        if kind == "nan":
            y = x.copy()
            y[n // 2] = np.nan
            return attempt(call, M, y)
        if kind == "inf":
            y = x.copy()
            y[-1] = np.inf
            return attempt(call, M, y)
        if kind == "length":
            return attempt(call, M, np.ones(n + 1, dtype=dt))
        if kind == "function":
            fail[0] = True
            r = attempt(call, M, x)
            fail[0] = False
            return r
        op.left = kind
        r = attempt(call, M, x)
        op.left = None
        return r

    for kind in ["nan", "inf", "length", "function"] + list(range(min(deg, 6))):
        for c1, c2 in itertools.product(calls, repeat=2):
            op = Flaky(A)
            M = MatrixFunction(op, fun=fun, deg=deg, orth=orth, dtype=dt)
            for i, j in itertools.product(range(len(src)), repeat=2):
                with np.errstate(all="ignore"):
                    r = bad(M, op, kind, calls[c1], src[i])
                ctx.outcome(f"{kind}: {r}")
                y = calls[c2](M, src[j])
                e = calls[c2](MatrixFunction(A, fun=F[0], deg=deg, orth=orth, dtype=dt), src[j])
                ctx.op(2)
                ctx.check(np.shape(y) == np.shape(e) and near(y, e, tol * max(1.0, np.abs(e).max())), lambda: f"{case['cfg']}: {c2} after a failed {c1} ({kind}, {r}) gives {y}, a fresh operator {e}")
            ctx.state(tuple(case["cfg"]), str(kind), c1, c2)
        ctx.trace()


class Power:
    """Callable object whose behaviour the caller changes between the calls."""

    def __init__(self, p):
        self.p = p

    def __call__(self, x):
        return np.abs(x) ** self.p

    def method(self, x):
        return np.abs(x) ** self.p - 0.5


def funs(ctx, case):
    """Any two functions and any two forms of product in a row; functions that agree at one, at zero or in name, share their code, or are changed in place."""
    from primate.operators import MatrixFunction
    n, name, deg, orth, dts = case["cfg"]
    dt = np.dtype(dts)
    A = (struct_family(n)[name] if n < 12 else chain(n, name)[0]).astype(dt)
    tol = 1e-9 if dt == np.float64 else 1e-4

    def mk(c):
        return lambda x: x * c + 1.0 - c
    live = Power(1)
    two = Power(2)
    FF = [lambda x: x, np.square, lambda x: x ** 3, np.abs, np.ones_like, lambda x: 0.0 * x, mk(2.0), mk(3.0), two, two.method, Power(3).method, np.exp, ("live", 1), ("live", 2), ("live", 3)]
    src = [v.astype(dt) for v in vectors(n)][:3]
    calls = {"mv": lambda M, x: M.matvec(x), "@": lambda M, x: M @ x, "rmv": lambda M, x: M.rmatvec(x), "T": lambda M, x: M.T @ x, "H": lambda M, x: M.H @ x, "mm": lambda M, x: M.matmat(np.column_stack([x, src[0]])),
             "rmm": lambda M, x: M.rmatmat(np.column_stack([x, src[0]])), "q": lambda M, x: M.quad(x), "call": lambda M, x: M(x), "dot": lambda M, x: M.dot(x)}
    plain = {"mv": "mv", "@": "mv", "rmv": "mv", "T": "mv", "H": "mv", "call": "mv", "dot": "mv", "mm": "mm", "rmm": "mm", "q": "q"}
    exp = {}

    def put(M, f):
        if isinstance(f, tuple):
            live.p = f[1]
            if M.fun is not live:
                M.fun = live
        else:
            M.fun = f

    def expect(i, c, j):
        key = (i, plain[c], j)
        if key not in exp:
            f = FF[i]
            if isinstance(f, tuple):
                f = Power(f[1])
            exp[key] = np.array(calls[plain[c]](MatrixFunction(A, fun=f, deg=deg, orth=orth, dtype=dt), src[j].copy()))
        return exp[key]
    a = case["funs"]
    for b in range(len(FF)):
        if a == b or n > 12 and (a + b) % 5:
            continue
        for (i1, c1), (i2, c2) in itertools.product(enumerate(calls), repeat=2):
            if n > 3 and not case["th"] and (a + 2 * b + i1 + 3 * i2) % 4:  # every pair of functions meets every pair of products up to n = 3, every product beyond
                continue
            M = MatrixFunction(A, deg=deg, orth=orth, dtype=dt)
            for t, (f, c, j) in enumerate(((a, c1, 0), (b, c2, 1), (a, c2, 2))):
                put(M, FF[f])
                y, e = calls[c](M, src[j].copy()), expect(f, c, j)
                ctx.op()
                ctx.check(np.shape(y) == e.shape and near(y, e, tol * max(1.0, np.abs(e).max())), lambda: f"{case['cfg']}: step {t} of function {a} {c1}, function {b} {c2}, function {a} {c2} gives {y}, a fresh operator {e}")
            ctx.trace()
        ctx.state(tuple(case["cfg"]), a, b, "funs")


def rejected(ctx, case):
    """A change of function that is refused (not callable, wrong shape or type, raising) leaves the operator as it was."""
    from primate.operators import MatrixFunction
    n, name, deg, orth, dts = case["cfg"]
    dt = np.dtype(dts)
    A = (struct_family(n)[name] if n < 12 else chain(n, name)[0]).astype(dt)
    tol = 1e-9 if dt == np.float64 else 1e-4
    src = [v.astype(dt) for v in vectors(n)][:3]

    def boom(x):
        raise RuntimeError("no")
    invalid = {"None": None, "number": 3.0, "array": np.ones(n), "short": lambda x: x[:1], "long": lambda x: np.append(x, x), "scalar": lambda x: 1.0, "list": lambda x: list(x), "nothing": lambda x: None, "raises": boom, "unknown name": "no such function", "empty": lambda x: x[:0], "sum": lambda x: np.sum(x)}
    calls = {"mv": lambda M, x: M.matvec(x), "@": lambda M, x: M @ x, "rmv": lambda M, x: M.rmatvec(x), "T": lambda M, x: M.T @ x, "mm": lambda M, x: M.matmat(np.column_stack([x, src[0]])), "q": lambda M, x: M.quad(x), "qb": lambda M, x: M.quad(np.column_stack([x, src[0]]))}
    for used in (False, True):
        for (i, f), (bn, b), (c, call) in itertools.product(enumerate(F), invalid.items(), calls.items()):
            M = MatrixFunction(A, fun=f, deg=deg, orth=orth, dtype=dt)
            if used:
                calls["mv"](M, src[0])
            try:
                M.fun = b
            except Exception as e:
                ctx.outcome(f"{bn}: {type(e).__name__}")
            else:
                ctx.outcome(f"{bn}: accepted")
                continue
            y, e = call(M, src[1].copy()), call(MatrixFunction(A, fun=f, deg=deg, orth=orth, dtype=dt), src[1].copy())
            ctx.op(2)
            ctx.check(np.shape(y) == np.shape(e) and near(y, e, tol * max(1.0, np.abs(e).max())), lambda: f"{case['cfg']}: {c} after the function {bn} was refused gives {y}, a fresh operator {e}")
            M.fun = F[1 - i]
            y, e = call(M, src[2].copy()), call(MatrixFunction(A, fun=F[1 - i], deg=deg, orth=orth, dtype=dt), src[2].copy())
            ctx.check(np.shape(y) == np.shape(e) and near(y, e, tol * max(1.0, np.abs(e).max())), lambda: f"{case['cfg']}: {c} with a new function after {bn} was refused gives {y}, a fresh operator {e}")
            ctx.trace()
            ctx.state(tuple(case["cfg"]), used, i, bn, c, "rejected")


def vectors(n):
    V = vec_family(n) if n < 12 else [np.eye(n)[j] for j in range(n)] + [np.ones(n), None, np.arange(n) % 3 - 1.0 + np.eye(n)[n // 2]]
    return [V[n], V[0], V[n + 2], np.zeros(n)]


def apply(M, op, n, dt):
    v0, v1, v2, z = [x.astype(dt) for x in vectors(n)]
    if op == "mv0":
        return M @ v0
    if op == "mv1":
        return M.matvec(v1)
    if op == "mvt":
        return M @ (v2 * dt.type(2.0 ** -40))
    if op == "qh":
        return M.quad(v2 * dt.type(2.0 ** 30))
    if op == "mv2":
        return M @ v2
    if op == "mvz":
        return M @ z
    if op == "blk":
        return M @ np.array([v2, v0, v1]).T
    if op == "q0":
        return M.quad(v0)
    if op == "q1":
        return M.quad(v1)
    if op == "qblk":
        return M.quad(np.array([v1, z, v2]).T)
    M.fun = F[int(op[1])]
    return None


_fresh = {}


def run(ctx, case):
    from primate.operators import MatrixFunction
    if "inplace" in case:
        return inplace(ctx, case)
    if "broken" in case:
        return broken(ctx, case)
    if "rejected" in case:
        return rejected(ctx, case)
    if "funs" in case:
        return funs(ctx, case)
    n, name, deg, orth, dts = case["cfg"]
    dt = np.dtype(dts)
    A = (struct_family(n)[name] if n < 12 else chain(n, name)[0]).astype(dt)
    tol = 1e-9 if dt == np.float64 else 1e-4

    def fresh(op, fi):
        key = (tuple(case["cfg"]), op, fi)
        if key not in _fresh:
            _fresh[key] = np.array(apply(MatrixFunction(A, fun=F[fi], deg=deg, orth=orth, dtype=dt), op, n, dt))
        return _fresh[key]
    for tail in itertools.product(OPS, repeat=case["dep"]):
        seq = list(case["pre"]) + list(tail)
        M = MatrixFunction(A, fun=F[0], deg=deg, orth=orth, dtype=dt)
        fi, held = 0, []
        for i, op in enumerate(seq):
            y = apply(M, op, n, dt)
            ctx.op()
            if op in ("f0", "f1"):
                fi = int(op[1])
                continue
            e = fresh(op, fi)
            ctx.check(np.shape(y) == e.shape and near(y, e, tol * (np.abs(e).max() if op in ("mvt", "qh") else max(1.0, np.abs(e).max()))), lambda: f"{case['cfg']}: {op} after {seq[:i]} gives {y}, a fresh operator {e}")
            held.append((y, np.array(y), op))
        for y, k, op in held:
            ctx.check(np.array_equal(y, k), lambda: f"{case['cfg']}: the result of {op} changed later in {seq} from {k} to {y}")
        ctx.trace()
        ctx.state(tuple(case["cfg"]), tuple(seq))
