"""C33: concurrent and nested calls on separate objects do not interfere."""
import itertools
import os
import numpy as np
from mc.core import Violation

RULE = ("all ordered pairs of public routines run in two real threads under a controlled scheduler (every line of the package's code is a scheduling point, all "
        "schedules within the preemption bound), each with its own objects and seed but the same operator matrix (4 dimensions, and 70 with degree 24); all hosts x hooks (operator product, "
        "sampler, function, callback) x positions of the hook x routines run inside the hook: every result is bit for bit that of the call alone")
ASSUMPTIONS = ["calls into numpy and the extension modules are atomic (they hold the interpreter lock or work on their own data)",
               "one MatrixFunction or Isotropic object is used by one call at a time (their workspace is part of the object)"]
EXTS = ("tqli", "fttr", "_lanczos")
LOOSE = {"normalize": 1e-9}  # ARPACK starts from a random vector
BIG = 70
A4 = np.array([[2.0, 0.5, 0.0, -1.0], [0.5, 1.0, 0.25, 0.0], [0.0, 0.25, 3.0, 0.5], [-1.0, 0.0, 0.5, 2.5]])
B4 = np.diag([1.0, -2.0, 0.5, 4.0]) + 0.125


def matrices(n):
    if n == 4:
        return A4, B4
    i = np.arange(n)
    return np.diag(1.0 + i / n) + 0.25 * (np.eye(n, k=1) + np.eye(n, k=-1)), np.diag(np.where(i % 3 == 0, -0.5, 1.0) * (1 + i / n)) + 0.125 / n


def num(r):
    """Result as a flat list of arrays."""
    import scipy.sparse as sp
    if hasattr(r, "estimate") and hasattr(r, "nit"):
        r = [r.estimate, r.nit]
    if isinstance(r, (tuple, list)):
        return [x for y in r for x in num(y)]
    if sp.issparse(r):
        return [r.toarray()]
    return [np.array(r, dtype=float, copy=True)]


def same(a, b, tol=0.0):
    if tol:
        return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True) for x, y in zip(a, b))
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def menu(N):
    """name -> call(M, seed): every public routine on fresh objects."""
    from primate.diagonal import diag, xdiag
    from primate.estimators import ConfidenceCriterion, ControlVariableEstimator, CountCriterion, KneeCriterion, MeanEstimator, ToleranceCriterion
    from primate.integrate import quadrature
    from primate.lanczos import lanczos, rayleigh_ritz
    from primate.linalg import update_trinv
    from primate.operators import MatrixFunction, Toeplitz, matrix_function, normalize_unit
    from primate.random import Isotropic, haar, isotropic, symmetric
    from primate.special import param_callable, smoothstep, softsign
    from primate.stats import Covariance, confidence_interval
    from primate.trace import hutch, hutchpp, xtrace
    from primate.tridiag import eigh_tridiag, eigvalsh_tridiag
    deg, orth = (3, 2) if N == 4 else (24, 24)
    rec = lambda r: [r[0], np.ravel(r[1].estimator.values), r[1].nit]

    def est(s):
        e, out = MeanEstimator(covariance=True, record=True), []
        for i in range(4):
            e.update(np.array([1.0 + s, 0.5 * i, -2.0 * s])[: 1 + i % 3])
            out += [e.estimate, e.delta, len(e)] + [float(c(e)) for c in (CountCriterion(4), ToleranceCriterion(rtol=0.3), ConfidenceCriterion(0.9, rtol=0.4), KneeCriterion())]
        return out

    def vec(s):
        e = MeanEstimator(dim=3, covariance=True)
        for i in range(3):
            e.update(np.array([[1.0 + s, 0.5 * i, -2.0 * s], [i, s, 1.0]]))
        return [e.estimate, e.delta, e._cov.covariance() if hasattr(e, "_cov") else 0.0]

    def cv(s):
        e = ControlVariableEstimator(0.5)
        for i in range(4):
            e.update(np.array([[1.0 * i + s, 0.25 * i * i]]))
        return [e.estimate, e.delta, e.alpha]

    def mf(M, s):
        F = MatrixFunction(M, fun="exp", deg=deg, orth=orth)
        v = np.arange(1.0, N + 1) + s
        return [F @ v, F.quad(v), F @ np.column_stack([v, v[::-1]]), F.quad(np.column_stack([v[::-1], v]))]

    def iso(M, s):
        I = Isotropic((N, 5 if N == 4 else 40), pdf="normal", seed=s, threads=1)
        I.fill()
        return [I.values]

    def quad(M, s):
        return quadrature(np.diag(M) + s, np.full(N - 1, 0.5), quad="golub_welsch"), quadrature(np.diag(M) + s, np.full(N - 1, 0.5), quad="fttr")

    def inv(M, s):
        R = np.array([[2.0 + s]])
        for k in range(1, min(N, 40)):
            R = update_trinv(R, np.arange(1.0, k + 2) + s)
        return R

    return {
        "hutch": lambda M, s: hutch(M, pdf="normal", converge="count", count=3, seed=s),
        "hutch full": lambda M, s: rec(hutch(M, batch=2, pdf="sphere", converge="tolerance", rtol=0.3, seed=s, full=True, record=True)),
        "hutch mf": lambda M, s: hutch(MatrixFunction(M, fun="exp", deg=deg, orth=orth), converge="count", count=2, seed=s),
        "hutchpp": lambda M, s: hutchpp(M, m=2, pdf="normal", seed=s),
        "xtrace": lambda M, s: rec(xtrace(M, batch=2, pdf="normal", converge="count", count=3, seed=s, full=True, record=True)),
        "diag": lambda M, s: diag(M, pdf="normal", converge="count", count=3, seed=s),
        "xdiag": lambda M, s: xdiag(M, m=4 if N == 4 else 40, seed=s),
        "lanczos": lambda M, s: lanczos(M, deg=deg, orth=orth, seed=s, return_basis=True),
        "ritz": lambda M, s: rayleigh_ritz(M, deg=deg, orth=deg, seed=s),
        "matrix function": mf,
        "matrix_function": lambda M, s: matrix_function(M, fun=np.cos, v=np.arange(1.0, N + 1) - s, deg=deg),
        "isotropic": lambda M, s: [isotropic((N, 3 if N == 4 else 40), pdf=p, seed=s) for p in ("rademacher", "normal", "sphere")],
        "Isotropic": iso,
        "symmetric": lambda M, s: [symmetric(N, seed=s), symmetric(N, dist="uniform", pd=True, seed=s)],
        "haar": lambda M, s: haar(N, ew=np.arange(N) + 1.0 * s, seed=s),
        "tridiag": lambda M, s: [eigh_tridiag(np.diag(M) + s, np.full(N - 1, 0.5), method=m) for m in ("mrrr", "tqli")] + [eigvalsh_tridiag(np.diag(M) - s, np.full(N - 1, 0.5), method="tqli")],
        "quadrature": quad,
        "toeplitz": lambda M, s: Toeplitz(M[0] + s, M[:, 0] + s) @ (np.arange(1.0, N + 1) * s - 2),
        "normalize": lambda M, s: normalize_unit(M + s * np.eye(N)) @ (np.arange(1.0, N + 1) * s - 2),
        "functions": lambda M, s: [param_callable(f, **k)(np.linspace(0.1, 0.9, 5) + 0.01 * s) for f, k in (("exp", dict(t=0.5 + s)), ("log", {}), ("softsign", dict(q=3 + s)), ("smoothstep", dict(a=0.1, b=0.8)))],
        "estimators": lambda M, s: est(s),
        "vector estimators": lambda M, s: vec(s),
        "control variates": lambda M, s: cv(s),
        "interval": lambda M, s: [confidence_interval(np.diag(M) + s, 0.9), confidence_interval(np.diag(M) * s, 0.9, sdist="normal")],
        "update_trinv": inv,
    }


NAMES = ["hutch", "hutch full", "hutch mf", "hutchpp", "xtrace", "diag", "xdiag", "lanczos", "ritz", "matrix function", "matrix_function", "isotropic", "Isotropic",
         "symmetric", "haar", "tridiag", "quadrature", "toeplitz", "normalize", "functions", "estimators", "vector estimators", "control variates", "interval", "update_trinv"]


def cases(tier):
    th = tier == "thorough"
    pos = {a: i for i, a in enumerate(NAMES)}
    for i, (a, b) in enumerate(itertools.combinations_with_replacement(NAMES, 2)):
        if not th and (pos[b] - pos[a]) % len(NAMES) not in (0, 1, 4, 11):
            continue
        yield dict(kind="par", a=a, b=b, bound=2 if th and a == b else 1)
    if th:
        for a in ("hutch", "diag", "lanczos", "hutchpp", "matrix function", "xdiag"):
            for b in ("isotropic", "estimators", "tridiag", "ritz"):
                yield dict(kind="par", a=a, b=b, bound=2)
    for h in HOSTS:
        for g in NAMES:
            yield dict(kind="nest", h=h, g=g)
    for i, h in enumerate(HOSTS):  # larger operators and degrees
        for j, g in enumerate(NAMES):
            yield dict(kind="nest", h=h, g=g, n=BIG)
    for a in NAMES:
        yield dict(kind="par", a=a, b=a, bound=1, n=BIG)


class Hook:
    """Runs the guest at its k-th use (or at every use, k None)."""

    def __init__(self):
        self.n, self.k, self.guest = 0, -1, None
        self.out = []

    def __call__(self):
        self.n += 1
        if self.guest is not None and (self.k is None or self.n == self.k + 1):
            g, self.guest = self.guest, None
            self.out.append(num(g()))
            self.guest = g


class Op:
    def __init__(self, M, hook):
        self.M, self.shape, self.dtype, self.hook = M, M.shape, M.dtype, hook

    def matvec(self, x):
        y = self.M @ x
        self.hook()
        return y

    def __matmul__(self, x):
        return self.matvec(x)

    @property
    def T(self):
        return Op(self.M.T, self.hook)


HOSTS = [f"{r}/{h}" for r, hs in (("hutch", ("op", "pdf", "callback")), ("hutch full", ("op", "pdf", "callback")), ("hutch mf", ("fun", "op", "pdf")), ("hutchpp", ("op", "pdf")), ("xtrace", ("op", "callback")),
                                  ("diag", ("op", "pdf", "callback")), ("xdiag", ("op",)), ("lanczos", ("op",)), ("ritz", ("op",)), ("mf", ("op", "fun")), ("mf quad", ("op", "fun")), ("rule", ("rule",))) for h in hs]


def host(name, hook, N=4):
    B, deg, orth = matrices(N)[1], *((3, 2) if N == 4 else (24, 24))
    from primate.diagonal import diag, xdiag
    from primate.estimators import ConvergenceCriterion
    from primate.lanczos import lanczos, rayleigh_ritz
    from primate.operators import MatrixFunction
    from primate.random import isotropic
    from primate.trace import hutch, hutchpp, xtrace
    r, h = name.split("/")
    M = Op(B, hook) if h == "op" else B

    def fun(x):
        y = np.exp(0.5 * x)
        hook()
        return y

    f = fun if h == "fun" else (lambda x: np.exp(0.5 * x))
    g = np.random.default_rng(8)

    def pdf(size):
        W = isotropic(size, pdf="normal", seed=g)
        hook()
        return W
    p = pdf if h == "pdf" else "normal"
    cb = (lambda res: hook()) if h == "callback" else None
    kw = dict(pdf=p, seed=8, converge="count", count=3)
    V = np.column_stack([np.arange(1.0, N + 1), np.ones(N)])
    if r == "hutch":
        return hutch(M, callback=cb, **kw)
    if r == "hutch full":
        x = hutch(M, callback=cb, batch=2, full=True, record=True, **kw)
        return x[0], np.ravel(x[1].estimator.values), x[1].nit
    if r == "hutch mf":
        return hutch(MatrixFunction(M, fun=f, deg=deg, orth=orth, dtype=np.float64), **kw)
    if r == "hutchpp":
        return hutchpp(M, m=2, pdf=p, seed=8)
    if r == "xtrace":
        return xtrace(M, batch=1, callback=cb, pdf="normal", seed=8, converge="count", count=3)
    if r == "diag":
        return diag(M, callback=cb, **kw)
    if r == "xdiag":
        return xdiag(M, m=4 if N == 4 else 40, pdf="normal", seed=8)
    if r == "lanczos":
        return lanczos(M, v0=V[:, 0].copy(), deg=deg, orth=orth, return_basis=True)
    if r == "ritz":
        return rayleigh_ritz(M, v0=V[:, 0].copy(), deg=deg, orth=orth)
    if r == "mf":
        F = MatrixFunction(M, fun=f, deg=deg, orth=orth, dtype=np.float64)
        return F @ V[:, 0], F @ V
    if r == "mf quad":
        F = MatrixFunction(M, fun=f, deg=deg, orth=orth, dtype=np.float64)
        return F.quad(V[:, 0]), F.quad(V)

    def rule(e):
        hook()
        return len(e) >= 3
    return [hutch(B, seed=8, pdf="normal", converge=ConvergenceCriterion(rule)), diag(B, seed=8, pdf="normal", converge=ConvergenceCriterion(rule))]


def setup(ctx):
    global _M, _base
    _M, _base = {n: menu(n) for n in (4, BIG)}, {}


def runs_of(log):
    """Schedule as (choice, how often in a row)."""
    return " ".join(f"{k}x{len(list(g))}" for k, g in itertools.groupby(log))


def alone(name, which, s, n):
    k = (name, which, s, n)
    if k not in _base:
        _base[k] = num(_M[n][name](matrices(n)[which].copy(), s))
    return _base[k]


def run(ctx, case):
    if case["kind"] == "nest":
        return nested(ctx, case)
    import concurrent.futures as cf
    import primate
    from mc.sched import Deadlock, explore, patched
    a, b, n = case["a"], case["b"], case.get("n", 4)
    A, tol = matrices(n)[0], 0.0 if n == 4 else 1e-9
    refs = alone(a, 0, 1, n), alone(b, 0, 2, n)
    pkg = os.path.dirname(primate.__file__)
    M = A.copy()
    cap = 60000 if ctx.tier == "thorough" else 1500  # for code with far more scheduling points than the code as it is
    runs = 0
    with patched():
        def observe(_, s):
            with cf.ThreadPoolExecutor(max_workers=2) as ex:
                fs = [ex.submit(_M[n][a], M, 1), ex.submit(_M[n][b], M, 2)]
                return [num(f.result()) for f in fs]
        try:
            for obs, s in explore(lambda: None, observe, case["bound"], pkg, max_runs=cap):
                runs += 1
                ctx.op(max(1, s.points))
                ctx.trace()
                for nm, o, r in zip((a, b), obs, refs):
                    ctx.check(same(o, r, LOOSE.get(nm, tol)), lambda: f"{a} and {b} in two threads, schedule {runs_of(s.trace_log)}: {nm} gives {o}, alone {r}")
                ctx.check(np.array_equal(M, A), lambda: f"{a} and {b} in two threads: the operator was modified")
                ctx.state(a, b, n, tuple(s.trace_log))
        except Deadlock as e:
            raise Violation(f"{a} and {b} in two threads: {e}")
    ctx.outcome("schedules capped" if runs >= cap else "all schedules within the bound")


def nested(ctx, case):
    h, g, n = case["h"], case["g"], case.get("n", 4)
    A, tol = matrices(n)[0], 0.0 if n == 4 else 1e-9
    plain = Hook()
    ref = num(host(h, plain, n))
    gref = alone(g, 0, 3, n)
    ctx.check(plain.n > 0, lambda: f"{h}: the hook is never used")
    M = A.copy()
    for k in list(range(plain.n)) + [None]:
        hk = Hook()
        hk.k, hk.guest = k, lambda: _M[n][g](M, 3)
        r = num(host(h, hk, n))
        ctx.op(1 + len(hk.out))
        ctx.check(same(r, ref, tol), lambda: f"{h} with {g} run inside its hook (use {k}) gives {r}, without {ref}")
        ctx.check(len(hk.out) == (plain.n if k is None else 1), lambda: f"{h} with {g} run inside its hook (use {k}): the hook is used {hk.n} times instead of {plain.n}")
        for o in hk.out:
            ctx.check(same(o, gref, LOOSE.get(g, tol)), lambda: f"{g} run inside {h} (use {k}) gives {o}, alone {gref}")
        ctx.check(np.array_equal(M, A), lambda: f"{g} inside {h}: the operator was modified")
        ctx.state(h, g, k, n)
        ctx.trace()
