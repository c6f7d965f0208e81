"""C37: lifetimes - nothing a caller passes is kept beyond the last result, results stay valid, calls leave no memory behind."""
import ctypes
import gc
import itertools
import sys
import threading
import time
import tracemalloc
import weakref
import numpy as np

RULE = ("all public routines x operator styles x histories of the handles: one or two calls (successful, or failing at any one hook), then every order of dropping the caller's handles to "
        "arguments and result, interleaved with collections and reuse of the freed memory: a held result never changes, an object is alive only while a handle or the held result reaches it, reference "
        "counts return to what they were; results of successive problems of one shape and of all words of uses of one object (matrix functions, products, samplers, estimators) stay what they were, and so do the arrays user code was given; repeated calls (successful and failing) leave heap and array memory, threads and file descriptors where they were")
ASSUMPTIONS = ["unreachable reference cycles are collected explicitly", "growth below a quarter of one vector per call counts as none"]
EXTS = ("tqli", "fttr", "_lanczos")


class Fault(Exception):
    pass


class Op:
    """matrix-free operator"""
    def __init__(self, M, hook):
        self.M, self.hook, self.shape, self.dtype = M, hook, M.shape, M.dtype

    @property
    def T(self):
        return self

    def matvec(self, x):
        self.hook("op", x)
        return self.M @ x

    def __matmul__(self, x):
        self.hook("op", x)
        return self.M @ x


class Quad(Op):
    def quad(self, x):
        self.hook("op", x)
        return np.einsum("i...,i...->...", x, self.M @ x)


class Conv(Op):
    """products in another precision than the operator states: they have to be converted"""
    def matvec(self, x):
        return super().matvec(x).astype(np.float32)

    def __matmul__(self, x):
        return super().__matmul__(x).astype(np.float32)


class Fn:
    """function, sampler, callback or rule with identity"""
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


class Arr(np.ndarray):
    pass


def arr(x):
    return np.array(x, dtype=float).view(Arr)


STYLES = ["dense", "fortran", "csr", "csc", "coo", "linop", "duck", "quad", "conv"]


def operator(style, M, hook):
    import scipy.sparse as sp
    from scipy.sparse.linalg import LinearOperator
    if style == "dense":
        return M.copy()
    if style == "fortran":
        return np.asfortranarray(M)
    if style in ("csr", "csc", "coo"):
        return {"csr": sp.csr_array, "csc": sp.csc_array, "coo": sp.coo_array}[style](M)
    if style == "linop":
        class L(LinearOperator):
            def __init__(self):
                super().__init__(np.dtype(float), M.shape)

            def _matvec(self, x):
                hook("op", x)
                return M @ x

            _rmatvec = _matvec
        return L()
    return {"duck": Op, "quad": Quad, "conv": Conv}[style](M, hook)


class Scene:
    """Fresh arguments of one routine; use() counts the hook uses and fails at the chosen one."""

    def __init__(self, routine, style, n, unit=1.0):
        self.again()
        self.unit = unit
        self.fail = None
        self.kept = None
        n0 = n
        M = np.add.outer(np.arange(n), np.arange(n)) * 0.25 + np.diag(np.arange(1.0, n + 1) + 2) if n < 150 else None
        M = M * unit if M is not None else None
        self.M, self.n = M, n0
        self.args = {}
        ROUTINES[routine][0](self, style)
        self.call = ROUTINES[routine][1]

    def again(self):
        self.count, self.draws = 0, 0

    def hook(self, what, x=None):
        self.count += 1
        if self.kept is not None and x is not None:
            self.kept.append(x)
        if self.fail is not None and self.count == self.fail:
            raise Fault(what)

    def op(self, style):
        self.args["A"] = operator(style, self.M, self.hook) if self.M is not None else big_operator(style, self.n, self.hook)

    def pdf(self):
        def f(size):
            self.hook("pdf")
            size = (size, 1) if np.ndim(size) == 0 else size
            self.draws += 1
            return np.random.default_rng(self.draws).standard_normal(size)
        self.args["pdf"] = Fn(f)

    def rule(self, count=3):
        from primate.estimators import ConvergenceCriterion

        def f(est):
            self.hook("rule")
            return len(est) >= count
        self.args["rule"] = ConvergenceCriterion(f)

    def cb(self):
        def f(r):
            self.hook("cb")
        self.args["cb"] = Fn(f)

    def fun(self):
        def f(x):
            self.hook("fun", x)
            return np.exp(-np.abs(x))
        self.args["fun"] = Fn(f)

    def vec(self, k=None, name="v"):
        self.args[name] = arr(1 + 0.5 * (np.arange(self.n * (k or 1)) % 5)).reshape((self.n, k) if k else self.n)


def big_operator(style, n, hook):
    import scipy.sparse as sp
    D = sp.csr_array(sp.diags([np.arange(1.0, n + 1) / n, np.full(n - 1, 0.25), np.full(n - 1, 0.25)], [0, 1, -1]))
    if style in ("csr", "csc", "coo"):
        return D.asformat(style)
    if style in ("dense", "fortran"):
        return np.array(D.todense(), order="F" if style == "fortran" else "C")
    if style == "linop":
        from scipy.sparse.linalg import LinearOperator

        class L(LinearOperator):
            def __init__(self):
                super().__init__(np.dtype(float), D.shape)

            def _matvec(self, x):
                hook("op", x)
                return D @ x

            _rmatvec = _matvec
        return L()
    return {"duck": Op, "quad": Quad, "conv": Conv}[style](D, hook)


def _hutch(s, style):
    s.op(style), s.pdf(), s.rule(), s.cb()


def _xt(s, style):
    s.op(style), s.pdf(), s.rule(2), s.cb()


def _seeded(s, style):
    s.op(style)
    s.args["rng"] = np.random.default_rng(3)


def _lz(s, style):
    s.op(style), s.vec()


def _mf(s, style):
    s.op(style), s.fun(), s.vec(2, "X"), s.vec()


def _jac(s, style):
    s.args["d"], s.args["e"] = arr(np.arange(1.0, s.n + 1)), arr(np.full(s.n - 1, 0.5))


def _out(s, style):
    s.args["out"] = np.zeros((s.n, 3), order="F")
    s.args["rng"] = np.random.default_rng(3)


def _toep(s, style):
    s.args["c"], s.args["r"] = arr(np.arange(1.0, s.n + 1)), arr(np.r_[1.0, -np.arange(1.0, s.n)])
    s.vec()


def _samples(s, style):
    s.args["x"] = arr(np.cos(np.arange(s.n + 4)))


def _pairs(s, style):
    s.args["x"] = arr(np.c_[np.cos(np.arange(s.n + 4)), np.sin(np.arange(s.n + 4) * 2)])
    s.args["ecv"] = arr([0.25])
    s.args["alpha"] = arr([0.5])


def _norm(s, style):
    s.op(style), s.vec()


def _iso(s, style):
    s.args["rng"] = np.random.default_rng(3)


def _ew(s, style):
    s.args["ew"] = arr(np.arange(1.0, s.n + 1))
    s.args["rng"] = np.random.default_rng(3)


def _x(s, style):
    s.args["x"] = arr(np.linspace(0.25, 2, s.n))


def _tri(s, style):
    s.args["B"], s.args["b"] = arr(np.triu(np.ones((s.n, s.n)))), arr(np.arange(1.0, s.n + 2))


def est_feed(a):
    from primate.estimators import MeanEstimator
    e = MeanEstimator(covariance=True, record=True)
    for i in range(0, len(a["x"]), 3):
        e.update(a["x"][i: i + 3])
    return e


def cv_feed(a):
    from primate.estimators import ControlVariableEstimator
    e = ControlVariableEstimator(ecv=a["ecv"], alpha=a["alpha"], record=True)
    for i in range(0, len(a["x"]), 3):
        e.update(a["x"][i: i + 3])
    return e


def stream_feed(a):
    from primate.stats import Covariance
    c = Covariance(dim=2)
    for i in range(0, len(a["x"]), 3):
        c.update(a["x"][i: i + 3])
    return c


def imp(mod, name):
    import importlib
    return getattr(importlib.import_module(f"primate.{mod}"), name)


def est_read(e):
    return [np.ravel(e.estimate), np.ravel(e.delta), len(e), [np.ravel(x) for x in e.values or []]]


def res_read(r):
    return [np.ravel(r[0]), np.ravel(r[1].estimate), r[1].nit, r[1].message] + ([est_read(r[1].estimator)] if r[1].estimator is not None else [])


def plain(r):
    return [np.array(x, dtype=float) for x in r] if isinstance(r, (tuple, list)) else [np.array(r, dtype=float)]


def nested(r):
    return plain(r[0]) + plain(r[1:]) if isinstance(r, tuple) and isinstance(r[0], tuple) else plain(r)


def fill(a):
    I = imp("random", "Isotropic")((a["n"], 5), "sphere", seed=a["rng"], threads=3)
    I.fill()
    return I


# routine: (arguments, call, reading of a held result, styles matter, hooks)
ROUTINES = {
    "hutch": (_hutch, lambda a: imp("trace", "hutch")(a["A"], batch=2, pdf=a["pdf"], converge=a["rule"]), plain, True),
    "hutch full": (_hutch, lambda a: imp("trace", "hutch")(a["A"], batch=2, pdf=a["pdf"], converge=a["rule"], callback=a["cb"], full=True, record=True), res_read, True),
    "hutch seeded": (_seeded, lambda a: imp("trace", "hutch")(a["A"], seed=a["rng"], converge="count", count=4, full=True), res_read, True),
    "hutchpp": (_hutch, lambda a: imp("trace", "hutchpp")(a["A"], m=2, pdf=a["pdf"]), plain, True),
    "hutchpp full": (_hutch, lambda a: imp("trace", "hutchpp")(a["A"], m=2, pdf=a["pdf"], mode="full", full=True), res_read, True),
    "xtrace": (_xt, lambda a: imp("trace", "xtrace")(a["A"], batch=1, pdf=a["pdf"], converge=a["rule"], callback=a["cb"], full=True, record=True), res_read, True),
    "diag": (_hutch, lambda a: imp("diagonal", "diag")(a["A"], pdf=a["pdf"], converge=a["rule"], callback=a["cb"], full=True, record=True), res_read, True),
    "diag plain": (_hutch, lambda a: imp("diagonal", "diag")(a["A"], pdf=a["pdf"], converge=a["rule"]), plain, True),
    "xdiag": (_seeded, lambda a: imp("diagonal", "xdiag")(a["A"], m=4, pdf="normal", seed=a["rng"]), plain, True),
    "lanczos": (_lz, lambda a: imp("lanczos", "lanczos")(a["A"], v0=a["v"], deg=a["deg"], orth=a["deg"]), plain, True),
    "lanczos basis": (_lz, lambda a: imp("lanczos", "lanczos")(a["A"], v0=a["v"], deg=a["deg"], orth=0, return_basis=True), nested, True),
    "lanczos sparse": (_lz, lambda a: imp("lanczos", "lanczos")(a["A"], v0=a["v"], deg=a["deg"], sparse_mat=True), lambda r: [r.todense()], True),
    "rayleigh_ritz": (_lz, lambda a: imp("lanczos", "rayleigh_ritz")(a["A"], v0=a["v"], deg=a["deg"], orth=a["deg"], return_eigenvectors=True, return_basis=True), nested, True),
    "MatrixFunction": (_mf, lambda a: imp("operators", "MatrixFunction")(a["A"], fun=a["fun"], deg=a["deg"], orth=a["deg"]), lambda M: [M @ probe(M), M.quad(probe(M)), M @ probe(M, 2)], True),
    "MatrixFunction used": (_mf, lambda a: (lambda M: [M @ a["v"], M.quad(a["X"]), M @ a["X"], M])(imp("operators", "MatrixFunction")(a["A"], fun=a["fun"], deg=a["deg"], orth=1)),
                            lambda r: plain(r[:3]) + [r[3].quad(probe(r[3], 2))], True),
    "matrix_function": (_mf, lambda a: imp("operators", "matrix_function")(a["A"], a["fun"], a["v"], deg=a["deg"]), plain, True),
    "normalize_unit": (_norm, lambda a: imp("operators", "normalize_unit")(a["A"]), lambda N: [N @ probe(N)], True),
    "Toeplitz": (_toep, lambda a: (lambda T: [T @ a["v"], T])(imp("operators", "Toeplitz")(a["c"], a["r"])), lambda r: [r[0], r[1] @ probe(r[1]), r[1] @ probe(r[1], 2)], False),
    "IdentityOperator": (_norm, lambda a: [imp("operators", "normalize_unit")(a["A"])], lambda r: [r[0] @ probe(r[0], 2)], True),
    "quadrature": (_jac, lambda a: imp("integrate", "quadrature")(a["d"], a["e"], deg=a["deg"]), plain, False),
    "quadrature fttr": (_jac, lambda a: imp("integrate", "quadrature")(a["d"], a["e"], deg=a["deg"], quad="fttr"), plain, False),
    "eigh_tridiag": (_jac, lambda a: imp("tridiag", "eigh_tridiag")(a["d"], a["e"]), plain, False),
    "eigvalsh_tridiag": (_jac, lambda a: imp("tridiag", "eigvalsh_tridiag")(a["d"], a["e"], method="tqli"), plain, False),
    "isotropic": (_iso, lambda a: imp("random", "isotropic")((a["n"], 3), pdf="sphere", seed=a["rng"]), plain, False),
    "isotropic deferred": (_iso, lambda a: (lambda f: [f((a["n"], 2)), f])(imp("random", "isotropic")(pdf="normal", seed=a["rng"])), lambda r: plain(r[:1]), False),
    "isotropic out": (_out, lambda a: imp("random", "isotropic")((a["n"], 3), pdf="rademacher", seed=a["rng"], out=a["out"]), lambda r: [r is None], False),
    "Isotropic": (_iso, fill, lambda I: plain(I.values), False),
    "symmetric": (_ew, lambda a: imp("random", "symmetric")(a["n"], ew=a["ew"], seed=a["rng"]), plain, False),
    "haar": (_ew, lambda a: imp("random", "haar")(a["n"], ew=a["ew"], seed=a["rng"]), plain, False),
    "MeanEstimator": (_samples, est_feed, est_read, False),
    "ControlVariableEstimator": (_pairs, cv_feed, est_read, False),
    "Covariance": (_pairs, stream_feed, lambda c: [c(), c.mean(), c.n], False),
    "confidence_interval": (_samples, lambda a: imp("stats", "confidence_interval")(a["x"]), plain, False),
    "update_trinv": (_tri, lambda a: imp("linalg", "update_trinv")(a["B"], a["b"]), plain, False),
    "param_callable": (_x, lambda a: (lambda f: [f(a["x"]), f])(imp("special", "param_callable")("smoothstep", a=0.0, b=1.0)), lambda r: [r[0], r[1](np.linspace(0, 1, 5))], False),
    "figure_sequence": None,
}
ROUTINES = {k: v for k, v in ROUTINES.items() if v is not None}
MAKES_SHARED = {"isotropic out"}


def probe(M, k=None):
    n = M.shape[1]
    x = 1 + 0.25 * (np.arange(n * (k or 1)) % 7)
    return x.reshape(n, k) if k else x


def cases(tier):
    th = tier == "thorough"
    for r, (_, _, _, styled) in ROUTINES.items():
        for st in STYLES if styled else ("none",):
            if st == "quad" and not r.startswith(("hutch", "diag")):
                continue
            if st == "conv" and not r.startswith(("hutch", "diag", "lanczos", "MatrixF", "matrix_f")):
                continue
            for n in (5, 45, 130):
                yield dict(k="hist", r=r, style=st, n=n)
            yield dict(k="grow", r=r, style=st, n=700 if th else 400)
            if styled:
                for n, deg in ((5, 3), (5, 5), (40, 33), (130, 70), (130, 3)):
                    yield dict(k="given", r=r, style=st, n=n, deg=deg)
            if st in ("none", "dense", "csr", "linop") or th:
                for n, deg in ((5, 3), (5, 5), (40, 33), (130, 70), (130, 3)):
                    yield dict(k="pair", r=r, style=st, n=n, deg=deg)
    for o in OBJECTS:
        for n in (2, 5, 33, 130):
            yield dict(k="keep", o=o, n=n)


def canon(x):
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, (np.ndarray, float, int, np.generic)):
        a = np.asarray(x, dtype=float)
        return (a.shape, a.tobytes())
    return x


def poison(n):
    """Reuse the freed memory."""
    gc.collect()
    junk = [np.full(m, np.nan) for m in (n, n, n, 2 * n, 3 * n, n * n if n < 100 else n, n + 1, 3, 4) for _ in range(4)]
    del junk


def alive(refs):
    gc.collect()
    return {k for k, r in refs.items() if r() is not None}


def make(case):
    s = Scene(case["r"], case["style"], case["n"])
    a = dict(s.args)
    s.args = None  # the handles are the caller's
    return s, a


def call(s, case, a):
    b = dict(a, n=case["n"], deg=case.get("deg", 3))
    return ROUTINES[case["r"]][1](b)


def orders(hs, case):
    """All orders; cyclic ones in both directions for the operator styles that differ only in the product."""
    if len(hs) <= 3 or case["style"] in ("dense", "linop", "none"):
        return itertools.permutations(hs)
    return [t[i:] + t[:i] for t in (hs, hs[::-1]) for i in range(len(hs))]


def hist(ctx, case):
    gc.freeze()
    read = ROUTINES[case["r"]][2]
    s, a = make(case)
    ref = canon(read(call(s, case, a)))  # alone, nothing dropped (also: lazy imports)
    uses = s.count
    roles = list(a)
    weak = [k for k in roles if _weakable(a[k])]
    del s, a
    deterministic = case["r"] not in ("normalize_unit", "IdentityOperator")

    def same(r):
        x = canon(read(r))
        return x == ref if deterministic else all(np.allclose(np.frombuffer(p[1]), np.frombuffer(q[1]), rtol=1e-6, atol=1e-9) for p, q in zip(x, ref))
    # reference counts
    large = case["n"] > (5 if ctx.tier != "thorough" else 100)
    for fail in [None] + [f for f in range(1, uses + 1) if not large or f in (1, 2, uses)]:
        s, a = make(case)
        s.fail = fail
        gc.collect()
        before = {k: sys.getrefcount(a[k]) for k in roles}
        inner = sys.getrefcount(s.M)
        for _ in range(2):
            try:
                r = call(s, case, a)
                del r
            except Fault:
                pass
            s.again()
        gc.collect()
        after = {k: sys.getrefcount(a[k]) for k in roles}
        ctx.op()
        ctx.check(before == after and inner == sys.getrefcount(s.M), lambda: f"{case} failing at use {fail}: reference counts of the arguments {after}, before the calls {before}")
        refs = {k: weakref.ref(a[k]) for k in weak}
        del s, a
        left = alive(refs)
        ctx.check(not left, lambda: f"{case} failing at use {fail}: {sorted(left)} still alive after everything was dropped")
        ctx.trace()
        ctx.state("count", case["r"], case["style"], case["n"], fail or 0)
    # all orders of dropping the handles, the result included
    for past in [(), ("ok",)] + [(f,) for f in sorted({1, (uses + 1) // 2, uses})[: uses]]:
        for order in [roles + ["result"], ["result"] + roles[::-1]] if large else orders(roles + ["result"], case) if len(past) == 0 or past == ("ok",) or ctx.tier == "thorough" else [roles + ["result"], ["result"] + roles[::-1]]:
            s, a = make(case)
            for f in past + (None,):
                s.again()
                s.fail = None if f == "ok" else f
                if "rng" in a:
                    a["rng"] = np.random.default_rng(3)
                try:
                    r = call(s, case, a)
                except Fault:
                    ctx.check(f not in (None, "ok"), lambda: f"{case}: fault without cause")
            refs = {k: weakref.ref(a[k]) for k in weak}
            del s
            held = set(roles) | {"result"}
            for k in order:
                if k == "result":
                    del r
                else:
                    del a[k]
                held.discard(k)
                poison(case["n"])
                ctx.op()
                if "result" in held and case["r"] != "isotropic out":
                    ctx.check(same(r), lambda: f"{case}: after dropping {order[: order.index(k) + 1]} the held result changed")
                live = alive(refs)
                ctx.check(live >= held - {"result"} - (set(roles) - set(weak)), lambda: f"{case}: {sorted(held)} held but only {sorted(live)} alive")
                ctx.check("result" in held or live <= held, lambda: f"{case}: after dropping {order[: order.index(k) + 1]}: {sorted(live - held)} still alive, nothing reaches them")
                ctx.state("drop", case["r"], case["style"], case["n"], past, tuple(sorted(held)))
            ctx.trace()
    ctx.outcome("weak " + ",".join(weak))


def _weakable(x):
    try:
        weakref.ref(x)
        return True
    except TypeError:
        return False


class Info2(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


def heap():
    f = ctypes.CDLL(None).mallinfo2
    f.restype = Info2
    m = f()
    return m.uordblks + m.hblkhd


def grow(ctx, case):
    import os
    s, a = make(case)

    def once(fail):
        s.again()
        s.fail = fail
        if "rng" in a:
            a["rng"].bit_generator.state = np.random.default_rng(3).bit_generator.state
        try:
            r = call(s, case, a)
            del r
            return s.count
        except Fault:
            return 0
    base = threading.active_count()
    uses = once(None)
    vec = 8 * case["n"]
    if "x" in a and "A" not in a:
        vec = a["x"].nbytes
    points = sorted({None: 0, 1: 1, uses // 2: 1, uses: 1}.keys() - {0}, key=lambda x: x or 0) if uses else [None]
    fds = len(os.listdir("/proc/self/fd"))

    def settle():  # threads of a pool that was shut down end on their own time
        gc.collect()
        t = time.monotonic() + 30
        while threading.active_count() > base and time.monotonic() < t:
            time.sleep(0.001)
    for fail in points:
        for _ in range(3):
            once(fail)
        settle()
        h0, N = heap(), 16
        for _ in range(N):
            once(fail)
        settle()
        h1 = heap()
        ctx.op(N)
        ctx.check(h1 - h0 < N * vec // 4, lambda: f"{case} failing at use {fail}: {N} calls leave {h1 - h0} bytes behind (one vector has {vec})")
        ctx.check(threading.active_count() <= base, lambda: f"{case}: threads left behind: {threading.enumerate()}")
        ctx.check(len(os.listdir("/proc/self/fd")) <= fds, lambda: f"{case}: file descriptors left behind")
        ctx.trace()
        ctx.state("grow", case["r"], case["style"], case["n"], fail or 0)


def pair(ctx, case):
    """Two calls on problems of the same shape: the first result is what it was, the second what it is alone."""
    read = ROUTINES[case["r"]][2]
    outs = []
    for u in (1.0, 2.0, 0.5):
        s = Scene(case["r"], case["style"], case["n"], u)
        for k, x in s.args.items():
            if isinstance(x, np.ndarray) and k not in ("out", "b", "ew", "e"):
                x *= u
        outs.append((s, call(s, case, s.args)))
        outs[-1] += (canon(read(outs[-1][1])),)
        ctx.op()
        for i, (_, r, ref) in enumerate(outs):
            x = canon(read(r))
            ctx.check(x == ref or case["r"] == "isotropic out", lambda: f"{case}: result {i} changed after {len(outs) - 1 - i} further calls on other problems of the same shape")
    ctx.trace()
    ctx.state("pair", case["r"], case["style"], case["n"], case["deg"])


def _mfobj(deg):
    def f(n):
        from primate.operators import MatrixFunction
        A = np.diag(np.arange(1.0, n + 1) / n) + (0.25 / n)
        M = MatrixFunction(A, fun=np.exp, deg=min(n, deg), orth=min(n, deg))
        v = [1 + 0.5 * (np.arange(n) * (j + 1) % 5) for j in range(3)]
        return {"M@u": lambda: M @ v[0], "M@v": lambda: M @ v[1], "quad(u)": lambda: M.quad(v[0]), "quad(U)": lambda: M.quad(np.c_[v[0], v[1]]), "quad(V)": lambda: M.quad(np.c_[v[2], v[0]]), "M@U": lambda: M @ np.c_[v[1], v[2]]}
    return f


def _toepobj(n):
    from primate.operators import Toeplitz
    T = Toeplitz(np.arange(1.0, n + 1), np.r_[1.0, -np.arange(1.0, n)])
    v = [1 + 0.5 * (np.arange(n) * (j + 1) % 5) for j in range(3)]
    return {"T@u": lambda: T @ v[0], "T@v": lambda: T @ v[1], "T@U": lambda: T @ np.c_[v[1], v[2]], "T@V": lambda: T @ np.c_[v[2], v[0]]}


def _normobj(n):
    from primate.operators import normalize_unit
    N = normalize_unit(np.diag(np.arange(1.0, n + 3)))
    v = [1 + 0.5 * (np.arange(n + 2) * (j + 1) % 5) for j in range(3)]
    return {"N@u": lambda: N @ v[0], "N@v": lambda: N @ v[1], "N@U": lambda: N @ np.c_[v[1], v[2]]}


def _samplerobj(pdf):
    def f(n):
        from primate.random import isotropic
        f = isotropic(pdf=pdf, seed=np.random.default_rng(5))
        return {"f(n)": lambda: f(n), "f((n,1))": lambda: f((n, 1)), "f((n,2))": lambda: f((n, 2)), "f((n,7))": lambda: f(size=(n, 7))}
    return f


def _estobj(kind):
    def f(n):
        from primate.estimators import ControlVariableEstimator, MeanEstimator
        if kind == "cv":
            e = ControlVariableEstimator(ecv=np.full(n, 0.25), record=True)
        else:
            e = MeanEstimator(dim=n, covariance=kind == "cov", record=True)
        m = n + (kind == "cv")
        rows = lambda k: np.cos(np.arange(k * m) * 1.7 + len(e)).reshape(k, m)
        look = lambda: [np.asarray(x) for x in ((e.estimate, e.delta) if kind == "cv" else (e.estimate, e.delta, e.mean))] + [x for x in (e.values or []) if isinstance(x, np.ndarray)]
        return {"update 1": lambda: (e.update(rows(1)), look())[1], "update 3": lambda: (e.update(rows(3)), look())[1], "look": look}
    return f


def _streamobj(kind):
    def f(n):
        from primate.stats import Covariance, Mean
        c = (Covariance if kind == "cov" else Mean)(dim=n)
        t = [0]

        def upd(k):
            t[0] += k
            c.update(np.cos(np.arange(k * n) * 1.7 + t[0]).reshape(k, n))
            return look() if t[0] > 1 else []

        def look():
            return [np.asarray(c()), np.asarray(c.mean())] if kind == "cov" else [np.asarray(c())]
        return {"update 1": lambda: upd(1), "update 3": lambda: upd(3), "look": lambda: look() if t[0] > 1 else []}
    return f


OBJECTS = {"MatrixFunction 3": _mfobj(3), "MatrixFunction n": _mfobj(10 ** 6), "Toeplitz": _toepobj, "normalize_unit": _normobj}
OBJECTS.update({f"sampler {p}": _samplerobj(p) for p in ("rademacher", "normal", "sphere")})
OBJECTS.update({f"estimator {k}": _estobj(k) for k in ("mean", "cov", "cv")})
OBJECTS.update({f"stream {k}": _streamobj(k) for k in ("mean", "cov")})


def keep(ctx, case):
    """All words of uses of one object: everything it has returned stays what it was."""
    uses = list(OBJECTS[case["o"]](case["n"]))
    L = 3 if ctx.tier != "thorough" or len(uses) > 4 else 4
    if case["n"] > 100 and case["o"].startswith("MatrixFunction n"):
        L = 2
    for w in itertools.product(uses, repeat=L):
        obj, got = OBJECTS[case["o"]](case["n"]), []
        for u in w:
            r = obj[u]()
            got += [(u, x, np.array(x)) for x in (r if isinstance(r, list) else [r])]
            ctx.op()
            for v, x, ref in got:
                ctx.check(np.array_equal(x, ref, equal_nan=True), lambda: f"{case}: what {v} returned changed after {w} up to {u}")
        ctx.trace()
        ctx.state("keep", case["o"], case["n"], w)


def given(ctx, case):
    """The arrays user code was given: they stay what they were when the call returned, whatever is dropped and reused."""
    n, deg = case["n"], case["deg"]
    for fail in (None, 1, 2, 5):
        for order in ("result first", "arguments first", "scene only"):
            s, a = make(case)
            s.kept, s.fail = [], fail
            try:
                r = call(s, case, a)
            except Fault:
                r = None
            kept = [x for x in s.kept if isinstance(x, np.ndarray)]
            was = [x.copy() for x in kept]
            s.kept = None
            del s
            if order == "result first":
                r = None
                poison(n)
                a = None
            elif order == "arguments first":
                a = None
                poison(n)
                r = None
            for m in (n, n * deg, n * 2, deg, deg + 1):
                junk = [np.full(m, np.nan) for _ in range(6)]
                del junk
            poison(n)
            ctx.op()
            bad = [i for i, (x, y) in enumerate(zip(kept, was)) if not np.array_equal(x, y, equal_nan=True)]
            ctx.check(not bad, lambda: f"{case}, failing at use {fail}: array {bad[0]} of the {len(kept)} user code was given was {was[bad[0]]} when the call returned, {kept[bad[0]]} after {order} was dropped")
            ctx.state("given", case["r"], case["style"], n, deg, fail, order, len(kept))
        ctx.trace()


def run(ctx, case):
    if case["k"] in ("pair", "keep", "given"):
        with np.errstate(all="ignore"):
            return {"pair": pair, "keep": keep, "given": given}[case["k"]](ctx, case)
    with np.errstate(all="ignore"):
        (hist if case["k"] == "hist" else grow)(ctx, case)
