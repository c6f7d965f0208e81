"""C29: rejection of invalid operators and arguments, acceptance of valid ones."""
import itertools
import numpy as np
from mc.core import raises
from mc.lib import Scripted, Spy, struct_family
from mc.props.c14 import reps

RULE = ("complete product of entry points x operator kinds (every representation and precision, dimensions 1..4; wrong rank, not square, wrong "
        "type, without products) with and without keyword options, and complete menus of out-of-range arguments per entry point; "
        "rejections must be exceptions raised before the sampler is asked for anything")
ASSUMPTIONS = ["integer/half/complex operators must be rejected by hutch, hutchpp, diag, lanczos and rayleigh_ritz (the others may promote them)"]
EXTS = ("tqli", "fttr", "_lanczos")


class NoProducts:
    shape, dtype = (2, 2), np.dtype("float64")


class WrongResult:
    """matrix-free operator whose products do not have its shape"""

    def __init__(self, n, out, dt):
        self.shape, self.dtype, self.out = (n, n), np.dtype(dt), out

    def matvec(self, x):
        return self.out

    __matmul__ = matvec


class NoDtype:
    """product and shape only; the precision has to be inferred"""

    def __init__(self, A):
        self.A, self.shape = A, A.shape

    def matvec(self, x):
        return self.A @ x

    __matmul__ = matvec


def bad_shape():
    import scipy.sparse as sp
    from scipy.sparse.linalg import aslinearoperator
    for dt in (np.float32, np.float64):
        yield "vector", np.ones(3, dtype=dt)
        yield "scalar array", np.array(1.0, dtype=dt)
        for s in ((2, 2, 2), (1, 1, 1), (3, 3, 1), (1, 3, 3), (2, 2, 1, 1)):
            yield f"array of shape {s}", np.ones(s, dtype=dt)
        for s in ((2, 3), (3, 2), (1, 2), (4, 1), (32, 33), (65, 64), (1, 100)):
            yield f"array of shape {s}", np.ones(s, dtype=dt)
            yield f"csr of shape {s}", sp.csr_matrix(np.ones(s, dtype=dt))
            yield f"csc_array of shape {s}", sp.csc_array(np.ones(s, dtype=dt))
            yield f"linop of shape {s}", aslinearoperator(np.ones(s, dtype=dt))
            yield f"duck of shape {s}", Spy(np.ones(s, dtype=dt), dt)
    yield "no products", NoProducts()
    yield "list", [[1.0, 0.0], [0.0, 1.0]]
    yield "None", None
    yield "text", "x"
    yield "number", 2.0
    yield "function", np.cos


def bad_type():
    import scipy.sparse as sp
    from scipy.sparse.linalg import aslinearoperator
    for dt in (np.int32, np.int64, np.uint8, np.bool_, np.float16, np.complex64, np.complex128, np.longdouble):
        M = np.eye(2).astype(dt)
        yield f"dense {np.dtype(dt)}", M
        if dt not in (np.float16, np.longdouble):
            yield f"csr {np.dtype(dt)}", sp.csr_matrix(M)
        yield f"linop {np.dtype(dt)}", aslinearoperator(M)
    yield "empty, not square", np.ones((0, 2))
    yield "object", np.eye(2).astype(object)


def entries():
    from primate.diagonal import diag, xdiag
    from primate.lanczos import lanczos, rayleigh_ritz
    from primate.operators import MatrixFunction, is_linear_op, is_valid_operator, matrix_function, normalize_unit
    from primate.trace import hutch, hutchpp, xtrace

    def flag(A):
        if not is_linear_op(A):
            raise ValueError("reported invalid")

    c = dict(converge="count", count=2)
    typed = {"hutch": lambda A, p: hutch(A, pdf=p, **c), "hutch full": lambda A, p: hutch(A, pdf=p, full=True, batch=2, **c),
             "hutchpp": lambda A, p: hutchpp(A, m=1, pdf=p), "hutchpp full": lambda A, p: hutchpp(A, m=1, mode="full", pdf=p, full=True),
             "diag": lambda A, p: diag(A, pdf=p, **c), "diag full": lambda A, p: diag(A, pdf=p, full=True, **c),
             "lanczos": lambda A, p: lanczos(A, seed=0), "lanczos basis": lambda A, p: lanczos(A, seed=0, return_basis=True, orth=1),
             "rayleigh_ritz": lambda A, p: rayleigh_ritz(A, seed=0), "is_valid_operator": lambda A, p: is_valid_operator(A)}
    untyped = {"xtrace": lambda A, p: xtrace(A), "xdiag": lambda A, p: xdiag(A), "MatrixFunction": lambda A, p: MatrixFunction(A),
               "matrix_function": lambda A, p: matrix_function(A, v=np.ones(2)), "normalize_unit": lambda A, p: normalize_unit(A),
               "is_linear_op": lambda A, p: flag(A), "lanczos dtype": lambda A, p: lanczos(A, seed=0, dtype=np.float64)}
    return typed, untyped


def arg_menu():
    """(name, call) pairs; every call has to raise"""
    from primate.diagonal import diag, xdiag
    from primate.estimators import ConfidenceCriterion, ControlVariableEstimator, ConvergenceCriterion, CountCriterion, MeanEstimator, convergence_criterion
    from primate.integrate import quadrature
    from primate.lanczos import lanczos, rayleigh_ritz
    from primate.linalg import update_trinv
    from primate.operators import MatrixFunction, Toeplitz, matrix_function
    from primate.random import Isotropic, haar, isotropic, symmetric
    from primate.special import param_callable, smoothstep
    from primate.stats import Covariance, Mean, confidence_interval
    from primate.trace import hutch, hutchpp, xtrace
    from primate.tridiag import eigh_tridiag, eigvalsh_tridiag
    A = np.array([[2.0, 1.0, 0.0], [1.0, 3.0, 0.5], [0.0, 0.5, 1.0]])
    I2 = np.eye(2)
    for nm, f in (("hutch", hutch), ("hutchpp", hutchpp), ("xtrace", xtrace), ("diag", diag), ("xdiag", xdiag)):
        for p in ("bogus", "", "Rademacher ", "uniform"):
            yield f"{nm} pdf={p!r}", lambda f=f, p=p: f(A, pdf=p)
    for nm, f in (("hutch", hutch), ("xtrace", xtrace), ("diag", diag)):
        for c in ("bogus", "", "counts", 3, None, 0.5, CountCriterion):
            yield f"{nm} converge={c!r}", lambda f=f, c=c: f(A, converge=c)
        yield f"{nm} count rule without a count", lambda f=f: f(A, converge="count")
        yield f"{nm} confidence=1.5", lambda f=f: f(A, converge="confidence", confidence=1.5)
    for b in (0, -1, -32):
        yield f"xtrace batch={b}", lambda b=b: xtrace(A, batch=b)
        yield f"hutch batch={b}", lambda b=b: hutch(A, batch=b, full=True, converge="count", count=3)
    for d in (0, -1, -5):
        yield f"lanczos deg={d}", lambda d=d: lanczos(A, deg=d)
        yield f"rayleigh_ritz deg={d}", lambda d=d: rayleigh_ritz(A, deg=d)
        yield f"MatrixFunction deg={d}", lambda d=d: MatrixFunction(A, deg=d)
    yield "MatrixFunction deg=1", lambda: MatrixFunction(A, deg=1)
    for k in (0, 1, 2, 4, 7):
        v = np.ones(k)
        yield f"lanczos start of length {k}", lambda v=v: lanczos(A, v0=v)
        yield f"MatrixFunction.matvec length {k}", lambda v=v: MatrixFunction(A).matvec(v)
        yield f"MatrixFunction @ length {k}", lambda v=v: MatrixFunction(A) @ v
        yield f"MatrixFunction.quad length {k}", lambda v=v: MatrixFunction(A).quad(v)
        yield f"MatrixFunction.quad block of {k} rows", lambda v=v: MatrixFunction(A).quad(np.ones((len(v), 2)))
        yield f"matrix_function length {k}", lambda v=v: matrix_function(A, v=v)
        yield f"Toeplitz length {k}", lambda v=v: Toeplitz(np.arange(3.0)) @ v
        if k:
            yield f"Toeplitz row of length {k}", lambda v=v: Toeplitz(np.arange(3.0), v) @ np.ones(3)
    for n in (2, 3, 5):
        for dt in (np.float64, np.float32):
            for onm, o in [(f"{k} entries", np.ones(k, dtype=dt)) for k in (0, 1, n - 1, n + 1, 2 * n)] + [("a number", 1.0), ("nothing", None), ("a block", np.ones((n, 2), dtype=dt)), ("text", "x")]:
                B = WrongResult(n, o, dt)
                what = f"an operator of dimension {n} whose products are {onm}"
                yield f"lanczos of {what}", lambda B=B, n=n: lanczos(B, v0=np.ones(n), deg=2)
                yield f"lanczos with basis of {what}", lambda B=B, n=n: lanczos(B, seed=1, deg=n, orth=n, return_basis=True)
                yield f"rayleigh_ritz of {what}", lambda B=B, n=n: rayleigh_ritz(B, seed=1)
                yield f"MatrixFunction @ of {what}", lambda B=B, n=n: MatrixFunction(B, deg=2, dtype=B.dtype) @ np.ones(n)
                yield f"MatrixFunction.quad of {what}", lambda B=B, n=n: MatrixFunction(B, deg=2, dtype=B.dtype).quad(np.ones((n, 2)))
    for nm, kw in (("short alpha", dict(alpha=np.zeros(3))), ("long beta", dict(beta=np.zeros(5))), ("alpha dtype", dict(alpha=np.zeros(4, dtype=np.float32))),
                   ("basis shape", dict(Q=np.zeros((3, 1), order="F"))), ("basis rows", dict(Q=np.zeros((2, 3), order="F"))), ("basis order", dict(Q=np.zeros((3, 3), order="C"), return_basis=True)),
                   ("alpha list", dict(alpha=[0.0] * 4)), ("dtype", dict(dtype=np.int64)), ("dtype", dict(dtype=np.complex128)), ("dtype", dict(dtype=np.float16))):
        yield f"lanczos workspace: {nm}", lambda kw=kw: lanczos(A, v0=np.ones(3), deg=3, **kw)
    for c in (0.0, 1.0, -0.5, 1.5, 95):
        yield f"ConfidenceCriterion({c})", lambda c=c: ConfidenceCriterion(c)
        if not 0 <= c <= 1:
            yield f"confidence_interval({c})", lambda c=c: confidence_interval([1.0, 2.0, 3.0], c)
    for s in ("bogus", "", "T"):
        yield f"confidence_interval sdist={s!r}", lambda s=s: confidence_interval([1.0, 2.0, 3.0], sdist=s)
    yield "ConvergenceCriterion(not callable)", lambda: ConvergenceCriterion(3)
    for a in ([1.0, 2.0], [1.0, 2.0, 3.0, 4.0]):
        yield f"ControlVariableEstimator alpha {a}", lambda a=a: ControlVariableEstimator(ecv=[0.0, 0.0, 1.0], alpha=a)
    for k in (1, 3):
        yield f"Mean dim 2 update width {k}", lambda k=k: Mean(2).update(np.ones((4, k)))
        yield f"Covariance dim 2 update width {k}", lambda k=k: Covariance(2).update(np.ones((4, k)))
        yield f"MeanEstimator dim 2 update width {k}", lambda k=k: MeanEstimator(dim=2).update(np.ones((4, k)))
        yield f"MeanEstimator dim 2 covariance update width {k}", lambda k=k: MeanEstimator(dim=2, covariance=True).update(np.ones((4, k)))
    for p in ("bogus", "", "NORMAL", None, 3):
        yield f"isotropic pdf={p!r}", lambda p=p: isotropic((2, 2), pdf=p)
        yield f"deferred isotropic pdf={p!r}", lambda p=p: isotropic(pdf=p)
        yield f"Isotropic pdf={p!r}", lambda p=p: Isotropic((2, 2), pdf=p)
    yield "isotropic out list", lambda: isotropic(out=[0.0, 0.0])
    for d in ("bogus", "", "gaussian"):
        yield f"symmetric dist={d!r}", lambda d=d: symmetric(3, dist=d)
    for k in (2, 4):
        yield f"symmetric {k} eigenvalues", lambda k=k: symmetric(3, ew=np.ones(k))
        yield f"haar {k} eigenvalues", lambda k=k: haar(3, ew=np.ones(k))
    d, e = np.ones(3), np.ones(2)
    for m in ("bogus", "", "MRRR", None):
        yield f"eigh_tridiag method={m!r}", lambda m=m: eigh_tridiag(d, e, method=m)
        yield f"eigvalsh_tridiag method={m!r}", lambda m=m: eigvalsh_tridiag(d, e, method=m)
        yield f"quadrature quad={m!r}", lambda m=m: quadrature(d, e, quad=m)
    for k in (0, 1, 4, 6):
        yield f"eigh_tridiag off-diagonal of length {k}", lambda k=k: eigh_tridiag(d, np.ones(k))
        yield f"eigvalsh_tridiag off-diagonal of length {k}", lambda k=k: eigvalsh_tridiag(d, np.ones(k))
        yield f"quadrature off-diagonal of length {k}", lambda k=k: quadrature(d, np.zeros(k))
    yield "quadrature leading off-diagonal not zero", lambda: quadrature(d, np.ones(3))
    for k in (1, 2, 4):
        yield f"quadrature nodes of length {k}", lambda k=k: quadrature(d, e, nodes=np.zeros(k), weights=np.zeros(3))
        yield f"quadrature nodes of length {k} alone", lambda k=k: quadrature(d, e, nodes=np.zeros(k))
        yield f"quadrature weights of length {k} alone", lambda k=k: quadrature(d, e, weights=np.zeros(k))
        if k > 1:
            yield f"quadrature of degree 1, nodes of length {k}", lambda k=k: quadrature(d, e, deg=1, nodes=np.zeros(k), weights=np.zeros(1))
            yield f"quadrature of degree 1, weights of length {k}", lambda k=k: quadrature(d, e, deg=1, nodes=np.zeros(1), weights=np.zeros(k))
        yield f"quadrature weights of length {k}", lambda k=k: quadrature(d, e, nodes=np.zeros(3), weights=np.zeros(k))
    for k in (0, 1, 2, 4):
        yield f"update_trinv column of length {k}", lambda k=k: update_trinv(I2, np.ones(k))
    yield "update_trinv not square", lambda: update_trinv(np.ones((2, 3)), np.ones(3))
    yield "update_trinv precisions", lambda: update_trinv(I2, np.ones(3, dtype=np.float32))
    for f in ("bogus", "", "EXP", "sign"):
        yield f"param_callable {f!r}", lambda f=f: param_callable(f)
        yield f"MatrixFunction fun={f!r}", lambda f=f: MatrixFunction(A, fun=f)
    for f in (3, "x", [np.exp]):
        yield f"MatrixFunction fun={f!r}", lambda f=f: MatrixFunction(A, fun=f)
        yield f"param_callable {f!r}", lambda f=f: param_callable(f)
    for k in (0, 2, 4):
        yield f"smoothstep deg={k}", lambda k=k: smoothstep(deg=k)

    def setfun(f):
        M = MatrixFunction(A)
        M.fun = f

    for f in (3, None, lambda x: 1.0, lambda x: np.ones(2)):
        yield f"MatrixFunction.fun = {f!r}", lambda f=f: setfun(f)


def cases(tier):
    for i in range(12):
        yield dict(kind="bad", part=i)
    for i in range(8):
        yield dict(kind="args", part=i)
    for n in (1, 2, 3, 4, 12, 40) if tier != "thorough" else list(range(1, 8)) + [12, 33, 40, 70]:
        for nm in ("diag", "lap", "arrow", "ones", "zero", "eye", "invol", "hilb", "big"):
            yield dict(kind="good", n=n, name=nm)


def run(ctx, case):
    typed, untyped = entries()
    if case["kind"] == "bad":
        allm = [(k, A, dict(typed, **untyped)) for k, A in bad_shape()] + [(k, A, typed) for k, A in bad_type()]
        for i, (k, A, es) in enumerate(allm):
            if i % 12 != case["part"]:
                continue
            for e, f in es.items():
                ctx.op()
                pdf = Scripted(np.shape(A)[0] if np.ndim(A) else 2, [])
                pdf.n = None
                calls = []

                def sampler(size):
                    calls.append(size)
                    raise AssertionError("sampled")
                ctx.check(raises(f, A, sampler), lambda: f"{e} accepted an invalid operator: {k}")
                ctx.check(not calls, lambda: f"{e} sampled {calls} for an invalid operator: {k}")
                ctx.state(k, e)
        ctx.trace()
        return
    if case["kind"] == "args":
        for i, (nm, f) in enumerate(arg_menu()):
            if i % 8 != case["part"]:
                continue
            ctx.op()
            ctx.check(raises(f), lambda: f"invalid argument accepted: {nm}")
            ctx.state(nm)
        ctx.trace()
        return
    from primate.operators import MatrixFunction, is_linear_op, is_valid_operator
    n = case["n"]
    fam = struct_family(n)
    if case["name"] not in fam:
        return
    A = fam[case["name"]]
    one = lambda size: np.ones((size, 1) if isinstance(size, (int, np.integer)) else size) + np.arange(size if isinstance(size, (int, np.integer)) else size[0])[:, None] * 0.25
    for dt in (np.float32, np.float64):
        for rn, B in list(reps(A, dt)) + [("no dtype", NoDtype(A.astype(dt)))]:
            t = is_valid_operator(B)
            ctx.op()
            want = np.dtype(dt) if rn != "no dtype" else np.dtype(np.float64)
            ctx.check(np.dtype(t) == want, lambda: f"{rn} of {np.dtype(dt)}: precision reported as {t}")
            ctx.check(is_linear_op(B) is True or bool(is_linear_op(B)), lambda: f"{rn} reported as invalid")
            for e in ("hutch", "hutch full", "diag", "diag full", "hutchpp", "hutchpp full"):
                try:
                    r = typed[e](B, one)
                except Exception as ex:
                    ctx.check(False, f"{e} rejected a valid operator ({rn}, {np.dtype(dt)}, {case['name']} {n}): {ex!r}")
                ctx.op()
            if rn != "no dtype":
                for e in ("lanczos", "lanczos basis", "rayleigh_ritz"):
                    if e == "rayleigh_ritz" and n == 1:
                        continue
                    try:
                        r = typed[e](B, one)
                    except Exception as ex:
                        ctx.check(False, f"{e} rejected a valid operator ({rn}, {np.dtype(dt)}, {case['name']} {n}): {ex!r}")
                    ctx.op()
                    if e == "lanczos":
                        ctx.check(r[0].dtype == np.dtype(dt), lambda: f"lanczos of a {np.dtype(dt)} operator ({rn}) returns {r[0].dtype}")
            M = MatrixFunction(B, deg=2, dtype=dt)
            ctx.check(M.dtype == np.dtype(dt) and M.shape == (n, n), lambda: f"matrix function of {rn}: dtype {M.dtype}, shape {M.shape}")
    ctx.state(n, case["name"])
    ctx.trace()
