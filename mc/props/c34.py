"""C34: results depend on argument values, not on how the arguments are laid out, typed or passed."""
import itertools
import numpy as np
from mc.core import Violation

RULE = ("all public routines x all tuples of memory layouts of their array arguments (C, Fortran, every other entry, reversed, part of a larger buffer, read-only, "
        "subclass, byte swapped, unaligned, overlapping arguments) x value menus and sizes 1..5; all tuples of numeric types for arguments that need not be "
        "floating point; all sparse formats incl. duplicate, unsorted and explicitly zero entries; all numpy scalar types of every scalar parameter; all positional/keyword splits; "
        "all subsets of documented defaults passed explicitly; all tuples of layouts of the optional output arrays: equal results, arguments unchanged, results share no memory with them")
ASSUMPTIONS = ["arithmetic may be carried out in another order for another layout: compared to 1e-9 (1e-4 where single precision is passed) relative to the largest entry",
               "operators are float64 (other types are rejected or select another precision)",
               "output arrays of a layout that cannot be written in place may be rejected, but then nothing is returned"]
EXTS = ("tqli", "fttr", "_lanczos")


class Sub(np.ndarray):
    pass


def strided(x):
    b = np.full(tuple(2 * s + 1 for s in x.shape), np.nan if x.dtype.kind == "f" else 99, dtype=x.dtype)
    s = tuple(slice(1, None, 2) for _ in x.shape)
    b[s] = x
    return b[s]


def reverse(x):
    s = tuple(slice(None, None, -1) for _ in x.shape)
    return np.ascontiguousarray(x[s])[s]


def middle(x):
    b = np.full(tuple(s + 2 for s in x.shape), np.nan if x.dtype.kind == "f" else 99, dtype=x.dtype)
    s = tuple(slice(1, -1) for _ in x.shape)
    b[s] = x
    return b[s]


def readonly(x):
    x = x.copy()
    x.setflags(write=False)
    return x


def unaligned(x):
    b = bytearray(x.nbytes + 1)
    y = np.frombuffer(b, dtype=x.dtype, offset=1, count=x.size).reshape(x.shape)
    y[...] = x
    return y


LAYOUT = dict(C=lambda x: x.copy(), F=lambda x: np.array(x, order="F"), strided=strided, reversed=reverse, middle=middle, readonly=readonly,
              subclass=lambda x: x.copy().view(Sub), swapped=lambda x: x.astype(x.dtype.newbyteorder(">")), unaligned=unaligned)
TYPES = dict(f8=lambda x: x.copy(), f4=lambda x: x.astype("f4"), i8=lambda x: x.astype("i8"), i4=lambda x: x.astype("i4"), i2=lambda x: x.astype("i2"),
             u1=lambda x: x.astype("u1"), swapped=lambda x: x.astype("i8").astype(">i8"))


def mats(n):
    if n > 6:
        k = np.arange(n)
        F = np.diag(1.0 + k / n) + 0.25 * np.cos(k[:, None] * k[None, :])
        return [F, F + np.triu(np.sin(k[:, None] + 2.0 * k[None, :]), 1), np.diag(1.0 + k / n)]
    D = np.diag(np.arange(1.0, n + 1))
    off = np.array([1.0, -2.0, 1.0, 3.0, 1.0, -1.0])[: n - 1]
    T = D + np.diag(off, 1) + np.diag(off, -1)
    F = np.add.outer(np.arange(n), np.arange(n)) * 1.0 - 2 * np.eye(n)
    return [T, F, D]


def vecs(n):
    if n > 6:
        k = np.arange(n)
        return [k % 5 + 1.0, (k * k) % 7 - 2.0, np.full(n, 2.0)]
    return [np.array([1.0, -2.0, 3.0, 5.0, 4.0, 7.0])[:n], np.array([4.0, 1.0, 2.0, 3.0, 6.0, 1.0])[:n], np.full(n, 2.0)]


def upd(E, *xs):
    e, out = E(), []
    for x in xs:
        e.update(x)
        out += [np.array(e.estimate, dtype=float), np.array(e.delta, dtype=float), len(e)]
    return out


def routines():
    """name -> (call, argument builder n, i -> list of arrays, number of operator arguments in front, numeric types allowed for the others)."""
    from primate.diagonal import diag, xdiag
    from primate.estimators import ConfidenceCriterion, ControlVariableEstimator, KneeCriterion, MeanEstimator, ToleranceCriterion
    from primate.integrate import quadrature
    from primate.lanczos import lanczos, rayleigh_ritz
    from primate.linalg import update_trinv
    from primate.operators import MatrixFunction, Toeplitz, matrix_function, normalize_unit
    from primate.random import haar, symmetric
    from primate.special import exp, param_callable, smoothstep, softsign, step
    from primate.stats import Covariance, Mean, confidence_interval
    from primate.trace import hutch, hutchpp, xtrace
    from primate.tridiag import eigh_tridiag, eigvalsh_tridiag
    op = lambda n, i: [mats(n)[i]]
    opv = lambda n, i: [mats(n)[i], vecs(n)[0] if i < 2 else vecs(n)[1]]
    opm = lambda n, i: [mats(n)[i], np.column_stack([vecs(n)[1], vecs(n)[0]])]
    vec = lambda n, i: [vecs(n)[i]]
    tri = lambda n, i: [vecs(n)[i], vecs(n)[(i + 1) % 3][: n - 1]]
    tri0 = lambda n, i: [vecs(n)[i], np.append(0.0, vecs(n)[(i + 1) % 3][: n - 1])]
    unit = lambda n, i: [vecs(n)[i] / 8]
    pos = lambda n, i: [np.abs(vecs(n)[i])]
    two = lambda n, i: [np.column_stack([vecs(n)[i], vecs(n)[1] ** 2 + i])]
    rows = lambda n, i: [mats(n)[i][:, : max(1, n - 1)]]
    cr = lambda n, i: [vecs(n)[i], np.append(vecs(n)[i][:1], vecs(n)[(i + 1) % 3][1:]), vecs(n)[0]]
    kw = dict(seed=1, pdf="normal", converge="count", count=3)
    est = lambda r: [r[0], r[1].nit]

    def covar(x):
        c = Covariance(x.shape[1])
        c.update(x[:1])
        c.update(x[1:])
        return [c.mu, c.covariance()]

    def mean(x):
        c = Mean(x.shape[1])
        c.update(x[:1])
        c.update(x[1:])
        return [c.mu]

    def knee(x):
        e = MeanEstimator(record=True, covariance=True)
        e.update(x)
        return [float(KneeCriterion()(e)), float(ToleranceCriterion(rtol=0.3)(e)), float(ConfidenceCriterion(0.9, rtol=0.3)(e)), np.ravel(e.values)]

    R = {
        "hutch": (lambda A: hutch(A, **kw), op, 1),
        "hutch full": (lambda A: est(hutch(A, batch=2, full=True, **kw)), op, 1),
        "hutch rademacher": (lambda A: hutch(A, seed=3, converge="count", count=2), op, 1),
        "hutchpp": (lambda A: hutchpp(A, m=2, seed=1, pdf="normal"), op, 1),
        "hutchpp full": (lambda A: hutchpp(A, seed=1, mode="full", pdf="sphere"), op, 1),
        "xtrace": (lambda A: xtrace(A, seed=1, batch=2, pdf="normal", converge="count", count=2), op, 1),
        "diag": (lambda A: diag(A, **kw), op, 1),
        "diag full": (lambda A: est(diag(A, full=True, **kw)), op, 1),
        "xdiag": (lambda A: xdiag(A, seed=1, pdf="normal", m=2), op, 1),
        "lanczos": (lambda A, v: lanczos(A, v, deg=3, orth=3, return_basis=True), opv, 1),
        "lanczos sparse": (lambda A, v: lanczos(A, v, deg=2, sparse_mat=True), opv, 1),
        "rayleigh_ritz": (lambda A, v: rayleigh_ritz(A, v0=v, deg=3, orth=3), opv, 1),
        "rayleigh_ritz vectors": (lambda A, v: [np.abs(x) for x in rayleigh_ritz(A, v0=v, deg=2, return_eigenvectors=True)], opv, 1),
        "MatrixFunction @": (lambda A, v: MatrixFunction(A, fun="exp", deg=3, t=0.25) @ v, opv, 1),
        "MatrixFunction @ block": (lambda A, v: MatrixFunction(A, fun="exp", deg=3, t=0.25) @ v, opm, 1),
        "MatrixFunction.quad": (lambda A, v: MatrixFunction(A, fun="exp", deg=3, t=0.25).quad(v), opv, 1),
        "MatrixFunction.quad block": (lambda A, v: MatrixFunction(A, fun="exp", deg=3, t=0.25).quad(v), opm, 1),
        "matrix_function": (lambda A, v: matrix_function(A, np.cos, v, 3), opv, 1),
        "normalize_unit": (lambda A, v: normalize_unit(A) @ v, opv, 1),
        "Toeplitz": (lambda c, r, x: Toeplitz(c, r) @ x, cr, 0),
        "Toeplitz symmetric": (lambda c: Toeplitz(c) @ np.eye(len(c)), vec, 0),
        "Toeplitz block": (lambda X: Toeplitz(np.arange(1.0, len(X) + 1)) @ X, rows, 0),
        "haar": (lambda w: haar(len(w), ew=w, seed=1), lambda n, i: [vecs(max(n, 2))[i]], 0),
        "symmetric": (lambda w: symmetric(len(w), ew=w, seed=1), lambda n, i: [vecs(max(n, 2))[i]], 0),
        "symmetric pd": (lambda w: symmetric(len(w), ew=w, pd=True, seed=1), lambda n, i: [vecs(max(n, 2))[i]], 0),
        "update_trinv": (lambda B, b: update_trinv(B, b), lambda n, i: [np.triu(mats(n)[i] + 3 * np.eye(n))[: n - 1, : n - 1], vecs(n)[i]], -1),
        "MeanEstimator": (lambda x: upd(MeanEstimator, x, x[: len(x) // 2 + 1]), vec, 0),
        "MeanEstimator covariance": (lambda x: upd(lambda: MeanEstimator(covariance=True, record=True), x, x[1:]), vec, 0),
        "MeanEstimator vector": (lambda x: upd(lambda: MeanEstimator(dim=x.shape[1], covariance=True), x, x[:1]), rows, 0),
        "ControlVariableEstimator": (lambda x: upd(lambda: ControlVariableEstimator(0.5, alpha=2.0), x, x[:1]), two, 0),
        "ControlVariableEstimator ecv": (lambda c, a: upd(lambda: ControlVariableEstimator(c, alpha=a), np.arange(3.0 * (len(c) + 1)).reshape(3, -1)), lambda n, i: [vecs(n)[i], vecs(n)[(i + 1) % 3]], 0),
        "Covariance": (covar, rows, 0),
        "Mean": (mean, rows, 0),
        "criteria": (knee, vec, 0),
        "confidence_interval": (lambda x: list(confidence_interval(x)) + list(confidence_interval(x, 0.8, sdist="normal")), lambda n, i: [vecs(n + 1)[i]], 0),
        "softsign": (lambda x: softsign(x, 3), unit, 0),
        "softsign object": (lambda x: param_callable("softsign", q=2)(x), vec, 0),
        "smoothstep": (lambda x: smoothstep(x, a=1.0, b=4.0), vec, 0),
        "exp": (lambda x: exp(x, t=0.5), vec, 0),
        "step": (lambda x: step(x, c=2.0), vec, 0),
        "step abs": (lambda x: step(x, c=2.5, nonnegative=True), vec, 0),
    }
    for m in ("mrrr", "tqli", "auto"):
        R[f"eigh_tridiag {m}"] = (lambda d, e, m=m: [eigh_tridiag(d, e, method=m)[0], np.abs(eigh_tridiag(d, e, method=m)[1]).sum()], tri, 0)
        R[f"eigh_tridiag {m} padded"] = (lambda d, e, m=m: eigh_tridiag(d, e, method=m)[0], tri0, 0)
        R[f"eigvalsh_tridiag {m}"] = (lambda d, e, m=m: eigvalsh_tridiag(d, e, method=m), tri, 0)
        R[f"eigvalsh_tridiag {m} padded"] = (lambda d, e, m=m: eigvalsh_tridiag(d, e, method=m), tri0, 0)
    for q in ("gw", "fttr"):
        for k in (None, 2):
            R[f"quadrature {q} {k}"] = (lambda d, e, q=q, k=k: quadrature(d, e, deg=k, quad=q), tri, 0)
            R[f"quadrature {q} {k} padded"] = (lambda d, e, q=q, k=k: quadrature(d, e, deg=k, quad=q), tri0, 0)
    for f in ("identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "numrank"):
        R[f"function {f}"] = (lambda x, f=f: param_callable(f)(x), pos, 0)
    return R


NAMES = ["hutch", "hutch full", "hutch rademacher", "hutchpp", "hutchpp full", "xtrace", "diag", "diag full", "xdiag", "lanczos", "lanczos sparse", "rayleigh_ritz", "rayleigh_ritz vectors",
         "MatrixFunction @", "MatrixFunction @ block", "MatrixFunction.quad", "MatrixFunction.quad block", "matrix_function", "normalize_unit", "Toeplitz", "Toeplitz symmetric", "Toeplitz block",
         "haar", "symmetric", "symmetric pd", "update_trinv", "MeanEstimator", "MeanEstimator covariance", "MeanEstimator vector", "ControlVariableEstimator", "ControlVariableEstimator ecv",
         "Covariance", "Mean", "criteria", "confidence_interval", "softsign", "softsign object", "smoothstep", "exp", "step", "step abs"]
NAMES += [f"{r}_tridiag {m}{p}" for r in ("eigh", "eigvalsh") for m in ("mrrr", "tqli", "auto") for p in ("", " padded")]
NAMES += [f"quadrature {q} {k}{p}" for q in ("gw", "fttr") for k in (None, 2) for p in ("", " padded")]
NAMES += [f"function {f}" for f in ("identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "numrank")]
OPS = [k for k in NAMES if k.split()[0] in ("hutch", "hutchpp", "xtrace", "diag", "xdiag", "lanczos", "rayleigh_ritz", "MatrixFunction", "MatrixFunction.quad", "matrix_function", "normalize_unit")]
MIN_N = {"lanczos": 2, "rayleigh_ritz": 2, "normalize_unit": 3, "xdiag": 2}
SINGULAR = ("xtrace", "xdiag")  # the sketch of a singular operator decides digits by rounding


def cases(tier):
    top = 6 if tier == "thorough" else 5
    for nm in NAMES:
        for n in range(MIN_N.get(nm.split()[0], 1), top + 1):
            yield dict(t="layout", r=nm, n=n)
            yield dict(t="type", r=nm, n=n)
            yield dict(t="both", r=nm, n=n)
            if nm in OPS:
                yield dict(t="sparse", r=nm, n=n)
    for nm in NAMES:
        for n in (33, 110, 130) if nm in OPS else (33, 70):
            yield dict(t="layout", r=nm, n=n)
            if nm in OPS and n > 100:
                yield dict(t="sparse", r=nm, n=n)
    yield dict(t="overlap")
    for nm in SCALARS:
        yield dict(t="scalar", r=nm)
    for nm in SIGS:
        yield dict(t="call", r=nm)
        yield dict(t="defaults", r=nm)
    for n in range(2, top + 1):
        yield dict(t="out", n=n)


def flat(r):
    if isinstance(r, (tuple, list)):
        return np.concatenate([flat(y) for y in r]) if len(r) else np.zeros(0)
    if r is None:
        return np.zeros(0)
    if hasattr(r, "toarray"):
        r = r.toarray()
    if hasattr(r, "estimate") and hasattr(r, "nit"):
        r = [r.estimate, r.nit]
        return flat(r)
    r = np.asarray(r, dtype=float)
    return np.concatenate([np.array(r.shape, dtype=float), np.ravel(r)])


def same(a, b, tol):
    if a.shape != b.shape:
        return False
    fin = np.isfinite(b)
    if not np.array_equal(fin, np.isfinite(a)) or not np.array_equal(a[~fin], b[~fin], equal_nan=True):
        return False
    return bool(np.all(np.abs(a[fin] - b[fin]) <= tol * (1e-3 + np.max(np.abs(b[fin]), initial=0.0))))


def arrays(r):
    if isinstance(r, (tuple, list)):
        return [x for y in r for x in arrays(y)]
    return [r] if isinstance(r, np.ndarray) else []


def setup(ctx):
    global _R
    _R = routines()


def call(f, what, *a, **k):
    with np.errstate(all="ignore"):
        try:
            return f(*a, **k)
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{what}: raises {type(e).__name__}: {str(e)[:200]}")


def raw(x):
    """The arrays a sparse operator is stored in."""
    if not hasattr(x, "toarray"):
        return []
    if x.format == "dok":
        return [np.array(sorted((*k, float(v)) for k, v in x.items()))]
    return [np.array(np.concatenate([np.ravel(r) for r in y]) if y.dtype == object and y.size else y, dtype=float, copy=True)
            for y in (np.asarray(getattr(x, a)) for a in ("data", "indices", "indptr", "row", "col", "offsets", "rows") if hasattr(x, a))]


def compare(ctx, nm, f, base, ref, xs, what, tol):
    was = [raw(x) for x in xs]
    r = call(f, what, *xs)
    for x, w in zip(xs, was):
        ctx.check(len(raw(x)) == len(w) and all(np.array_equal(a, b) for a, b in zip(raw(x), w)), lambda: f"{what}: the stored entries of the operator changed from {w} to {raw(x)}")
    ctx.op()
    ctx.trace()
    ctx.check(same(flat(r), ref, tol), lambda: f"{what}: gives {flat(r)}, for plain arrays of the same values {ref}")
    for b, x in zip(base, xs):
        ctx.check(np.array_equal(np.asarray(b, dtype=float), np.asarray(x.toarray() if hasattr(x, "toarray") else x, dtype=float)), lambda: f"{what}: argument modified from {b} to {x}")
    if not nm.startswith("function identity"):
        for o in arrays(r):
            ctx.check(not any(isinstance(x, np.ndarray) and o.size and np.shares_memory(o, x) for x in xs), lambda: f"{what}: the result shares memory with an argument")


def menu(nm, n):
    for i in range(3):
        if n > 6 and i == 1 and nm in OPS and nm.split()[0] not in ("hutch", "hutchpp", "xtrace", "diag", "xdiag"):
            continue  # not symmetric
        if n > 6 and i == 2:
            continue
        if n <= 6 and nm.split()[0] in SINGULAR and i == 1 and n > 2:
            continue
        yield i


def run(ctx, case):
    t = case["t"]
    if t in ("layout", "type", "both", "sparse"):
        nm, n = case["r"], case["n"]
        f, args, ops = _R[nm]
        for i in menu(nm, n):
            base = args(n, i)
            with np.errstate(all="ignore"):
                ref = flat(f(*[x.copy() for x in base]))
            ctx.state(nm, n, i, ref)
            if t == "layout":
                for forms in itertools.product(LAYOUT, repeat=len(base)):
                    if ops == -1 and len(set(k == "swapped" for k in forms)) > 1:
                        continue
                    ctx.state(nm, n, i, forms)
                    compare(ctx, nm, f, base, ref, [LAYOUT[k](x) for k, x in zip(forms, base)], f"{nm}, n={n}, arguments {[x.tolist() for x in base]} as {forms}", 1e-9)
            elif t == "type":
                menus = [["f8"] if j < ops or ops == -1 else [k for k in TYPES if fits(x, k)] for j, x in enumerate(base)]
                for forms in itertools.product(*menus):
                    ctx.state(nm, n, i, forms)
                    low = any(k in ("f4", "i2", "u1", "i4") for k in forms)
                    if nm == "function sqrt" and forms[0] in ("i2", "u1"):
                        continue  # numpy itself computes these in half and single precision
                    compare(ctx, nm, f, base, ref, [TYPES[k](x) for k, x in zip(forms, base)], f"{nm}, n={n}, arguments {[x.tolist() for x in base]} of type {forms}", 1e-4 if low else 1e-9)
            elif t == "both":
                menus = [[("f8", b) for b in LAYOUT] if j < ops or ops == -1 else [(a, b) for a in TYPES if fits(x, a) for b in LAYOUT if "swapped" not in (a, b)] for j, x in enumerate(base)]
                for forms in itertools.product(*menus):
                    if ops == -1 and len(set(k[1] == "swapped" for k in forms)) > 1:
                        continue
                    if ctx.tier != "thorough" and (len(base) - sum(k == ("f8", "C") for k in forms) > 1 or i):
                        continue
                    if ctx.tier == "thorough" and len(base) > 1 and i and n > 3 or nm == "function sqrt" and forms[0][0] in ("i2", "u1"):
                        continue
                    ctx.state(nm, n, i, forms)
                    low = any(k[0] in ("f4", "i2", "u1", "i4") for k in forms)
                    compare(ctx, nm, f, base, ref, [LAYOUT[b](TYPES[a](x)) for (a, b), x in zip(forms, base)], f"{nm}, n={n}, arguments {[x.tolist() for x in base]} as {forms}", 1e-4 if low else 1e-9)
            else:
                for k, S in sparse(base[0]):
                    if np.shape(S @ np.ones(n)) != (n,):
                        continue  # scipy's own product of a 1x1 coo array with a vector is a scalar
                    ctx.state(nm, n, i, k)
                    compare(ctx, nm, f, base, ref, [S] + [x.copy() for x in base[1:]], f"{nm}, n={n}, operator {base[0].tolist()} as {k}", 1e-9)
    else:
        globals()["run_" + t](ctx, case)


def fits(x, k):
    if k in ("f8", "f4"):
        return True
    return bool(np.all(x == np.round(x))) and (k != "u1" or bool(np.all(x >= 0)))


def sparse(A):
    import scipy.sparse as sp
    n = len(A)
    i, j = np.nonzero(np.ones_like(A))
    for fmt in ("csr", "csc", "coo", "bsr", "dia", "lil", "dok"):
        for kind in ("array", "matrix"):
            yield f"{fmt}_{kind}", getattr(sp, f"{fmt}_{kind}")(A)
    yield "coo with duplicates", sp.coo_array((np.concatenate([0.25 * A.ravel(), 0.75 * A.ravel()]), (np.concatenate([i, i]), np.concatenate([j, j]))), shape=A.shape)
    yield "csr with explicit zeros", sp.csr_array((A.ravel().copy(), (i, j)), shape=A.shape)
    S = sp.csr_array((A[:, ::-1].ravel().copy(), np.tile(np.arange(n)[::-1], n), np.arange(0, n * n + 1, n)), shape=A.shape)
    yield "csr unsorted", S
    d = sp.csr_array((np.concatenate([np.r_[0.5 * r, 0.5 * r] for r in A]), np.tile(np.r_[np.arange(n), np.arange(n)], n), np.arange(0, 2 * n * n + 1, 2 * n)), shape=A.shape)
    yield "csr with duplicates", d
    S = sp.csr_array(A)
    S.indices, S.indptr = S.indices.astype(np.int64), S.indptr.astype(np.int64)
    yield "csr with 64-bit indices", S
    S = sp.csc_array(A)
    for x in (S.data, S.indices, S.indptr):
        x.setflags(write=False)
    yield "csc read-only", S


def run_overlap(ctx, case):
    """Arguments that are views of each other."""
    for nm in NAMES:
        f, args, ops = _R[nm]
        for n in range(MIN_N.get(nm.split()[0], 2), 6):
            for i in menu(nm, n):
                base = args(n, i)
                if len(base) < 2:
                    continue
                for k, xs in overlaps(nm, base, ops):
                    own = [np.array(x, copy=True) for x in xs]
                    with np.errstate(all="ignore"):
                        try:
                            ref = flat(f(*[x.copy() for x in own]))
                        except Exception:
                            continue
                    ctx.state(nm, n, i, k)
                    compare(ctx, nm, f, own, ref, xs, f"{nm}, n={n}, {k} of {base[0].tolist()}", 1e-9)


def overlaps(nm, base, ops):
    a, b = base[0].copy(), base[1]
    if a.ndim == 2 and b.ndim == 1 and ops == 1:
        yield "column 0 as the vector", [a, a[:, 0]]
        yield "last row as the vector", [a, a[-1]]
        yield "diagonal as the vector", [a, a.diagonal()]
    elif a.ndim == 2 and b.ndim == 2:
        yield "first columns as the block", [a, a[:, : b.shape[1]]]
        yield "reversed columns as the block", [a, a[:, ::-1]]
    elif "tridiag" in nm or "quadrature" in nm:
        yield "the diagonal as its own subdiagonal", [a, a[1:]]
        yield "reversed diagonal as subdiagonal", [a, a[::-1][1:]]
        z = np.concatenate([a[:-1], [0.0], a[1:]])
        yield "neighbouring slices", [z[: len(a) - 1], z[len(a) - 1: 2 * len(a) - 2]]
        T = np.diag(a) + np.diag(a[1:], 1) + np.diag(a[1:], -1)
        yield "diagonals of a matrix", [np.diagonal(T), np.diagonal(T, 1)]
        yield "lower diagonals of a matrix", [np.diagonal(T), np.diagonal(T, -1)]
    elif nm == "Toeplitz":
        yield "one array for all", [a, a, a]
        yield "reversed as the vector", [a, a, a[::-1]]
    elif nm == "ControlVariableEstimator ecv":
        yield "one array for both", [a, a]


A4 = np.array([[2.0, 0.5, 0.0, -1.0], [0.5, 1.0, 0.25, 0.0], [0.0, 0.25, 3.0, 0.5], [-1.0, 0.0, 0.5, 2.5]])
V4 = np.array([1.0, -2.0, 3.0, 0.5])
# routine -> parameters in order with a value for each
SIGS = {
    "hutch": ["batch", "pdf", "converge", "seed", "full", "callback"],
    "hutchpp": ["m", "batch", "mode", "pdf", "seed", "full"],
    "xtrace": ["batch", "pdf", "converge", "seed", "full", "callback"],
    "diag": ["pdf", "converge", "seed", "full", "callback", "record"],
    "xdiag": ["m", "pdf", "seed"],
    "lanczos": ["v0", "deg", "rtol", "orth", "sparse_mat", "return_basis", "seed", "dtype"],
    "rayleigh_ritz": ["deg", "return_eigenvectors"],
    "MatrixFunction": ["fun", "deg", "orth", "dtype"],
    "matrix_function": ["fun", "v", "deg"],
    "Toeplitz": ["r", "dtype"],
    "quadrature": ["e", "deg", "quad", "nodes", "weights"],
    "eigh_tridiag": ["e", "method", "maxiter"],
    "eigvalsh_tridiag": ["e", "method", "maxiter"],
    "isotropic": ["size", "pdf", "seed"],
    "isotropic length": ["size", "pdf", "seed"],
    "isotropic sampler": ["size", "pdf", "seed"],
    "symmetric size": ["n", "seed"],
    "haar size": ["n", "seed"],
    "Isotropic": ["pdf", "seed", "threads"],
    "symmetric": ["dist", "pd", "ew", "seed"],
    "haar": ["ew", "seed"],
    "confidence_interval": ["confidence", "sdist"],
    "softsign": ["q"],
    "smoothstep": ["a", "b", "deg"],
    "exp": ["t"],
    "step": ["c", "nonnegative"],
    "CountCriterion": ["count"],
    "ToleranceCriterion": ["rtol", "atol", "ord"],
    "ConfidenceCriterion": ["confidence", "atol", "rtol"],
    "KneeCriterion": ["S"],
    "MeanEstimator": ["dim", "covariance", "record"],
    "ControlVariableEstimator": ["ecv", "alpha", "record"],
    "update_trinv": ["b"],
}
for _n in ("hutch", "xtrace", "diag", "MatrixFunction", "matrix_function", "xdiag", "hutchpp"):  # the same on operators larger than the default sizes
    SIGS[_n + " large"] = [a for a in SIGS[_n] if a not in ("callback", "full", "record")]
FIRST = {"isotropic": 0, "isotropic length": 0, "isotropic sampler": 0, "symmetric size": 0, "haar size": 0, "CountCriterion": 0, "ToleranceCriterion": 0, "ConfidenceCriterion": 0, "KneeCriterion": 0, "MeanEstimator": 0, "ControlVariableEstimator": 0}


def edges():
    """Streams that lie just on one and just on the other side of every documented default threshold."""
    for s in (1 - 1e-3, 1 + 1e-3):
        yield [1e-6 - 1.49e-8 * s, 1e-6 + 1.49e-8 * s]  # last change 1.49e-8 s, 0.01 |mean| = 1e-8
        yield [1 - 0.01 * s, 1 + 0.01 * s]  # last change 0.01 s, mean 1
        u = np.array([-1.0, 1.0, -1.0, 1.0])
        yield list(1 + u * 0.01 * s * 2 / np.sqrt(4 / 3))  # standard error 0.01 s, mean 1
        yield list(u * 2 * s / np.sqrt(4 / 3))  # standard error s, mean 0
        yield list(1e-3 + u * 1e-4 * s)
    for a in np.linspace(0.05, 0.95, 19):  # the knee rule's sensitivity
        yield list(np.cumsum(a ** np.arange(8)))


EDGES = list(edges())


def sig(nm):
    """(function of the parameters giving numbers, first argument or None, values, documented defaults)."""
    from primate import diagonal, estimators, integrate, lanczos, linalg, operators, random, special, stats, trace, tridiag
    seen = []

    def cb(r):
        seen.append(r.nit)

    def est(f):
        def g(*a, **k):
            del seen[:]
            r = f(*a, **k)
            return [r, len(seen)]
        return g
    E = estimators

    def crit(C):
        def g(*a, **k):
            c, out = C(*a, **k), []
            for vals in ([1.0, 1.0, 1.0], [1.0, 2.0, 3.0, 4.0], [1.0, 1.001, 0.999, 1.0], [5.0], [1.0, 1.02, 1.01], [10.0, 1.0, 1.5, 1.1, 1.0, 1.0, 1.0], *EDGES):
                e = E.MeanEstimator(covariance=True, record=True)
                for v in vals:
                    e.update(np.array([v]))
                    out.append(float(c(e)))
            return out
        return g

    def mean(*a, **k):
        e = E.MeanEstimator(*a, **k)
        x = np.array([[1.0, 2.0], [3.0, 5.0], [4.0, -1.0]])
        e.update(x)
        return [e.estimate, e.delta, float(e.values is not None), float(hasattr(e, "_cov"))] if np.size(e.estimate) == 2 else [e.estimate]

    def cv(*a, **k):
        e = E.ControlVariableEstimator(*a, **k)
        e.update(np.array([[1.0, 2.0], [3.0, 5.0], [4.0, -1.0]]))
        return [e.estimate, float(e.values is not None)]

    def mf(A, *a, **k):
        M = operators.MatrixFunction(A, *a, **k)
        return [M @ V4, M.quad(V4), np.dtype(M.dtype).itemsize]

    def toep(c, *a, **k):
        T = operators.Toeplitz(c, *a, **k)
        return [T @ V4, T.dtype.itemsize]

    def iso(size, *a, **k):
        I = random.Isotropic(size, *a, **k)
        I.fill()
        return I.values

    def quad(d, *a, **k):
        r = integrate.quadrature(d, *a, **k)
        return r

    def logged(f, **kw):
        def g(*a, **k):
            counts = []
            r = f(*a, callback=lambda r: counts.append((r.nit, r.estimate)), **kw, **k)
            return [r[0] if isinstance(r, tuple) else r, len(counts), counts]
        return g

    def mfl(A, *a, **k):
        M = operators.MatrixFunction(A, *a, **k)
        return [M @ VL, M.quad(VL)]

    d, e = np.array([1.0, 2.0, 3.0, 5.0]), np.array([0.5, -1.0, 2.0])
    exp_ = np.exp
    i = np.arange(70)
    AL, VL = np.diag(1.0 + 999.0 * (i / 69.0) ** 2) + 0.5 * np.cos(i[:, None] * i[None, :]), np.cos(i * i + 0.5)
    sqrt_ = np.sqrt
    S = {
        "hutch": (est(trace.hutch), A4, [2, "normal", E.CountCriterion(3), 5, True, cb], [32, "rademacher", "default", 5, False, None]),
        "hutchpp": (est(trace.hutchpp), A4, [2, 4, "full", "normal", 5, False], [None, 32, "reduced", "rademacher", 5, False]),
        "xtrace": (est(trace.xtrace), A4, [2, "normal", E.CountCriterion(3), 5, True, cb], [32, "sphere", "default", 5, False, None]),
        "diag": (est(diagonal.diag), A4, ["normal", E.CountCriterion(3), 5, True, cb, True], ["rademacher", "tolerance", 5, False, None, False]),
        "xdiag": (diagonal.xdiag, A4, [4, "normal", 5], [None, "sphere", 5]),
        "lanczos": (lanczos.lanczos, A4, [V4, 3, 1e-6, 2, False, True, 5, np.float64], [V4, None, 1e-8, 0, False, False, None, None]),
        "rayleigh_ritz": (lambda *a, **k: lanczos.rayleigh_ritz(*a, v0=V4, **k), A4, [3, False], [None, False]),
        "MatrixFunction": (mf, A4, [exp_, 3, 2, np.float32], [None, 20, 3, np.float64]),
        "matrix_function": (operators.matrix_function, A4, [exp_, V4, 3], [exp_, V4, 20]),
        "Toeplitz": (toep, d, [V4 - V4[0] + 1.0, np.float32], [None, np.float64]),
        "quadrature": (quad, d, [e, 3, "fttr", np.zeros(3), np.zeros(3)], [e, None, "gw", None, None]),
        "eigh_tridiag": (lambda *a, **k: np.abs(np.concatenate([np.ravel(x) for x in tridiag.eigh_tridiag(*a, **k)])), d, [e, "tqli", 40], [e, "auto", 30]),
        "eigvalsh_tridiag": (tridiag.eigvalsh_tridiag, d, [e, "tqli", 40], [e, "auto", 30]),
        "isotropic": (random.isotropic, None, [(3, 2), "sphere", 5], [(3, 2), "rademacher", 5]),
        "isotropic length": (random.isotropic, None, [5, "sphere", 5], [5, "rademacher", 5]),
        "isotropic sampler": (lambda size, pdf="rademacher", seed=None: random.isotropic(pdf=pdf, seed=seed)(size), None, [5, "sphere", 5], [5, "rademacher", 5]),
        "symmetric size": (lambda n, seed=None: random.symmetric(n, seed=seed), None, [4, 5], [4, 5]),
        "haar size": (lambda n, seed=None: random.haar(n, seed=seed), None, [4, 5], [4, 5]),
        "Isotropic": (iso, (3, 4), ["normal", 5, 2], ["rademacher", 5, None]),
        "symmetric": (random.symmetric, 3, ["uniform", True, d[:3], 5], ["normal", False, None, 5]),
        "haar": (random.haar, 3, [d[:3], 5], [None, 5]),
        "confidence_interval": (stats.confidence_interval, d, [0.8, "normal"], [0.95, "t"]),
        "softsign": (special.softsign, d / 8, [3], [1]),
        "smoothstep": (special.smoothstep, d, [1.5, 4.0, 3], [0.0, 1.0, 3]),
        "exp": (special.exp, d, [0.25], [1.0]),
        "step": (special.step, d - 3.5, [1.25, True], [0.0, False]),
        "CountCriterion": (crit(E.CountCriterion), None, [3], [3]),
        "ToleranceCriterion": (crit(E.ToleranceCriterion), None, [0.3, 0.25, 1], [0.01, 1.49e-8, 2.0]),
        "ConfidenceCriterion": (crit(E.ConfidenceCriterion), None, [0.8, 0.25, 0.5], [0.95, 0.0, 0.01]),
        "KneeCriterion": (crit(E.KneeCriterion), None, [2.0], [1.0]),
        "MeanEstimator": (mean, None, [2, True, True], [1, False, False]),
        "ControlVariableEstimator": (cv, None, [0.5, 2.0, True], [0.5, None, False]),
        "hutch large": (logged(trace.hutch, full=True), AL, [2, "normal", E.CountCriterion(70), 5], [32, "rademacher", "default", 5]),
        "hutchpp large": (trace.hutchpp, AL, [2, 4, "full", "normal", 5], [70 // 3, 32, "reduced", "rademacher", 5]),
        "xtrace large": (logged(trace.xtrace), AL, [2, "normal", E.CountCriterion(3), 5], [32, "sphere", "default", 5]),
        "diag large": (logged(diagonal.diag), AL, ["normal", E.CountCriterion(3), 5], ["rademacher", "tolerance", 5]),
        "xdiag large": (diagonal.xdiag, AL, [4, "normal", 5], [None, "sphere", 5]),
        "MatrixFunction large": (mfl, AL, [sqrt_, 9, 2, np.float32], [None, 20, 3, np.float64]),
        "matrix_function large": (operators.matrix_function, AL, [sqrt_, VL, 9], [sqrt_, VL, 20]),
        "update_trinv": (linalg.update_trinv, np.triu(A4 + np.eye(4)), [np.arange(1.0, 6.0)], [np.arange(1.0, 6.0)]),
    }
    return S[nm]


def guard(nm, f):
    """MeanEstimator with dim 1 takes scalars; everything else as it is."""
    if nm != "MeanEstimator":
        return f
    from primate.estimators import MeanEstimator

    def g(*a, **k):
        e = MeanEstimator(*a, **k)
        x = np.array([[1.0, 2.0], [3.0, 5.0], [4.0, -1.0]])
        e.update(x if np.size(e.delta) == 2 else x.ravel())
        return [e.estimate, e.delta, float(e.values is not None), float(hasattr(e, "_cov"))]
    return g


def run_call(ctx, case):
    nm = case["r"]
    f, x, vals, _ = sig(nm)
    f, pre, names = guard(nm, f), [] if nm in FIRST else [x], SIGS[nm]
    what = f"{nm} called with {dict(zip(names, vals))}"
    ref = flat(call(f, what, *pre, **dict(zip(names, vals))))
    for k in range(len(names) + 1):
        for order in (1, -1):
            kws = dict(list(zip(names, vals))[k:][::order])
            r = flat(call(f, what + f", the first {k} by position", *pre, *vals[:k], **kws))
            ctx.op()
            ctx.trace()
            ctx.state(nm, k, order)
            ctx.check(same(r, ref, 0.0), lambda: f"{what}: gives {ref} by keyword and {r} with the first {k} by position")


def run_defaults(ctx, case):
    nm = case["r"]
    f, x, _, dflt = sig(nm)
    f, pre, names = guard(nm, f), [] if nm in FIRST else [x], SIGS[nm]
    need = [n for n in names if n in ("seed", "n", "e", "size", "v", "fun" if nm.startswith("matrix_function") else "", "count", "ecv", "b", "v0")]
    opt = [n for n in names if n not in need]
    D = dict(zip(names, dflt))
    what = f"{nm} with defaults {D}"
    ref = flat(call(f, what, *pre, **{n: D[n] for n in need}))
    for r in range(len(opt) + 1):
        for sub in itertools.combinations(opt, r):
            got = flat(call(f, what + f", {sub} passed", *pre, **{n: D[n] for n in need + list(sub)}))
            ctx.op()
            ctx.trace()
            ctx.state(nm, sub)
            ctx.check(same(got, ref, 0.0), lambda: f"{what}: omitting {sub} gives {ref}, passing the documented defaults {got}")


INTS = dict(i8=np.int64, i4=np.int32, i2=np.int16)
FLOATS = dict(f8=np.float64, f4=np.float32)
BOOLS = dict(np=np.bool_, int=int)
STRS = dict(np=np.str_)
SCALARS = ["hutch", "hutchpp", "xtrace", "diag", "xdiag", "lanczos", "rayleigh_ritz", "MatrixFunction", "matrix_function", "quadrature", "eigh_tridiag", "eigvalsh_tridiag", "isotropic", "isotropic length", "isotropic sampler", "Isotropic",
           "symmetric", "symmetric size", "haar", "haar size", "confidence_interval", "softsign", "smoothstep", "exp", "step", "CountCriterion", "ToleranceCriterion", "ConfidenceCriterion", "KneeCriterion", "MeanEstimator", "ControlVariableEstimator"]


def run_scalar(ctx, case):
    nm = case["r"]
    f, x, vals, _ = sig(nm)
    f, pre, names = guard(nm, f), [] if nm in FIRST else [x], SIGS[nm]
    # 0.3, 0.01 and the like are not single precision numbers
    V = {n: (0.75 if nm == "ConfidenceCriterion" and n == "confidence" or nm == "confidence_interval" and n == "confidence" else 0.25 if n == "rtol" and nm != "lanczos" else 2.0**-20 if n == "rtol" else v) for n, v in zip(names, vals)}
    ref = flat(call(f, f"{nm}({V})", *pre, **V))
    menus = []
    for n in names:
        v = V[n]
        if isinstance(v, bool):
            m = [("py", v)] + [(k, c(v)) for k, c in BOOLS.items()]
        elif isinstance(v, int):
            m = [("py", v)] + [(k, c(v)) for k, c in INTS.items()]
        elif isinstance(v, float):
            m = [("py", v)] + [(k, c(v)) for k, c in FLOATS.items()] + ([("int", int(v))] + [(k, c(v)) for k, c in INTS.items()] if v == int(v) else [])
        elif isinstance(v, str):
            m = [("py", v), ("np", np.str_(v))]
        elif isinstance(v, tuple):
            m = [("py", v), ("np", tuple(np.int64(i) for i in v)), ("np4", tuple(np.int32(i) for i in v))]
        elif n == "dtype":
            m = [("py", v), ("dtype", np.dtype(v)), ("name", np.dtype(v).name), ("char", np.dtype(v).char)]
        else:
            m = [("py", v)]
        menus.append(m)
    pairs = set()
    for i, j in itertools.combinations_with_replacement(range(len(names)), 2):
        for a in menus[i]:
            for b in menus[j]:
                if (i, a[0], j, b[0]) in pairs or (i == j and a[0] != b[0]):
                    continue
                pairs.add((i, a[0], j, b[0]))
                K = {**V, names[i]: a[1], names[j]: b[1]}
                what = f"{nm}({K}) with {names[i]} as {type(a[1]).__name__}, {names[j]} as {type(b[1]).__name__}"
                got = flat(call(f, what, *pre, **K))
                ctx.op()
                ctx.trace()
                ctx.state(nm, i, a[0], j, b[0])
                ctx.check(same(got, ref, 1e-6), lambda: f"{what}: gives {got}, with Python numbers {ref}")


def run_out(ctx, case):
    """Optional output arrays: filled with what is returned, or rejected."""
    from primate.integrate import quadrature
    from primate.lanczos import lanczos
    from primate.random import isotropic
    n = case["n"]
    forms = {k: g for k, g in LAYOUT.items() if k != "readonly"}
    for i in range(3):
        d, e = vecs(n)[i], vecs(n)[(i + 1) % 3][: n - 1]
        for q in ("gw", "fttr"):
            ref = [np.array(x) for x in quadrature(d, e, quad=q)]
            for a, b in itertools.product(forms, repeat=2):
                o = [forms[a](np.full(n, 7.0)), forms[b](np.full(n, 7.0))]
                what = f"quadrature {q} of {d.tolist()}, {e.tolist()} with output arrays {a}, {b}"
                r = call(quadrature, what, d, e, quad=q, nodes=o[0], weights=o[1])
                ctx.op()
                ctx.state("quad", n, i, q, a, b)
                ctx.check(all(same(flat(x), flat(y), 1e-12) and same(flat(z), flat(y), 1e-12) for x, y, z in zip(o, ref, r)), lambda: f"{what}: outputs {o}, returned {r}, without {ref}")
        A, v = mats(n)[i], vecs(n)[1]
        ref = flat(lanczos(A, v0=v, deg=n, orth=n))
        for a, b in itertools.product(LAYOUT, repeat=2):
            what = f"lanczos of {A.tolist()} with workspace arrays {a}, {b}"
            al, be = LAYOUT[a](np.zeros(n + 1)), LAYOUT[b](np.zeros(n + 1))
            ctx.op()
            ctx.state("lanczos", n, i, a, b)
            try:
                got = flat(lanczos(A, v0=v, deg=n, orth=n, alpha=al, beta=be))
            except Exception:
                ctx.outcome("workspace rejected")
                ctx.check(not {a, b} <= {"C", "F", "middle", "subclass"}, lambda: f"{what}: rejected")
                continue
            ctx.outcome("workspace used")
            ctx.check(same(got, ref, 1e-9), lambda: f"{what}: gives {got}, without {ref}")
            ctx.check(same(np.asarray(al[:n], dtype=float), ref[1 : n + 1], 1e-9), lambda: f"{what}: the array holds {al}, returned {got}")
    for pdf in ("rademacher", "normal", "sphere"):
        for m in (1, 2, 3):
            for k, g in LAYOUT.items():
                o = g(np.full((n, m), 7.0))
                ctx.op()
                ctx.state("iso", pdf, n, m, k)
                try:
                    r = isotropic(pdf=pdf, seed=3, out=o)
                except Exception:
                    ctx.outcome("output rejected")
                    ctx.check(k not in ("C", "F", "subclass"), lambda: f"isotropic {pdf} into a {n}x{m} array ({k}): rejected")
                    continue
                ctx.outcome("output filled")
                c = np.asarray(o, dtype=float)
                ok = np.all(np.abs(c) == 1.0) if pdf == "rademacher" else np.allclose((c**2).sum(axis=0), n) if pdf == "sphere" else not np.any(c == 7.0)
                ctx.check(r is None and bool(ok), lambda: f"isotropic {pdf} into a {n}x{m} array ({k}): {c.tolist()}")
