"""C35: user hooks - faults propagate and leave nothing behind, answers may come in any form."""
import itertools
import os
import random
import sys
import threading
import warnings
import numpy as np
from mc.core import Violation
from mc.props.c34 import LAYOUT

RULE = ("all routines that call user code (operator products in five styles, quadratic forms, samplers, spectral functions, callbacks, stopping rules and their messages) x sizes x every use of "
        "a hook x exception types: the very exception reaches the caller, no hook is used again, generators stand where they stood, arguments and process-wide settings are unchanged, and the "
        "same objects then give what they gave before; all forms of answers (the argument itself or a view of it, every memory layout, integer and Boolean arrays, numpy "
        "and 0-d truth values, any callback value) x every subset of hooks: the result of plain answers; every public routine: process-wide settings unchanged")
ASSUMPTIONS = ["results after a fault are compared to 1e-9 (reused workspaces), results of other answer forms to 1e-9 (order of summation)",
               "hooks do not modify what they are given"]
EXTS = ("tqli", "fttr", "_lanczos")


class Stop(BaseException):
    pass


class Fault(Exception):
    pass


EXC = [Fault, Stop, ValueError, TypeError, AttributeError, AssertionError, KeyError, IndexError, StopIteration, RuntimeError, GeneratorExit, NotImplementedError, ArithmeticError, FloatingPointError, ZeroDivisionError,
       OverflowError, MemoryError, OSError, np.linalg.LinAlgError, KeyboardInterrupt, SystemExit, UserWarning]


def mat(n, i):
    A = np.add.outer(np.arange(n), np.arange(n)) * 0.25 + np.diag(np.arange(1.0, n + 1) * (-1) ** np.arange(n) + 2 * i)
    return [A, np.diag(np.arange(1.0, n + 1)) + 0.5 * (np.eye(n, k=1) + np.eye(n, k=-1)), np.eye(n)[::-1].copy(), 3 * np.eye(n), np.eye(n)][i]


class World:
    """The objects of one scenario; every use of a hook goes through use()."""

    def __init__(self, case):
        self.case, self.n, self.k, self.exc = case, 0, None, None
        self.log, self.forms = [], {}
        n = case["n"]
        self.M = mat(n, case["m"])
        self.V = np.column_stack([np.arange(1.0, n + 1), np.ones(n) * 2, (-1.0) ** np.arange(n)])
        self.own = [self.M.copy(), self.V.copy()]
        self.g, self.g2 = np.random.default_rng(8), np.random.default_rng(9)
        self.start = [g.bit_generator.state for g in (self.g, self.g2)]
        self.ops, self.keep = {}, {}

    def reset(self):
        self.n, self.k, self.log = 0, None, []
        for g, s in zip((self.g, self.g2), self.start):
            g.bit_generator.state = s

    def use(self, what):
        self.n += 1
        self.log.append((what, repr(self.states())))
        if self.k is not None and self.n == self.k + 1:
            raise self.exc

    def states(self):
        return [g.bit_generator.state for g in (self.g, self.g2)]

    def answer(self, what, y, x=None):
        """y in the form chosen for this hook; x is what the hook was given."""
        f = self.forms.get(what, "plain")
        if f == "plain" or y is None:
            return y
        if f == "view":
            if x is not None and x.shape == y.shape:
                for v in (x, x[::-1]):
                    if np.array_equal(v, y):
                        return v
            return y
        if f in LAYOUT:
            return LAYOUT[f](y)
        if f == "int":
            return y.astype(np.int64) if np.array_equal(y, np.round(y)) else y
        if f == "i1":
            return y.astype(np.int8) if np.array_equal(y, np.round(y)) and np.abs(y).max(initial=0) < 100 else y
        if f == "bool":
            return y.astype(bool) if np.isin(y, (0.0, 1.0)).all() else y
        raise KeyError(f)

    # hooks
    def product(self, x):
        self.use("op")
        return self.answer("op", self.M @ x, x)

    def op(self):
        style = self.case.get("style", "obj")
        if style not in self.ops:
            self.ops[style] = STYLES[style](self)
        return self.ops[style]

    def pdf(self, kind="rademacher"):
        def f(size):
            from primate.random import isotropic
            self.use("pdf")
            return self.answer("pdf", isotropic(size, pdf=kind, seed=self.g2))
        return f

    def fun(self, kind="exp"):
        def f(x):
            self.use("fun")
            y = np.exp(0.5 * x) if kind == "exp" else np.where(x < 1.5, 0.0, 1.0) if kind == "step" else x.copy()
            return self.answer("fun", y, x)
        return f

    def cb(self, *a):
        self.use("callback")
        return {"true": True, "false": False, "text": "stop", "array": np.zeros(3), "plain": None}[self.forms.get("callback", "plain")]

    def rule(self, count=3, base="ConvergenceCriterion"):
        from primate.estimators import ConvergenceCriterion
        w = self

        class Rule(ConvergenceCriterion):
            def __init__(self):
                pass

            def __call__(self, est):
                w.use("rule")
                r = len(est) >= count
                f = w.forms.get("rule", "plain")
                return np.bool_(r) if f == "npbool" else int(r) if f == "int" else np.array(r) if f == "0d" else r

            def message(self, est):
                w.use("message")
                return f"done {len(est)}"
        return Rule() if base == "sub" else ConvergenceCriterion(Rule().__call__)


class Obj:
    def __init__(self, w):
        self.w, self.shape, self.dtype = w, w.M.shape, w.M.dtype

    def matvec(self, x):
        return self.w.product(x)

    def __matmul__(self, x):
        return self.w.product(x)

    @property
    def T(self):
        return self


class Quad(Obj):
    def quad(self, x):
        self.w.use("quad")
        X = x[:, None] if x.ndim == 1 else x
        return self.w.answer("quad", np.einsum("ij,ij->j", X, self.w.M @ X))


class NoType(Obj):
    def __init__(self, w):
        self.w, self.shape = w, w.M.shape


def linop(w, block):
    from scipy.sparse.linalg import LinearOperator
    return LinearOperator(w.M.shape, matvec=w.product, rmatvec=w.product, matmat=w.product if block else None, rmatmat=w.product if block else None, dtype=w.M.dtype)


STYLES = {"obj": Obj, "quad": Quad, "notype": NoType, "linop": lambda w: linop(w, True), "linop vec": lambda w: linop(w, False)}


def hosts():
    from primate.diagonal import diag, xdiag
    from primate.lanczos import lanczos, rayleigh_ritz
    from primate.operators import MatrixFunction, is_valid_operator, matrix_function, normalize_unit
    from primate.trace import hutch, hutchpp, xtrace
    rec = lambda r: [r[0], np.ravel(r[1].estimate), r[1].nit, float(r[1].message == "" or "done" in r[1].message or "Est" in r[1].message or "omposite" in r[1].message)]

    def mf(w, fun="exp", **k):
        # one object for the whole life of the world
        if "F" not in w.keep:
            w.keep["F"] = MatrixFunction(w.op(), fun=w.fun(fun), deg=3, dtype=np.float64, **k)
        return w.keep["F"]

    def ruled(w, base):
        if base not in w.keep:
            w.keep[base] = w.rule(3, base)
        return w.keep[base]

    return {
        "hutch": lambda w: hutch(w.op(), pdf=w.pdf("normal"), converge="count", count=3, seed=w.g),
        "hutch named": lambda w: hutch(w.op(), pdf="normal", converge="count", count=3, seed=w.g),
        "hutch signs": lambda w: rec(hutch(w.op(), pdf=w.pdf(), converge=ruled(w, "sub"), callback=w.cb, batch=2)),
        "hutch full": lambda w: rec(hutch(w.op(), pdf="sphere", converge=ruled(w, "sub"), callback=w.cb, batch=2, full=True, seed=w.g)),
        "hutch composite": lambda w: rec(hutch(w.op(), pdf=w.pdf(), converge=ruled(w, "sub") | ruled(w, "plain"), full=True, batch=1)),
        "hutch mf": lambda w: hutch(mf(w), pdf=w.pdf("normal"), converge="count", count=2),
        "hutch step": lambda w: hutch(mf(w, "step", orth=3), pdf=w.pdf(), converge="count", count=2, full=True, batch=2)[0],
        "hutchpp": lambda w: hutchpp(w.op(), m=2, pdf=w.pdf("normal")),
        "hutchpp full": lambda w: hutchpp(w.op(), pdf="normal", mode="full", seed=w.g, full=True)[0],
        "hutchpp mf": lambda w: hutchpp(mf(w), m=1, pdf=w.pdf("normal")),
        "xtrace": lambda w: xtrace(w.op(), batch=2, pdf=w.pdf("normal"), converge=ruled(w, "sub"), callback=w.cb),
        "xtrace named": lambda w: xtrace(w.op(), batch=1, pdf="sphere", seed=w.g, converge=ruled(w, "plain"), callback=w.cb, full=True)[0],
        "diag": lambda w: diag(w.op(), pdf=w.pdf("normal"), converge="count", count=3),
        "diag full": lambda w: rec(diag(w.op(), pdf="normal", seed=w.g, converge=ruled(w, "sub"), callback=w.cb, full=True)),
        "diag mf": lambda w: diag(mf(w), pdf=w.pdf(), converge="count", count=2),
        "diag rule": lambda w: diag(w.op(), pdf=w.pdf("normal"), converge=ruled(w, "plain")),
        "diag rules": lambda w: diag(w.op(), pdf="sphere", seed=w.g, converge=ruled(w, "sub") & ruled(w, "plain")),
        "hutch rule": lambda w: hutch(w.op(), pdf=w.pdf("normal"), converge=ruled(w, "plain"), batch=2),
        "hutch rules": lambda w: hutch(w.op(), pdf="normal", seed=w.g, converge=ruled(w, "sub") | ruled(w, "plain"), batch=1),
        "xtrace rules": lambda w: xtrace(w.op(), batch=1, pdf="normal", seed=w.g, converge=ruled(w, "sub") & ruled(w, "plain")),
        "xdiag": lambda w: xdiag(w.op(), m=2, pdf="normal", seed=w.g),
        "lanczos": lambda w: lanczos(w.op(), v0=w.V[:, 0], deg=3, orth=2, return_basis=True),
        "lanczos plain": lambda w: lanczos(w.op(), deg=3, seed=w.g),
        "ritz": lambda w: rayleigh_ritz(w.op(), v0=w.V[:, 0], deg=3, orth=3),
        "mf": lambda w: mf(w) @ w.V[:, 0],
        "mf block": lambda w: mf(w, orth=3) @ w.V,
        "mf step": lambda w: mf(w, "step", orth=3) @ w.V[:, 0],
        "mf id": lambda w: mf(w, "id", orth=2) @ w.V[:, 1],
        "mf quad": lambda w: mf(w, orth=2).quad(w.V),
        "mf mixed": lambda w: [mf(w).quad(w.V[:, 1]), mf(w) @ w.V[:, 0], mf(w).quad(w.V)],
        "matrix_function": lambda w: matrix_function(w.op(), fun=w.fun(), v=w.V[:, 0], deg=3),
        "normalize": lambda w: np.sort(np.abs(normalize_unit(w.op()) @ w.V[:, 0])),
        "valid": lambda w: float(is_valid_operator(w.op()).itemsize),
    }


HOSTS = ["hutch", "hutch named", "hutch signs", "hutch full", "hutch composite", "hutch mf", "hutch step", "hutchpp", "hutchpp full", "hutchpp mf", "xtrace", "xtrace named", "diag", "diag rule", "diag rules", "hutch rule", "hutch rules", "xtrace rules", "diag full", "diag mf", "xdiag",
         "lanczos", "lanczos plain", "ritz", "mf", "mf block", "mf step", "mf id", "mf quad", "mf mixed", "matrix_function", "normalize", "valid"]
FORMS = {"op": ["plain", "view", *LAYOUT], "quad": ["plain", *LAYOUT], "pdf": ["plain", *LAYOUT, "int", "i1"], "fun": ["plain", "view", *LAYOUT, "int", "bool"],
         "callback": ["plain", "true", "false", "text", "array"], "rule": ["plain", "npbool", "int", "0d"]}


def styles(h):
    r = h.split()[0]
    if h in ("hutch mf", "hutch step", "hutchpp mf", "diag mf") or r in ("mf", "matrix_function", "lanczos", "ritz"):
        return ["obj", "linop", "linop vec"]
    if r in ("hutch", "hutchpp"):
        return ["obj", "quad", "linop", "linop vec"]
    if r == "normalize":
        return ["linop"]
    return ["obj", "linop", "linop vec"] + (["notype"] if r == "valid" else [])


def cases(tier):
    ns = (2, 3, 4, 5) if tier == "thorough" else (2, 4)
    for h in HOSTS:
        for s in styles(h):
            for n in ns:
                for m in (0, 1, 2, 3, 4):
                    if h == "normalize" and n < 3 or m > 1 and h.split()[0] in ("xtrace", "normalize") or m > 1 and tier != "thorough" and n == 4 and s != "obj":
                        continue
                    yield dict(t="fault", h=h, style=s, n=n, m=m)
                    yield dict(t="form", h=h, style=s, n=n, m=m)
    yield dict(t="settings")


def flat(r):
    if isinstance(r, (tuple, list)):
        return np.concatenate([flat(y) for y in r]) if len(r) else np.zeros(0)
    r = np.asarray(r, dtype=float)
    return np.concatenate([np.array(r.shape, dtype=float), np.ravel(r)])


def close(a, b, tol=1e-9):
    return a.shape == b.shape and np.array_equal(np.isfinite(a), np.isfinite(b)) and bool(np.all(np.abs(a - b)[np.isfinite(b)] <= tol * (1 + np.max(np.abs(b[np.isfinite(b)]), initial=0.0))))


def settings():
    """Process-wide settings that belong to the user."""
    s = np.random.get_state()
    return dict(numpy_errors=np.geterr(), numpy_error_callback=np.geterrcall(), print_options=repr(sorted(np.get_printoptions().items(), key=str)), numpy_random=(s[0], s[1].tobytes(), s[2:]), random=hash(random.getstate()),
                warning_filters=list(warnings.filters), cwd=os.getcwd(), environment=dict(os.environ), recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(), trace=sys.gettrace(),
                profile=sys.getprofile(), excepthook=sys.excepthook, stdout=sys.stdout, stderr=sys.stderr, showwarning=warnings.showwarning, path=list(sys.path), bufsize=np.getbufsize())


def unchanged(ctx, before, what):
    after = settings()
    for k in before:
        ctx.check(before[k] == after[k], lambda: f"{what}: process-wide setting {k} changed from {before[k]!r} to {after[k]!r}"[:600])


def setup(ctx):
    global _H
    _H = hosts()


def plain(case):
    w = World(case)
    with np.errstate(all="ignore"):
        r = flat(_H[case["h"]](w))
    return w, r


def defined(case):
    """The plain run, or None where the definition has no value (singular sketches)."""
    try:
        w, r = plain(case)
    except Exception:
        return None, None
    return (w, r) if np.all(np.isfinite(r)) else (None, None)


def run(ctx, case):
    with np.errstate(all="ignore"):
        if case["t"] == "fault":
            fault(ctx, case)
        elif case["t"] == "form":
            form(ctx, case)
        else:
            all_settings(ctx, case)


def fault(ctx, case):
    h = case["h"]
    w0, ref = plain(case)
    if w0.n == 0 and h == "valid" and case["style"] != "notype":
        return  # the declared type suffices
    ctx.check(w0.n > 0, lambda: f"{h}: no hook used")
    loose = h.startswith("normalize")  # ARPACK starts at random, so the number of products varies
    uses = w0.n if not loose else 3
    full = ctx.tier == "thorough" or case["n"] == 2 and case["m"] == 0
    for k in range(uses):
        for E in EXC if full else EXC[:: 1 + 7 * (k % 3 > 0)]:
            w = World(case)
            w.k, w.exc = k, E("from the hook")
            before = settings()
            what = f"{h} (operator {case['style']}, n={case['n']}, matrix {case['m']}), {E.__name__} raised by hook use {k} ({w0.log[k][0]})"
            got = None
            try:
                _H[h](w)
            except BaseException as e:
                got = e
            ctx.op()
            ctx.trace()
            ctx.state(h, case["style"], case["n"], case["m"], k, E.__name__)
            if isinstance(w.exc, StopIteration) and isinstance(got, RuntimeError):
                got = got.__cause__  # how Python reports one that passes through a generator
            ctx.check(got is w.exc, lambda: f"{what}: the caller sees {got!r}" if got is not None else f"{what}: swallowed")
            ctx.check(w.n == k + 1, lambda: f"{what}: hooks used {w.n - k - 1} more times")
            if not loose:
                ctx.check(w.log == w0.log[: k + 1], lambda: f"{what}: hooks used as {[x[0] for x in w.log]}, without the fault {[x[0] for x in w0.log]}")
            ctx.check(repr(w.states()) == w.log[-1][1], lambda: f"{what}: a generator moved on after the fault")
            ctx.check(np.array_equal(w.M, w.own[0]) and np.array_equal(w.V, w.own[1]), lambda: f"{what}: arguments modified")
            unchanged(ctx, before, what)
            got = w.exc = None
            w.reset()
            try:
                r = flat(_H[h](w))
            except Exception as e:
                raise Violation(f"{what}: the same call on the same objects afterwards raises {type(e).__name__}: {e}")
            ctx.op()
            ctx.check(close(np.nan_to_num(r, posinf=9e99, neginf=-9e99), np.nan_to_num(ref, posinf=9e99, neginf=-9e99)), lambda: f"{what}: the same call on the same objects afterwards gives {r}, before {ref}")


def form(ctx, case):
    h = case["h"]
    w0, ref = defined(case)
    if ref is None:
        ctx.outcome("undefined")
        return
    kinds = sorted({x[0] for x in w0.log} & set(FORMS))
    if ctx.tier == "thorough" and len(kinds) <= 3 or len(kinds) <= 2:
        combos = itertools.product(*(FORMS[k] for k in kinds))
    else:  # every pair of forms
        combos = {tuple("plain" if k not in (a, b) else fa if k == a else fb for k in kinds) for a, b in itertools.combinations(kinds, 2) for fa in FORMS[a] for fb in FORMS[b]}
        combos = sorted(combos)
    for c in combos:
        w = World(case)
        w.forms = dict(zip(kinds, c))
        what = f"{h} (operator {case['style']}, n={case['n']}, matrix {case['m']}) with answers {w.forms}"
        try:
            r = flat(_H[h](w))
        except Exception as e:
            raise Violation(f"{what}: raises {type(e).__name__}: {e}")
        ctx.op()
        ctx.trace()
        ctx.state(h, case["style"], case["n"], case["m"], c)
        ctx.check(close(r, ref), lambda: f"{what}: gives {r}, with plain answers {ref}")
        ctx.check(np.array_equal(w.M, w.own[0]) and np.array_equal(w.V, w.own[1]), lambda: f"{what}: arguments modified")


BUILTIN = ("identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank")


def quiet(*a, **k):
    pass


def all_settings(ctx, case):
    """Every public routine leaves process-wide settings alone, whatever they are."""
    from mc.props import c33
    from primate.special import param_callable
    menu = {(nm, n): f for n in (4, c33.BIG) for nm, f in c33.menu(n).items()}
    for nm in BUILTIN:
        menu[f"param_callable {nm}", 4] = lambda A, i, nm=nm: param_callable(nm)(np.array([0.0, 0.25, 1.0, 1e308])[: 3 + i % 2])
    first = settings()
    for nm in menu:
        menu[nm](c33.matrices(nm[1])[0].copy(), 1)  # modules are loaded on first use, so filters may be added
        unchanged(ctx, {k: v for k, v in first.items() if k not in ("warning_filters", "environment")}, nm)
    for nm in menu:
        for i, (err, po) in enumerate(itertools.product(({}, dict(all="ignore"), dict(over="warn", divide="ignore"), dict(all="warn")), ({}, dict(precision=3, suppress=True), dict(threshold=2)))):
            with np.errstate(**err), np.printoptions(**po), warnings.catch_warnings():
                warnings.simplefilter("ignore" if i % 2 else "always")
                warnings.showwarning = quiet
                before = settings()
                menu[nm](c33.matrices(nm[1])[0].copy(), i)
                unchanged(ctx, before, nm)
            ctx.op()
            ctx.trace()
            ctx.state(nm, i)
