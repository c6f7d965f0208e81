"""C28: reproducibility and self-containedness of the randomised routines."""
import copy, itertools
import numpy as np
from mc.lib import struct_family
from mc.props.c14 import reps

RULE = ("all ordered call sequences up to the depth over a menu of every randomised routine x seeding mode (integer, equal generators, one "
        "shared generator) under different global random states: call for call equality with the isolated call from the same generator state, "
        "global state unchanged, inputs unchanged; equal estimates for every representation of an operator and same seed; "
        "every routine x distribution x batch size/rule/mode at dimensions up to 130: equal seeds and generator states, final generator state, global state, inputs")
ASSUMPTIONS = ["two unseeded calls give different samples (collision probability below 1e-12)", "representations agree up to 1e-9 relative (1e-4 single precision)"]
EXTS = ("tqli", "fttr", "_lanczos")
N = 4
TOL32 = 1e-2


def op_menu(N=N):
    from primate.diagonal import diag, xdiag
    from primate.lanczos import lanczos, rayleigh_ritz
    from primate.operators import MatrixFunction
    from primate.random import Isotropic, haar, isotropic, symmetric
    from primate.trace import hutch, hutchpp, xtrace
    A = struct_family(N)["arrow"] + np.diag([0.0, 0.5, -0.25, 1.0]) if N == 4 else struct_family(N)["lap"] + np.diag(np.cos(np.arange(N)))

    def iso_out(seed):
        W = np.empty((N, 3), order="F")
        isotropic(pdf="sphere", seed=seed, out=W)
        return W

    def fill(seed, threads):
        I = Isotropic((N, 5), pdf="normal", seed=seed, threads=threads)
        I.fill()
        x = I.values.copy()
        I.fill()
        return np.c_[x, I.values]

    def mf(seed):
        return hutch(MatrixFunction(A, fun="exp", deg=4, orth=4), pdf="normal", converge="count", count=3, seed=seed)

    return A, {
        "hutch": lambda s: hutch(A, pdf="normal", converge="count", count=5, seed=s),
        "hutch full": lambda s: np.ravel(hutch(A, batch=3, pdf="sphere", converge="count", count=5, seed=s, full=True, record=True)[1].estimator.values),
        "hutch signs": lambda s: hutch(A, converge="tolerance", rtol=0.2, seed=s),
        "hutch matrix function": mf,
        "hutchpp": lambda s: hutchpp(A, m=1, pdf="normal", seed=s),
        "xtrace": lambda s: xtrace(A, batch=2, seed=s),
        "xtrace 2": lambda s: np.ravel(xtrace(A, batch=1, pdf="normal", converge="count", count=3, seed=s, full=True, record=True)[1].estimator.values),
        "diag": lambda s: diag(A, pdf="normal", converge="count", count=3, seed=s),
        "xdiag": lambda s: xdiag(A, m=4, seed=s),
        "lanczos": lambda s: np.concatenate(lanczos(A, deg=3, orth=3, seed=s)),
        "rayleigh_ritz": lambda s: rayleigh_ritz(A, deg=3, orth=3, seed=s),
        "isotropic": lambda s: isotropic((N, 2), pdf="normal", seed=s),
        "isotropic signs": lambda s: isotropic((N, 20), pdf="rademacher", seed=s),
        "isotropic deferred": lambda s: isotropic(pdf="sphere", seed=s)((N, 2)),
        "isotropic out": iso_out,
        "Isotropic 1": lambda s: fill(s, 1),
        "Isotropic 3": lambda s: fill(s, 3),
        "symmetric": lambda s: symmetric(N, seed=s),
        "symmetric uniform": lambda s: symmetric(N, dist="uniform", pd=True, seed=s),
        "haar": lambda s: haar(N, seed=s),
        "haar ew": lambda s: haar(N, ew=np.arange(N) * 1.0, seed=s),
    }


NAMES = ["hutch", "hutch full", "hutch signs", "hutch matrix function", "hutchpp", "xtrace", "xtrace 2", "diag", "xdiag", "lanczos", "rayleigh_ritz",
         "isotropic", "isotropic signs", "isotropic deferred", "isotropic out", "Isotropic 1", "Isotropic 3", "symmetric", "symmetric uniform", "haar", "haar ew"]
SPAWN = ("Isotropic 3",)  # spawns child generators: the stream of the parent need not advance


def cases(tier):
    for n in (1, 2, 3):
        for i, seq in enumerate(itertools.product(NAMES, repeat=n)):
            if n == 3 and tier != "thorough" and i % 4:
                continue
            yield dict(kind="seq", seq=seq)
    for n in (1, 2, 3, 4, 5, 9, 40):
        for nm in ("diag", "lap", "arrow", "invol", "hilb", "reprot", "antidiag", "eye"):
            yield dict(kind="reps", n=n, name=nm)
    yield dict(kind="types")
    for n in (1, 2, 3, 8, 33, 64, 70, 130, 270):
        for pdf in ("rademacher", "signs", "normal", "gaussian", "sphere"):
            yield dict(kind="big", n=n, pdf=pdf)


def big_menu(n, pdf):
    """Every routine at dimension n with the given distribution, several batch sizes, rules and modes."""
    from primate.diagonal import diag, xdiag
    from primate.lanczos import lanczos, rayleigh_ritz
    from primate.operators import MatrixFunction
    from primate.random import Isotropic, haar, isotropic, symmetric
    from primate.trace import hutch, hutchpp, xtrace
    i = np.arange(n)
    xpdf = "sphere" if pdf in ("rademacher", "signs") and n < 33 else pdf  # few sign vectors are often linearly dependent
    A = 2.0 * np.diag(1.5 + np.cos(i)) + 0.5 * (np.eye(n, k=1) + np.eye(n, k=-1)) + 0.25 * (np.eye(n, k=3) + np.eye(n, k=-3))
    full = lambda r: np.r_[np.ravel(r[0]), np.ravel(r[1].estimator.values)]

    def fill(s, T, k):
        I = Isotropic((n, k), pdf=pdf, seed=s, threads=T)
        I.fill()
        x = I.values.copy()
        I.fill()
        return np.c_[x, I.values]

    def out(s, dt):
        W = np.empty((n, 9), order="F", dtype=dt)
        isotropic(pdf=pdf, seed=s, out=W)
        return W

    def many(s):
        f = isotropic(pdf=pdf, seed=s)
        return np.c_[f((n, 1)), f(size=(n, 40)), f((n, 3))]
    m = {f"hutch batch {b}": (lambda s, b=b: hutch(A, batch=b, pdf=pdf, converge="count", count=2 * b + 1, seed=s)) for b in (1, 2, 32, 50)}
    m.update({f"hutch full batch {b}": (lambda s, b=b: full(hutch(A, batch=b, pdf=pdf, converge="count", count=2 * b + 1, seed=s, full=True, record=True))) for b in (1, 7, 40)})
    m.update({"hutch tolerance": lambda s: hutch(A, pdf=pdf, converge="tolerance", rtol=0.05, atol=0.0, seed=s),
              "hutch confidence": lambda s: hutch(A, pdf=pdf, batch=8, converge="confidence", rtol=0.2, seed=s),
              "hutch knee": lambda s: hutch(A, pdf=pdf, batch=4, converge="knee", record=True, seed=s),
              "hutch mf": lambda s: hutch(MatrixFunction(A, fun="exp", deg=6, orth=6), batch=5, pdf=pdf, converge="count", count=11, seed=s)})
    for k in (1, n // 3 + 1, n):
        m[f"hutchpp {k}"] = lambda s, k=k: hutchpp(A, m=k, pdf=pdf, seed=s)
        m[f"hutchpp full {k}"] = lambda s, k=k: hutchpp(A, m=k, mode="full", pdf=pdf, seed=s)
    for b in sorted({1, min(n, 5), n}):
        m[f"xtrace {b}"] = lambda s, b=b: full(xtrace(A, batch=b, pdf=xpdf, converge="count", count=max(1, n - 1), seed=s, full=True, record=True))
    m.update({"diag": lambda s: diag(A, pdf=pdf, converge="count", count=60, seed=s), "diag tolerance": lambda s: diag(A, pdf=pdf, converge="tolerance", rtol=0.1, seed=s),
              "diag full": lambda s: diag(A, pdf=pdf, converge="count", count=7, seed=s, full=True)[0],
              "lanczos": lambda s: np.concatenate(lanczos(A, deg=min(n, 20), orth=5, seed=s)), "lanczos basis": lambda s: lanczos(A, deg=min(n, 9), orth=n, seed=s, return_basis=True)[1],
              "isotropic": lambda s: isotropic((n, 5), pdf=pdf, seed=s), "isotropic length": lambda s: isotropic(n, pdf=pdf, seed=s), "isotropic wide": lambda s: isotropic((n, 300), pdf=pdf, seed=s),
              "isotropic deferred": many, "isotropic out": lambda s: out(s, np.float64), "isotropic out single": lambda s: out(s, np.float32),
              "Isotropic 1": lambda s: fill(s, 1, 70), "Isotropic 8": lambda s: fill(s, 8, 70), "Isotropic 3": lambda s: fill(s, 3, 2),
              "symmetric": lambda s: symmetric(n, seed=s), "symmetric ew": lambda s: symmetric(n, ew=1.0 + i, seed=s), "symmetric uniform": lambda s: symmetric(n, dist="uniform", pd=True, seed=s)})
    if n > 1:
        m.update({"haar": lambda s: haar(n, seed=s), "haar ew": lambda s: haar(n, ew=1.0 + i, seed=s)})
        m.update({f"xdiag {k}": (lambda s, k=k: xdiag(A, m=k, pdf=xpdf, seed=s)) for k in sorted({2, 2 * (n // 2), 2 * n})})
    if n > 2:
        m["rayleigh_ritz"] = lambda s: rayleigh_ritz(A, deg=min(n, 12), orth=5, seed=s)
    return A, m


def run_big(ctx, n, pdf):
    A, M = big_menu(n, pdf)
    kA = A.copy()
    for nm, f in M.items():
        what = lambda: f"{nm}, dimension {n}, {pdf}"
        one = lambda s: np.array(f(s), dtype=float, copy=True)
        np.random.seed(123)
        g0 = gstate()
        a = one(4)
        ctx.check(np.all(np.isfinite(a)) and a.size > 0, lambda: f"{what()}: {a}")
        g = np.random.default_rng(4)
        b = one(g)
        after = copy.deepcopy(g.bit_generator.state)
        c = one(g)
        h = np.random.default_rng(4)
        ctx.check(gstate() == g0, lambda: f"{what()}: the global random state changed")
        np.random.seed(77)
        b2 = one(h)
        ctx.check(h.bit_generator.state == after, lambda: f"{what()}: equal generators are left in different states")
        c2 = one(h)
        ctx.op(5)
        ctx.check(eq(a, b) and eq(b, b2), lambda: f"{what()}: integer seed gives {a}, equal generators {b} and {b2}")
        ctx.check(eq(c, c2), lambda: f"{what()}: a second call on one generator gives {c}, repeated {c2}")
        spawn = nm.startswith("Isotropic") and nm != "Isotropic 1"
        ctx.check(spawn or after != np.random.default_rng(4).bit_generator.state, lambda: f"{what()}: the generator did not advance")
        if n >= 33 and nm in ("isotropic", "isotropic length", "isotropic deferred", "isotropic out", "isotropic out single", "isotropic wide", "Isotropic 1", "Isotropic 8", "symmetric", "haar", "lanczos", "lanczos basis"):
            ctx.check(not np.allclose(b, c), lambda: f"{what()}: two calls with one generator reuse the same randomness")
            ctx.check(not np.allclose(a, one(5)) and not np.allclose(a, one(0)), lambda: f"{what()}: different seeds give the same result")
            np.random.seed(3)
            u = one(None)
            np.random.seed(3)
            ctx.check(not np.allclose(u, one(None)), lambda: f"{what()}: without a seed the randomness comes from the global random state")
            ctx.op(4)
        ctx.check(np.array_equal(A, kA), lambda: f"{what()}: the operator was modified")
        ctx.state(nm, n, pdf)
    ctx.trace()


def gstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def setup(ctx):
    global _A, _M, _kA, _base
    _A, _M = op_menu()
    _kA = _A.copy()
    _base = {}


def alone(name, seed):
    k = (name, seed)
    if k not in _base:
        _base[k] = np.array(_M[name](seed), dtype=float, copy=True)
    return _base[k]


def eq(a, b):
    return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float))


def run(ctx, case):
    if case["kind"] == "big":
        return run_big(ctx, case["n"], case["pdf"])
    if case["kind"] == "seq":
        seq = case["seq"]
        np.random.seed(len(seq) * 7 + len(seq[0]))
        g0 = gstate()
        # integer seeds and equal fresh generators
        res = []
        for i, nm in enumerate(seq):
            s = (i * 5 + len(seq)) % 3
            a = _M[nm](s)
            b = _M[nm](np.random.default_rng(s))
            res.append((nm, s, a, np.array(a, dtype=float, copy=True)))
            ctx.op(2)
            ctx.check(eq(a, b), lambda: f"{seq}: {nm} with seed {s} gives {a}, with an equal generator {b}")
        for nm, s, a, keep in res:
            ctx.check(eq(a, keep), lambda: f"{seq}: the result of {nm} changed after later calls")
            ctx.check(eq(keep, alone(nm, s)), lambda: f"{seq}: {nm} with seed {s} gives {keep}, called first it gave {alone(nm, s)}")
        # one shared generator continues its stream
        g = np.random.default_rng(11)
        out, copies = [], []
        for nm in seq:
            copies.append(copy.deepcopy(g))
            out.append(np.array(_M[nm](g), dtype=float, copy=True))
            if nm not in SPAWN:
                ctx.check(copies[-1].bit_generator.state != g.bit_generator.state, lambda: f"{seq}: {nm} did not advance the generator it was given")
            ctx.op()
        h = np.random.default_rng(11)
        for nm, o in zip(seq, out):
            o2 = _M[nm](h)
            ctx.check(eq(o, o2), lambda: f"{seq}: with one shared generator {nm} gives {o}, repeated with an equal generator {o2}")
        for nm, o, c in reversed(list(zip(seq, out, copies))):
            np.random.seed(99)
            o2 = _M[nm](c)
            ctx.check(eq(o, o2), lambda: f"{seq}: {nm} gives {o}, from the same generator state alone {o2}")
            ctx.op()
        if len(seq) == 2 and seq[0] == seq[1]:
            ctx.check(not eq(out[0], out[1]), lambda: f"{seq}: two calls with one generator reuse the same randomness")
        np.random.seed(len(seq) * 7 + len(seq[0]))
        ctx.check(gstate() == g0, "harness: global state not restored")
        for nm in seq:
            a = _M[nm](2)
            if len(seq) == 1:
                np.random.seed(5)
                u1 = np.array(_M[nm](None), dtype=float, copy=True)
                np.random.seed(5)
                g1 = gstate()
                u2 = _M[nm](None)
                ctx.op(2)
                ctx.check(gstate() == g1, lambda: f"{nm} without a seed changed the global random state")
                exact = ("xtrace",)
                ctx.check(nm in exact or nm in ("hutch signs",) or not eq(u1, u2), lambda: f"{nm} without a seed takes its randomness from the global random state")
                np.random.seed(len(seq) * 7 + len(seq[0]))
        ctx.check(gstate() == g0, lambda: f"{seq}: the global random state changed")
        ctx.check(np.array_equal(_A, _kA), lambda: f"{seq}: the operator was modified")
        ctx.state(seq)
        ctx.trace()
        return
    if case["kind"] == "types":
        # seed types: integers, numpy integers, SeedSequence, generators; different seeds differ
        for nm, f in _M.items():
            base = alone(nm, 3)
            for s in (np.int64(3), np.random.SeedSequence(3), np.random.default_rng(3), np.random.Generator(np.random.PCG64(3))):
                r = f(s)
                ctx.op()
                ctx.check(eq(r, base), lambda: f"{nm}: seed {s!r} gives {r}, integer seed {base}")
            for s in (0, 1, 2):
                r = alone(nm, s)
                ctx.check(nm in ("xtrace", "hutch signs") or not eq(r, base), lambda: f"{nm}: seeds {s} and 3 give the same result")
            mt = lambda: np.random.Generator(np.random.MT19937(5))
            ctx.check(eq(f(mt()), f(mt())), lambda: f"{nm}: equal generators give different results")
            ctx.state(nm)
        ctx.trace()
        return
    from primate.diagonal import diag, xdiag
    from primate.lanczos import lanczos, rayleigh_ritz
    from primate.operators import MatrixFunction
    from primate.trace import hutch, hutchpp, xtrace
    n = case["n"]
    A = struct_family(n)
    if case["name"] not in A:
        return
    A = A[case["name"]]
    wc = np.linalg.cond(A) < 1e4
    funs = {"hutch": lambda B, s: hutch(B, pdf="normal", converge="count", count=4, seed=s), "hutch full": lambda B, s: hutch(B, batch=3, converge="count", count=4, seed=s, full=True)[0],
            "diag": lambda B, s: diag(B, pdf="normal", converge="count", count=3, seed=s), "diag full": lambda B, s: diag(B, converge="count", count=3, seed=s, full=True)[0],
            "lanczos": lambda B, s: np.concatenate([lanczos(B, deg=min(n, 2), orth=2, seed=s)[0]]), "ritz": lambda B, s: rayleigh_ritz(B, deg=2, orth=2, seed=s) if n > 2 else np.zeros(1),
            "hutch mf": lambda B, s: hutch(MatrixFunction(B, fun="exp", deg=2, orth=2), pdf="normal", converge="count", count=3, seed=s)}
    if wc:
        funs.update({"hutchpp": lambda B, s: hutchpp(B, m=1, pdf="normal", seed=s), "hutchpp full": lambda B, s: hutchpp(B, m=1, mode="full", pdf="normal", seed=s),
                     "xtrace": lambda B, s: xtrace(B, batch=1, pdf="normal", converge="count", count=max(1, n - 1), seed=s)})
    for nm, f in funs.items():
        for s in (0, 1):
            ref = np.array(f(A, s), dtype=float)
            for rn, B in reps(A, np.float64):
                r = f(B, s)
                ctx.op()
                ctx.check(np.shape(r) == ref.shape and np.allclose(r, ref, rtol=1e-8, atol=1e-8 * max(1, np.abs(ref).max())), lambda: f"{nm} of {case['name']}({n}) as {rn} with seed {s}: {r}, dense {ref}")
                from mc.props.c14 import dense
                ctx.check(np.array_equal(dense(B), A), lambda: f"{nm} modified the operator {rn}")
            if nm in ("hutch", "hutch full", "diag", "diag full", "hutchpp full") and np.abs(A).max() < 50:
                for rn, B in reps(A, np.float32):
                    r = f(B, s)
                    ctx.op()
                    ctx.check(np.allclose(r, ref, rtol=1e-3, atol=1e-3 * max(1, np.abs(ref).max())), lambda: f"{nm} of {case['name']}({n}) as {rn} in single precision with seed {s}: {r}, dense {ref}")
    if np.linalg.cond(A) < 30 and np.abs(A).max() < 50:  # the other routines in single precision, against single precision dense
        for nm in ("hutchpp", "xtrace", "lanczos", "ritz", "hutch mf", "xdiag"):
            f = funs.get(nm) or (lambda B, s: xdiag(B, m=2 * n - 2, pdf="normal", seed=s))
            if nm == "xdiag" and n < 2 or nm in ("lanczos", "ritz") and case["name"] in ("eye", "invol", "antidiag"):
                continue
            for s in (0, 1):
                ref = np.array(f(A.astype(np.float32), s), dtype=float)
                for rn, B in reps(A, np.float32):
                    if nm == "xdiag" and rn == "duck":
                        continue
                    r = f(B, s)
                    ctx.op()
                    ctx.check(np.shape(r) == ref.shape and np.allclose(r, ref, rtol=TOL32, atol=TOL32 * max(1, np.abs(ref).max())), lambda: f"{nm} of {case['name']}({n}) as {rn} in single precision with seed {s}: {r}, dense {ref}")
    if wc and n > 1:
        for rn, B in reps(A, np.float64):
            if rn != "duck":
                ref = xdiag(A, m=2 * n - 2, pdf="normal", seed=1)
                r = xdiag(B, m=2 * n - 2, pdf="normal", seed=1)
                ctx.op()
                ctx.check(np.allclose(r, ref, rtol=1e-7, atol=1e-7), lambda: f"xdiag of {case['name']}({n}) as {rn}: {r}, dense {ref}")
    ctx.state(n, case["name"])
    ctx.trace()
