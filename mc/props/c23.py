"""C23: unbiasedness by complete enumeration of the sampling outcomes."""
import itertools
import numpy as np
from mc.lib import Scripted, big_matrix, fun_mat, mt_generator, struct_family, sym_from_word, sym_words

RULE = ("complete enumeration of all equally likely outcomes of the sampling distribution (all sign patterns, through scripted samplers and "
        "through the built-in sampler by enumerating the bit-generator words; all scaled coordinate designs, these to n=70) for all matrices of the alphabet: "
        "the average of the estimates over the outcomes is compared with the exact trace/diagonal")
ASSUMPTIONS = ["fixed-count stopping rules (data-dependent stopping biases any Monte-Carlo mean)", "agreement 1e-9 relative (1e-7 through matrix functions)"]
EXTS = ("tqli", "fttr", "_lanczos")


def mats(tier):
    th = tier == "thorough"
    for a in (-2.0, 0.0, 3.0):
        yield 1, [[a]]
    for w in sym_words(2, (-1, 0, 2)):
        yield 2, sym_from_word(w, 2).tolist()
    for i, w in enumerate(sym_words(3, (-1, 0, 2) if th else (0, 1))):
        yield 3, sym_from_word(w, 3).tolist()
    for nm, M in struct_family(3).items():
        yield 3, M.tolist()
    for nm, M in struct_family(4).items():
        if th or nm in ("lap", "arrow", "invol", "rank1", "diag"):
            yield 4, M.tolist()


def cases(tier):
    for n, A in mats(tier):
        for kind in ("hutch", "diag", "hutchpp", "native"):
            yield dict(kind=kind, n=n, A=A)
    for n in (9, 20, 70):
        for nm in ("lin", "indef", "rank", "out"):
            yield dict(kind="coord", n=n, name=nm)
    for n in (2, 3):
        for nm in struct_family(n):
            yield dict(kind="mf", n=n, name=nm)


def signs(n):
    return [np.array(s) for s in itertools.product((-1.0, 1.0), repeat=n)]


def designs(n):
    """isotropic distributions with finitely many equally likely outcomes"""
    yield "signs", signs(n)
    yield "coordinate", [np.sqrt(n) * np.eye(n)[:, j] for j in range(n)]
    if n == 2:
        yield "simplex", [np.sqrt(2) * np.array([np.cos(t), np.sin(t)]) for t in (0.1, 0.1 + 2 * np.pi / 3, 0.1 + 4 * np.pi / 3)]


def val(e):
    return np.ravel(e[0] if isinstance(e, tuple) else e)


def run(ctx, case):
    from primate.diagonal import diag
    from primate.trace import hutch, hutchpp
    n, kind = case["n"], case["kind"]
    th = ctx.tier == "thorough"
    if kind == "mf":
        from primate.operators import MatrixFunction
        A = struct_family(n)[case["name"]]
        nrm = np.linalg.norm(A, 2)
        for nm, f in (("cube", lambda x: x ** 3), ("atan", np.arctan), ("exp", np.exp)):
            if nm == "exp" and nrm > 20:
                continue
            T = np.trace(fun_mat(A, f))
            sc = 1e-7 * max(1.0, np.max(np.abs(f(np.array([nrm, -nrm]))))) * n
            for dn, D in designs(n):
                for k in (1, 2):
                    for full in (False, True):
                        M = MatrixFunction(A, fun=f, deg=max(2, n), orth=-1)
                        s, N = 0.0, 0
                        for w in itertools.product(D, repeat=k):
                            s += val(hutch(M, batch=k, pdf=Scripted(n, w), converge="count", count=k, full=full))[0]
                            N += 1
                            ctx.op()
                        ctx.check(abs(s / N - T) <= sc, lambda: f"{nm} of {A.tolist()}, {dn} distribution, {k} samples, full={full}: average of all {N} outcomes is {s / N}, trace is {T}")
                        ctx.state(n, case["name"], nm, dn, k, full)
            s, N = 0.0, 0
            if n == 2 and abs(np.linalg.det(A)) > 1e-6:
                M = MatrixFunction(A, fun=f, deg=2, orth=-1)
                D = signs(n)
                for W in itertools.product(D, repeat=4):
                    s += val(hutchpp(M, m=1, pdf=Scripted(n, W, tail=list(W))))[0]
                    N += 1
                    ctx.op()
                ctx.check(abs(s / N - T) <= sc, lambda: f"hutch++ of {nm} of {A.tolist()}: average of all {N} outcomes is {s / N}, trace is {T}")
        ctx.trace()
        return
    if kind == "coord":
        # all outcomes of the scaled coordinate distribution, which stays enumerable at larger sizes
        A = big_matrix(n, case["name"])[0]
        T, sc = np.trace(A), 1e-9 * max(1.0, np.abs(A).max()) * n * n
        D = [np.sqrt(n) * np.eye(n)[:, j] for j in range(n)]
        for k in (1, 2) if n < 50 else (1,):
            for full, batch in [(False, 1), (True, k), (True, 1)]:
                x = []
                for w in itertools.product(D, repeat=k):
                    x.append(val(hutch(A, batch=batch, pdf=Scripted(n, w), converge="count", count=k, full=full))[0])
                    ctx.op()
                ctx.check(abs(np.mean(x) - T) <= sc, lambda: f"{case} {k} samples, batch {batch}: average of all {len(x)} outcomes is {np.mean(x)}, trace is {T}")
                ctx.state(n, case["name"], k, full, batch)
        for mode in ("reduced", "full"):
            p0 = Scripted(n, [], tail=[np.ones(n)])
            hutchpp(A, m=1, pdf=p0, mode=mode)
            nb, ng = p0.log[0], sum(p0.log[1:])
            if n ** ng > 6000:
                continue
            W = [np.cos(np.arange(n) * (j + 1.0)) + 0.3 for j in range(nb)]
            x = []
            for G in itertools.product(D, repeat=ng):
                x.append(val(hutchpp(A, m=1, pdf=Scripted(n, list(W) + list(G)), mode=mode))[0])
                ctx.op()
            ctx.check(abs(np.mean(x) - T) <= sc, lambda: f"{case} hutch++ {mode}: average over all {len(x)} residual samples is {np.mean(x)}, trace is {T}")
            ctx.state(n, case["name"], mode)
        ctx.trace()
        return
    A = np.array(case["A"], dtype=float)
    sc = 1e-9 * max(1.0, np.abs(A).max()) * n * n
    T, d = np.trace(A), np.diag(A)
    if kind == "hutch":
        for dn, D in designs(n):
            for k in (1, 2, 3, 4, 5, 6, 8):  # the longer runs with the smaller distributions
                if len(D) ** k > (5000 if th else 600) or k > 3 and len(D) == 1:
                    continue
                for full, batch in [(False, 1)] + [(True, b) for b in range(1, k + 1) if k % b == 0 and (k < 4 or b < 3)]:
                    s, N = 0.0, 0
                    for w in itertools.product(D, repeat=k):
                        s += val(hutch(A, batch=batch, pdf=Scripted(n, w), converge="count", count=k, full=full))[0]
                        N += 1
                        ctx.op()
                    ctx.check(abs(s / N - T) <= sc, lambda: f"A={A.tolist()} {dn} distribution, {k} samples, batch {batch}: average of all {N} outcomes is {s / N}, trace is {T}")
                    ctx.state(tuple(A.ravel()), dn, k, full, batch)
    elif kind == "diag":
        D = signs(n)
        for k in (1, 2, 3, 4, 5, 6, 8):
            if len(D) ** k > (5000 if th else 600 if n > 2 else 1100):
                continue
            for full in (False, True):
                s, N = np.zeros(n), 0
                for w in itertools.product(D, repeat=k):
                    s += val(diag(A, pdf=Scripted(n, w), converge="count", count=k, full=full))
                    N += 1
                    ctx.op()
                ctx.check(np.abs(s / N - d).max() <= sc, lambda: f"A={A.tolist()}, {k} samples: average of all {N} outcomes is {s / N}, diagonal is {d}")
                ctx.state(tuple(A.ravel()), k, full)
    elif kind == "hutchpp":
        # conditional on every sketch the residual part must average to the trace (implies unbiasedness), and the two
        # samples must be separate draws: every first sample is paired with every second one
        D = signs(n)
        if n == 4 and not th:
            D4 = D[::3]
        for mode in ("reduced", "full"):
            p0 = Scripted(n, [], tail=D)
            hutchpp(A, m=1, pdf=p0, mode=mode)
            ctx.check(len(p0.log) >= 2 and p0.log[0] >= 1, lambda: f"hutch++ drew {p0.log}")
            nb, ng = p0.log[0], sum(p0.log[1:])
            if len(D) ** ng > 5000:
                continue
            first = list(itertools.product(D, repeat=nb))
            if n >= 3 and not th:
                first = first[:: (5 if n == 3 else 37)]
            if n >= 4 and mode == "full":
                continue
            for W in first:
                s, N = 0.0, 0
                for G in itertools.product(D, repeat=ng):
                    s += val(hutchpp(A, m=1, pdf=Scripted(n, list(W) + list(G)), mode=mode))[0]
                    N += 1
                    ctx.op()
                ctx.check(abs(s / N - T) <= sc, lambda: f"A={A.tolist()} sketch {np.array(W).T.tolist()} mode {mode}: average over all {N} residual samples is {s / N}, trace is {T}")
                ctx.state(tuple(A.ravel()), mode, tuple(np.ravel(W)))
    elif kind == "native":
        # the built-in sign sampler driven by every pattern of generator words (two 32-bit words per entry)
        for k in (1, 2):
            if n * k > (10 if th else 6):
                continue
            for full in (False, True):
                s, sd, N = 0.0, np.zeros(n), 0
                seen = set()
                for bits in itertools.product((0, 0xFFFFFFFF), repeat=n * k):
                    words = [b for b in bits for _ in range(2)]
                    log = []
                    s += val(hutch(A, batch=k, pdf="rademacher", converge="count", count=k, seed=mt_generator(words), full=full))[0]
                    sd += val(diag(A, pdf="rademacher", converge="count", count=k, seed=mt_generator(words), full=full))
                    N += 1
                    ctx.op(2)
                ctx.check(abs(s / N - T) <= sc, lambda: f"A={A.tolist()} built-in signs, {k} samples: average of all {N} outcomes is {s / N}, trace is {T}")
                ctx.check(np.abs(sd / N - d).max() <= sc, lambda: f"A={A.tolist()} built-in signs, {k} samples: average diagonal of all {N} outcomes is {sd / N}, diagonal is {d}")
                ctx.state(tuple(A.ravel()), k, full)
    ctx.trace()
