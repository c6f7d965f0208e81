"""C24: Hutch++."""
import itertools
import numpy as np
from mc.lib import BIG, Scripted, Spy, big_cols, big_matrix, fun_mat, near, struct_family, sym_from_word, sym_words
from mc.props.c14 import reps
from mc.props.c22 import V, Quad

RULE = ("all scripted sketches and residual samples over the alphabet (complete products up to the bound, cyclic words beyond) x all matrices of "
        "the alphabet and structured families n<=6 and larger ones to n=60/150 x sketch sizes m (and the default) x evaluation modes x representations (dense, sparse, "
        "matrix-free, quad method, matrix function, single precision) x plain/full output, against the projector definition of Hutch++")
ASSUMPTIONS = ["how m is rounded to the number of sketch/residual vectors is taken from the recorded requests",
               "sketches whose image is rank deficient without spanning the range of A (the orthonormal completion is arbitrary) or is ill-conditioned (>1e6) are only checked for finiteness"]
EXTS = ("tqli", "fttr", "_lanczos")


def mats(tier):
    th = tier == "thorough"
    for a in (-2.0, 0.0, 1.5):
        yield 1, [[a]]
    for w in sym_words(2, (-1, 0, 2)):
        yield 2, sym_from_word(w, 2).tolist()
    for i, w in enumerate(sym_words(3, (-1, 0, 2))):
        if i % (2 if th else 9) == 0:
            yield 3, sym_from_word(w, 3).tolist()
    for n in range(3, 9 if th else 7):
        for nm, M in struct_family(n).items():
            yield n, M.tolist()


def cases(tier):
    for n, A in mats(tier):
        yield dict(n=n, A=A)
    for n in range(1, 5):
        for nm in struct_family(n):
            yield dict(n=n, mf=nm)
    yield dict(n=0, empty=1)
    for n in (12, 33, 60) + ((100, 150) if tier == "thorough" else ()):
        for nm in BIG:
            yield dict(n=n, large=nm)
    for n in (270,) + ((530,) if tier == "thorough" else ()):
        for nm in ("indef", "out"):
            yield dict(n=n, large=nm)


def vecs(n):
    if n in V:
        return [np.array(v) for v in V[n]]
    out = [np.ones(n), np.array([(-1.0) ** j for j in range(n)]), np.arange(n) - 1.0, np.eye(n)[:, 0], np.array([1.0 if j % 3 else -2.0 for j in range(n)])]
    return out


def words_for(n, k, tier, salt):
    """enumerated column words of length k (complete product when small, else all cyclic words of period <= 3)"""
    vs = vecs(n)
    if len(vs) ** k <= 64:
        return [list(w) for w in itertools.product(vs, repeat=k)]
    out = []
    for p in (1, 2, 3):
        for w in itertools.permutations(range(len(vs)), p):
            out.append([vs[w[i % p]] * (1.0 + 0.5 * (i // p)) + (0.25 * (i // p)) * np.roll(vs[w[0]], i) for i in range(k)])
    step = 2 if tier == "thorough" else 4
    return out[salt % step::step]


def reference(A, W, G):
    """(estimate, exact?) by the definition, None if the sketch does not determine it."""
    Y = A @ W
    n = len(A)
    U, s, _ = np.linalg.svd(Y, full_matrices=False)
    tol = 1e-10 * max(1.0, np.abs(A).max()) * max(1.0, np.abs(W).max())
    r = int((s > tol).sum())
    ra = np.linalg.matrix_rank(A, tol=1e-9 * max(1.0, np.abs(A).max()))
    if r >= ra:
        if r and s[0] / s[r - 1] > 1e6:
            return None
        return np.trace(A), True
    if r < min(W.shape[1], n) or s[0] / s[r - 1] > 1e6:
        return None
    P = U[:, :r] @ U[:, :r].T
    Gp = G - P @ G
    return np.trace(P @ A) + np.mean(np.einsum("ij,ij->j", Gp, A @ Gp)), False


def large(ctx, case):
    """Larger operators and sketches (beyond n columns as well)."""
    from primate.trace import hutchpp
    n = case["n"]
    A = big_matrix(n, case["large"])[0]
    sA = np.abs(A).max()
    ops = [("dense", A), ("quad", Quad(A))] + [r for r in reps(A, np.float64) if r[0] in ("csr", "linop", "coo", "view")]
    for m in (None, 1, 2, 3, 5, 8, n // 2, n - 2, n, n + 4, 64, 65, 90) if n < 200 else (None, 2, 65, n // 2, 200, 390, n + 4):
        for vk in ("signs", "graded", "orth"):
            p0 = Scripted(n, [], tail=big_cols(n, 5))
            hutchpp(A, m=m, pdf=p0)
            nb, ng = p0.log[0], sum(p0.log[1:])
            cols = big_cols(n, nb + ng, vk)
            W, G = np.array(cols[:nb]).T, np.array(cols[nb:]).T
            ref = reference(A, W, G)
            for oi, (nm, op) in enumerate(ops):
                for mode in ("reduced", "full"):
                    full = bool((oi + nb) % 2)
                    out = hutchpp(op, m=m, pdf=Scripted(n, cols), mode=mode, full=full)
                    ctx.op()
                    est = out[0] if full else out
                    sc = sA * n * max(1.0, np.abs(G).max() ** 2)
                    ctx.check(np.size(est) == 1 and np.isfinite(est), lambda: f"{case} {nm} m={m}: {est}")
                    if ref is not None:
                        ctx.check(abs(est - ref[0]) <= 1e-8 * sc, lambda: f"{case} {nm} m={m} mode={mode} vectors {vk}: estimate {est}, {'exact trace' if ref[1] else 'by definition'} {ref[0]}")
                    if full:
                        q, s = min(n, nb), np.ravel(out[1].samples)
                        ctx.check(s.size == q + ng and abs(s[:q].sum() + s[q:].mean() - est) <= 1e-8 * sc and out[1].estimate == est, lambda: f"{case} {nm} m={m} mode={mode}: {s.size} samples for {q}+{ng}")
            ctx.outcome("undetermined sketch" if ref is None else "exact" if ref[1] else "definition")
            ctx.state(n, case["large"], m, vk)
        ctx.trace()


def run(ctx, case):
    from primate.trace import hutchpp
    from primate.random import isotropic
    n = case["n"]
    if "large" in case:
        return large(ctx, case)
    if "empty" in case:
        for kw in ({}, {"full": True}, {"mode": "full"}):
            t = hutchpp(np.zeros((0, 0)), **kw)
            ctx.op()
            ctx.check((t[0] if isinstance(t, tuple) else t) == 0.0, lambda: f"trace of the empty operator: {t!r}")
        return
    if "mf" in case:
        from primate.operators import MatrixFunction
        A0 = struct_family(n)[case["mf"]]
        f = np.arctan if np.abs(A0).max() > 20 else np.exp
        A = fun_mat(A0, f)
        op = MatrixFunction(A0, fun=f, deg=max(2, n), orth=-1)
        ops = [("matrix function", op, 1e-6)]
        variants = [(1, "reduced"), (1, "full"), (3, "reduced")]
    else:
        A = np.array(case["A"])
        salt = int(abs(A).sum() * 3)
        R = list(reps(A, np.float64)) + [("quad", Quad(A))]
        ops = [("dense", A, 1e-9), (R[2 + salt % (len(R) - 2)][0], R[2 + salt % (len(R) - 2)][1], 1e-9), ("quad", Quad(A), 1e-9)]
        if np.abs(A).max() < 50:
            ops.append(("float32", A.astype(np.float32), 2e-4))
        variants = [(m, md) for m in (None, 1, 2, 3, 4, 6, n + 3) for md in ("reduced", "full")]
    kA = A.copy()
    for m, mode in variants:
        p0 = Scripted(n, [], tail=vecs(n))
        hutchpp(A, m=m, pdf=p0)
        ctx.check(len(p0.log) >= 2, lambda: f"hutch++ drew only {p0.log}")
        nb, ng = p0.log[0], sum(p0.log[1:])
        Ws = words_for(n, nb, ctx.tier, n + nb)
        Gs = words_for(n, ng, ctx.tier, n + nb)
        for wi, W in enumerate(Ws):
            for gi, G in enumerate(Gs):
                if ctx.tier != "thorough" and (wi + gi) % (1 if len(Ws) * len(Gs) < 40 else 11):
                    continue
                Wm, Gm = np.array(W).T, np.array(G).T
                ref = reference(A, Wm, Gm)
                oi = (wi + gi + nb) % len(ops)
                for nm, op, tol in ops[:1] + ([ops[oi]] if oi else []):
                    pdf = Scripted(n, list(W) + list(G))
                    full = bool((wi + gi + nb) % 2)
                    out = hutchpp(op, m=m, pdf=pdf, mode=mode, full=full)
                    ctx.op()
                    est = out[0] if full else out
                    ctx.check(np.size(est) == 1 and np.isfinite(est), lambda: f"{nm} A={A.tolist()} m={m} mode={mode}: estimate {est!r}")
                    sc = max(1.0, np.abs(A).max()) * n * n * max(1.0, np.abs(Gm).max() ** 2)
                    if nm == "float32" and ref is not None and not ref[1] and np.linalg.cond(A @ Wm) > 30:
                        continue
                    if nm == "float32" and ref is not None and ref[1]:
                        s = np.linalg.svd(A @ Wm, compute_uv=False)
                        s = s[s > 1e-6 * max(s[0], 1e-30)]
                        if s.size and s[0] / s[-1] > 30:
                            continue
                    if ref is not None:
                        ctx.check(abs(est - ref[0]) <= tol * sc, lambda: f"{nm} A={A.tolist()} m={m} mode={mode} sketch={Wm.T.tolist()} sample={Gm.T.tolist()}: estimate {est}, {'exact trace' if ref[1] else 'by definition'} {ref[0]}")
                        ctx.outcome("exact" if ref[1] else "definition")
                    else:
                        ctx.outcome("undetermined sketch")
                    if full:
                        q = min(n, nb)
                        s = np.ravel(out[1].samples)
                        ctx.check(out[1].estimate == est and s.size == q + ng and abs(s[:q].sum() + s[q:].mean() - est) <= 1e-4 * sc,
                                  lambda: f"{nm} A={A.tolist()} m={m} mode={mode}: full output estimate={out[1].estimate} samples={s} for estimate {est} ({q} range + {ng} residual contributions)")
                    elif wi % 8 == 0:
                        e2 = hutchpp(op, m=m, pdf=Scripted(n, list(W) + list(G)), mode=mode, full=True)[0]
                        ctx.check(abs(e2 - est) <= 1e-12 * sc, lambda: f"{nm} A={A.tolist()}: plain {est}, full {e2}")
                ctx.state(tuple(A.ravel()), m, mode, tuple(Wm.ravel()), tuple(Gm.ravel()))
        ctx.trace()
        if mode == "reduced":
            for pdf in ("rademacher", "normal", "sphere"):
                for seed in (0, 1, 2):
                    g = np.random.default_rng(seed)
                    W, G = isotropic((n, nb), pdf=pdf, seed=g), isotropic((n, ng), pdf=pdf, seed=g)
                    ref = reference(A, W, G)
                    est = hutchpp(ops[0][1], m=m, pdf=pdf, seed=seed)
                    ctx.op()
                    if ref is not None:
                        ctx.check(abs(est - ref[0]) <= 1e-6 * max(1.0, np.abs(A).max()) * n * n, lambda: f"A={A.tolist()} m={m} pdf={pdf} seed={seed}: estimate {est}, definition {ref[0]}")
    ctx.check(np.array_equal(A, kA), "operator modified")
