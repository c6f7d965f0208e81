"""C25: XTrace against the naive leave-one-out definition."""
import itertools
import numpy as np
from mc.lib import GRADED, Scripted, Spy, big_cols, big_matrix, graded_matrix, near, struct_family, sym_from_word, sym_words
from mc.props.c14 import reps
from mc.rules import Tie, build, holds

RULE = ("all matrices of the alphabet and structured families n<=6 x all ordered scripted sketches (words of independent columns over the "
        "alphabet; built-in sphere/sign/normal samplers over a seed grid), larger matrices to n=70/100, x all batch sizes x stopping rules x full/callback/record: the state "
        "after every batch against the naive leave-one-out estimates, and the number of vectors drawn against the rule")
ASSUMPTIONS = ["sketches are nonsingular: condition number of A*W at most 1e4 at every prefix (others are skipped)", "a full sample of n vectors always ends the sampling"]
EXTS = ("tqli", "fttr", "_lanczos")


def mats(tier):
    th = tier == "thorough"
    for a in (-2.0, 1.5):
        yield 1, [[a]]
    for w in sym_words(2, (-1, 0, 2)):
        yield 2, sym_from_word(w, 2).tolist()
    for i, w in enumerate(sym_words(3, (-1, 0, 2))):
        if th or i % 7 == 0:
            yield 3, sym_from_word(w, 3).tolist()
    for n in range(3, 8 if th else 7):
        for nm, M in struct_family(n).items():
            yield n, M.tolist()


def cases(tier):
    for n, A in mats(tier):
        yield dict(n=n, A=A)
    for n in range(1, 9 if tier == "thorough" else 7):
        yield dict(n=n, native=1)
    for n in (12, 35, 36, 40, 70) + ((100,) if tier == "thorough" else ()):
        for nm in ("lin", "indef", "clust"):
            for vk in ("orth", "graded", "sphere"):
                yield dict(n=n, large=nm, vk=vk)
    for vk in ("orth", "graded", "sphere"):
        yield dict(n=270, large="indef", vk=vk)
    yield from GRADED


def sketches(n, tier, salt):
    if n == 1:
        return [[np.array([x])] for x in (1.0, -1.0, 2.0)]
    if n <= 3:
        al = [np.array(v, dtype=float) for v in itertools.product((-1, 1), repeat=n)] + [np.eye(n)[:, 0] * 2, np.arange(n) * 1.0 + 0.5]
        W = [list(w) for w in itertools.permutations(al, n)]
        step = 1 if tier == "thorough" else (1 if n == 2 else 24)
        return W[salt % step::step]
    out = []
    base = [np.array([1.0 if (i * j + i) % 3 else -1.0 for i in range(n)]) for j in range(n)]
    H = np.eye(n) - 2 * np.ones((n, n)) / n
    for s in range(12 if tier == "thorough" else 5):
        M = np.array([[np.cos((i + 1) * (j + 1) * (0.7 + s)) + (1.0 if i == (j + s) % n else 0.0) for j in range(n)] for i in range(n)])
        out.append([M[:, j] for j in range(n)])
    out.append([np.sqrt(n) * H[:, j] for j in range(n)])
    out.append([np.eye(n)[:, (j * 2 + 1) % n if n % 2 else j] for j in range(n)])
    out.append([np.sign(np.cos(np.arange(n) * (j + 1) * 1.3 + j) + 1e-9) for j in range(n)])
    return out


def loo(A, W, sphere):
    n, m = W.shape
    out = []
    for i in range(m):
        Wi = np.delete(W, i, axis=1)
        Q = np.linalg.svd(A @ Wi, full_matrices=False)[0] if m > 1 else np.zeros((n, 0))
        w = W[:, i] - Q @ (Q.T @ W[:, i])
        sc = (n - m + 1) / (w @ w) if sphere else 1.0
        out.append(np.trace(Q.T @ A @ Q) + sc * (w @ A @ w))
    return np.array(out)


def large(ctx, case):
    """Larger operators and batches; the leave-one-out estimates are evaluated at the ends of the batches."""
    from primate.trace import xtrace
    from primate.random import isotropic
    n, vk = case["n"], case["vk"]
    A = big_matrix(n, case["large"])[0]
    sphere = vk == "sphere"
    if sphere:
        pdf0 = lambda: isotropic(pdf="sphere", seed=np.random.default_rng(n))
        W = isotropic((n, n), pdf="sphere", seed=np.random.default_rng(n))
    else:
        cols = big_cols(n, n, vk)
        W = np.array(cols).T
    memo = {}

    def naive(t, W):
        if t not in memo:
            memo[t] = loo(A, W[:, :t], sphere)
        return memo[t]

    for batch in (1, 5, 31, 32, 33, 36, 37, 64, n - 1, n, n + 1):
        for cnt in (None, 3, n // 2, n - 1) if n < 200 else (3, 40, 66):
            if n > 200 and batch > 65:
                continue
            if batch == 1 and cnt is None and n > 40:
                continue
            Wb = W
            if sphere:  # the built-in sampler draws batch by batch
                g, parts, t = np.random.default_rng(n), [], 0
                smp = isotropic(pdf="sphere", seed=g)
                while t < n:
                    parts.append(smp((n, min(batch, n - t))))
                    t += parts[-1].shape[1]
                Wb = np.hstack(parts)
                memo.clear()
            tot = n if cnt is None else min(n, -(-cnt // batch) * batch)
            s = np.linalg.svd(A @ Wb[:, :tot], compute_uv=False)
            if s[0] > 1e4 * s[-1]:
                ctx.outcome("singular sketch")
                continue
            pdf, snaps = "sphere" if sphere else Scripted(n, cols), []
            kw = {} if cnt is None else dict(converge="count", count=cnt)
            est, res = xtrace(A, batch=batch, pdf=pdf, seed=n, full=True, record=True, callback=lambda r: snaps.append((float(r.estimate), r.nit)), **kw)
            ctx.op(tot)
            what = lambda: f"{case} batch={batch} count={cnt}"
            L = naive(tot, Wb)
            sc = 1e-6 * max(1.0, np.abs(L).max())
            ctx.check(len(snaps) == -(-tot // batch) and snaps[-1][1] == tot and res.nit == tot, lambda: what() + f": {len(snaps)} batches, last {snaps[-1]}, expected {tot} vectors")
            ctx.check(abs(est - L.mean()) <= sc and near(np.ravel(res.estimator.values), L, sc), lambda: what() + f": estimate {est}, leave-one-out {L.mean()}; samples {np.ravel(res.estimator.values)} / {L}")
            mid = min(batch, tot)
            ctx.check(abs(snaps[0][0] - naive(mid, Wb).mean()) <= sc + 1e-6 * np.abs(naive(mid, Wb)).max(), lambda: what() + f": first batch gives {snaps[0]}, leave-one-out {naive(mid, Wb).mean()}")
            if sphere and tot == n:
                ctx.check(abs(est - np.trace(A)) <= 1e-5 * np.abs(A).max() * n, lambda: what() + f": {est} from all dimensions, trace {np.trace(A)}")
            if not sphere:
                ctx.check(pdf.pos == tot, lambda: what() + f": drew {pdf.log}")
            ctx.outcome("compared")
            ctx.state(n, case["large"], vk, batch, cnt)
        ctx.trace()


def graded(ctx, case):
    """Operators with eigenvalues over many orders of magnitude, up to the accuracy their conditioning allows."""
    from primate.trace import xtrace
    from primate.random import isotropic
    n = case["n"]
    A = graded_matrix(n, case["dec"], case["graded"])
    for pdf in ("sphere", "normal", "rademacher"):
        for seed in range(4):
            for batch in sorted({1, 2, n // 2, n}):
                g, W, steps = isotropic(pdf=pdf, seed=np.random.default_rng(seed)), np.zeros((n, 0)), []
                while W.shape[1] < n:
                    W = np.c_[W, g((n, min(batch, n - W.shape[1])))]
                    s = np.linalg.svd(A @ W, compute_uv=False)
                    steps.append((W, s[0] / s[-1] if s[-1] > 0 else np.inf))
                snaps = []
                try:
                    est, res = xtrace(A, batch=batch, pdf=pdf, seed=np.random.default_rng(seed), full=True, callback=lambda r: snaps.append((float(r.estimate), r.nit)))
                except np.linalg.LinAlgError:
                    ctx.check(not all(k < 1e11 for _, k in steps), lambda: f"{case} pdf={pdf} seed={seed} batch={batch}: no estimate for a nonsingular sketch")
                ctx.op(len(snaps))
                for (W, k), (e, t) in zip(steps, snaps):
                    if not k < 1e11:
                        ctx.outcome("singular sketch")
                        break
                    L = loo(A, W, pdf == "sphere")
                    ctx.check(t == W.shape[1] and abs(e - L.mean()) <= max(1e-10, 4e-13 * k) * max(1.0, np.abs(L).max()), lambda: f"{case} pdf={pdf} seed={seed} batch={batch}: estimate {e} after {t} vectors, leave-one-out {L.mean()} (condition {k:.1e})")
                    ctx.outcome("compared")
                ctx.state(n, case["dec"], case["graded"], pdf, seed, batch)
        ctx.trace()


RULES = [["user", 99], ["count", 1], ["count", 2], ["tol", 0.3, 0.0], ["tol", 0.0, 0.5], ["above", 2.0], ["conf", 0.8, 1.0, 0.0], ["or", ["user", 3], ["tol", 0.1, 0.0]], ["and", ["count", 2], ["not", ["above", 3.0]]]]


def run(ctx, case):
    from primate.trace import xtrace
    from primate.random import isotropic
    n = case["n"]
    if "large" in case:
        return large(ctx, case)
    if "native" in case:
        mats_ = {k: M for k, M in struct_family(n).items() if k not in ("big", "hilb") and np.linalg.cond(M) < 50}
        for (nm, A0), ps in itertools.product(mats_.items(), (0, 50, -50)):
            A = A0 * 2.0 ** ps
            for pdf in ("sphere", "rademacher", "normal", "signs", "gaussian") if ps == 0 else ("sphere", "normal"):
                for seed in range(1 if ps else 4 if ctx.tier != "thorough" else 12):
                    W = isotropic(pdf=pdf, seed=np.random.default_rng(seed))
                    for batch in range(1, n + 2):
                        W_, g = np.zeros((n, 0)), isotropic(pdf=pdf, seed=np.random.default_rng(seed))
                        steps, bad = [], False
                        while W_.shape[1] < n:
                            W_ = np.c_[W_, g((n, min(batch, n - W_.shape[1])))]
                            s = np.linalg.svd(A @ W_, compute_uv=False)
                            if s[0] > 1e4 * s[-1]:
                                bad = True
                                break
                            steps.append(loo(A, W_, pdf == "sphere"))
                        if bad:
                            ctx.outcome("singular sketch")
                            continue
                        snaps = []
                        est, res = xtrace(A, batch=batch, pdf=pdf, seed=np.random.default_rng(seed), full=True, callback=lambda r: snaps.append((float(r.estimate), r.nit)))
                        ctx.op(len(snaps))
                        sc = 1e-7 * max(2.0 ** ps, np.abs(np.concatenate(steps)).max())
                        what = lambda: f"A={nm}({n})*2^{ps} pdf={pdf} seed={seed} batch={batch}"
                        ctx.check(len(snaps) == len(steps) and all(abs(a[0] - s.mean()) <= sc and a[1] == len(s) for a, s in zip(snaps, steps)),
                                  lambda: what() + f": estimates after the batches {snaps}, leave-one-out {[(s.mean(), len(s)) for s in steps]}")
                        ctx.check(abs(est - steps[-1].mean()) <= sc, lambda: what() + f": estimate {est}, leave-one-out {steps[-1].mean()}")
                        if pdf == "sphere":
                            ctx.check(abs(est - np.trace(A)) <= sc * 100, lambda: what() + f": estimate {est} from all {n} dimensions, trace {np.trace(A)}")
                        e2 = xtrace(A, batch=batch, pdf=pdf, seed=np.random.default_rng(seed))
                        ctx.check(e2 == est, lambda: what() + f": plain call {e2}, full {est}")
                        for cnt in range(1, n):
                            e3 = xtrace(A, batch=batch, pdf=pdf, seed=seed, converge="count", count=cnt)
                            k = min(n, -(-cnt // batch) * batch)
                            r = next(s for s in steps if len(s) == k)
                            ctx.op()
                            ctx.check(abs(e3 - r.mean()) <= sc, lambda: what() + f" count={cnt}: estimate {e3}, leave-one-out of {k} vectors {r.mean()}")
                        ctx.state(n, nm, ps, pdf, seed, batch)
            ctx.trace()
        return
    if "graded" in case:
        return graded(ctx, case)
    A = np.array(case["A"], dtype=float)
    kA = A.copy()
    salt = int(np.abs(A).sum() * 2)
    R = list(reps(A, np.float64))
    for si, cols in enumerate(sketches(n, ctx.tier, salt)):
        W = np.array(cols).T
        lim = 0  # largest nonsingular prefix
        for m in range(1, n + 1):
            s = np.linalg.svd(A @ W[:, :m], compute_uv=False)
            if not (s[-1] > 0 and s[0] <= 1e4 * s[-1]):
                break
            lim = m
        if lim == 0:
            ctx.outcome("singular sketch")
            continue
        L = {m: loo(A, W[:, :m], False) for m in range(1, lim + 1)}
        sc = 1e-7 * max(1.0, max(np.abs(x).max() for x in L.values()))
        for batch in range(1, n + 2):
            for ri, rule in enumerate(RULES):
                if lim < n:
                    if lim % batch:
                        continue
                    rule = ["or", ["user", lim], rule]
                if ctx.tier != "thorough" and (ri + batch + si + salt) % 3:
                    continue
                rec, cb, full = (ri + si) % 2 == 0, (ri + batch) % 3 != 0, (ri + salt) % 2 == 0
                # reference run: the rule is checked before sampling and after each batch, and n vectors always end it
                tot, old, last, lens = 0, 0.0, 0, []
                try:
                    while True:
                        rows = [[x] for x in L[tot]] if tot else []
                        if tot >= n or holds(rule, rows, last, old):
                            break
                        old = float(np.mean(L[tot])) if tot else 0.0
                        last = min(batch, n - tot)
                        tot += last
                        lens.append(tot)
                except Tie:
                    ctx.outcome("tie")
                    continue
                nm, op = R[(si + ri + batch) % len(R)]
                pdf = Scripted(n, cols)
                snaps = []
                crit = build(rule)
                out = xtrace(op, batch=batch, pdf=pdf, converge=crit, full=full, record=rec,
                             callback=(lambda r: snaps.append((float(r.estimate), r.nit, len(r.estimator), float(r.estimator.estimate), np.ravel(r.estimator.values).copy() if rec else None))) if cb else None)
                ctx.op(len(lens) + 1)
                what = lambda: f"{nm} A={A.tolist()} vectors={W.T.tolist()} batch={batch} rule={rule}"
                ctx.check(pdf.pos == tot, lambda: what() + f": drew {pdf.pos} vectors ({pdf.log}), the rule ends the sampling after {tot}")
                ctx.check(isinstance(out, tuple) == full, lambda: what() + f": output {out!r}")
                est = out[0] if full else out
                e = np.mean(L[tot]) if tot else np.nan
                ctx.check((np.isnan(e) and np.isnan(est)) or abs(est - e) <= sc, lambda: what() + f": estimate {est}, leave-one-out average {e}")
                if full:
                    r = out[1]
                    ctx.check((tot == 0 or abs(r.estimate - e) <= sc) and r.nit == tot and len(r.estimator) == tot, lambda: what() + f": result estimate={r.estimate} nit={r.nit} samples={len(r.estimator)}, expected {e}, {tot}")
                    if rec and tot:
                        ctx.check(near(np.sort(np.ravel(r.estimator.values)), np.sort(L[tot]), sc), lambda: what() + f": recorded {r.estimator.values}, leave-one-out estimates {L[tot]}")
                if cb:
                    good = len(snaps) == len(lens) and all(abs(s[0] - L[t].mean()) <= sc and s[1] == t and s[2] == t and abs(s[3] - s[0]) <= sc and (s[4] is None or near(s[4], L[t], sc)) for s, t in zip(snaps, lens))
                    ctx.check(good, lambda: what() + f": callbacks saw {snaps}, leave-one-out {[(t, L[t].mean()) for t in lens]}")
                ctx.state(tuple(A.ravel()), tuple(W.ravel()), batch, str(rule))
        ctx.trace()
    ctx.check(np.array_equal(A, kA), "operator modified")
