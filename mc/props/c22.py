"""C22: Girard-Hutchinson trace estimator."""
import itertools
import numpy as np
from mc.core import raises
from mc.lib import Scripted, Spy, TooMany, big_cols, big_matrix, near, struct_family, sym_from_word
from mc.rules import Tie, build, holds

RULE = ("all scripted vector words up to length L over the alphabet x operators (all 1x1/2x2 words, structured 3x3, matrix-free, quad-only, "
        "matrix functions, single precision) x batch sizes x stopping rules (all basic rules, composites, user-defined) x full/callback/record, "
        "larger operators (to n=40/150) with batches to 257 and counts to 300: estimate, number of draws, every callback snapshot and the result object against the draws of the recorded requests")
ASSUMPTIONS = ["script vectors follow each other cyclically after the enumerated prefix", "near ties (1e-7) of the stopping thresholds may go either way"]
EXTS = ("tqli", "fttr", "_lanczos")
V = {1: [[1.0], [-1.0], [2.0], [0.5]], 2: [[1.0, 1.0], [1.0, -1.0], [2.0, 0.0], [0.5, -1.0]], 3: [[1.0, 1.0, 1.0], [-1.0, 1.0, 1.0], [1.0, 2.0, 0.0], [0.0, 0.0, -1.0]]}
RULES = [["count", k] for k in (0, 1, 2, 3, 5)] + [
    ["tol", 0.3, 0.0], ["tol", 0.0, 0.4], ["tol", 0.05, 0.1], ["conf", 0.95, 0.0, 0.3], ["conf", 0.8, 1.0, 0.0], ["user", 4], ["above", 1.5],
    ["or", ["count", 4], ["tol", 0.2, 0.0]], ["and", ["count", 3], ["tol", 0.5, 0.1]], ["and", ["not", ["tol", 0.05, 0.0]], ["user", 2]],
    ["not", ["not", ["count", 3]]], ["or", ["conf", 0.9, 0.5, 0.0], ["and", ["above", 2.0], ["count", 2]]]]
CAP = 24


def mats():
    for a in (-2.0, 0.0, 1.5):
        yield 1, [[a]]
    for w in itertools.product((-1, 0, 2), repeat=3):
        yield 2, sym_from_word(w, 2).tolist()
    for nm in ("diag", "lap", "invol", "rank1", "zero"):
        yield 3, struct_family(3)[nm].tolist()


def cases(tier):
    th = tier == "thorough"
    for n, A in mats():
        L = 3 if not th else 4
        for w in itertools.product(range(4), repeat=L):
            if not th and n == 2 and (w[0] + 2 * w[1] + 3 * w[2] + int(np.sum(A))) % 3:
                continue
            yield dict(kind="loop", n=n, A=A, w=w)
    for nm in ("diag", "lap", "hilb", "proj"):
        for n in (2, 3, 4):
            yield dict(kind="mf", n=n, name=nm)
    for n in (1, 2, 3):
        for pdf in ("rademacher", "signs", "sphere", "normal", "gaussian"):
            yield dict(kind="pdf", n=n, pdf=pdf)
    for n in (7, 12, 40) + ((90, 150) if th else ()):
        for nm in ("lin", "indef", "out", "rank"):
            if n > 7 or nm in ("lin", "indef"):
                for vk in ("signs", "graded"):
                    yield dict(kind="large", n=n, name=nm, vk=vk)
    for n in (130, 270, 1030):
        yield dict(kind="large", n=n, name="lin", vk="graded", long=1)
    yield dict(kind="default")
    yield dict(kind="empty")
    yield dict(kind="knee")


class Quad:
    """Operator that offers a quad method (as matrix functions do) and logs what it was asked for."""

    def __init__(self, A, block=True):
        self.A, self.shape, self.dtype, self.calls = A, A.shape, A.dtype, []

    def matvec(self, x):
        return self.A @ x

    __matmul__ = matvec

    def quad(self, x):
        self.calls.append(np.array(x))
        x = x[:, None] if x.ndim == 1 else x
        return np.array([x[:, j] @ self.A @ x[:, j] for j in range(x.shape[1])])


def expect_stop(rule, q, log, cap):
    """Checks that the recorded request sizes stop exactly when the rule first holds. Returns an error text or None."""
    seen, last = 0, 0
    for k in log:
        if holds(rule, [[x] for x in q[:seen]], last):
            return f"the rule held after {seen} samples but {sum(log)} were drawn ({log})"
        seen += k
        last = k
    if seen < cap and not holds(rule, [[x] for x in q[:seen]], last):
        return f"stopped after {seen} samples {q[:seen]} although the rule does not hold"
    return None


def one(ctx, A, op, n, cols, rule, batch, mode, dtol):
    """One call of hutch under the script; returns after checking everything."""
    from primate.trace import hutch
    full, cb, rec = mode
    capped = ["or", ["count", CAP], rule]
    pdf = Scripted(n, cols, tail=[V[n][i] for i in (0, 1, 3, 2, 1)])
    crit = build(capped)
    snaps = []

    def callback(res):
        snaps.append((res.estimate, res.nit, len(res.estimator), res.estimator.estimate, bool(res.criterion(res.estimator)), res.criterion is crit))

    kw = dict(record=True) if rec else {}
    out = hutch(op, batch=batch, pdf=pdf, converge=crit, full=full, callback=callback if cb else None, **kw)
    ctx.op(len(pdf.log) + 1)
    what = lambda: f"A={np.asarray(A).tolist()} vectors={[np.ravel(c).tolist() for c in pdf.drawn()]} batch={batch} rule={rule} full={full} callback={cb} record={rec}"
    dv = [np.asarray(c, dtype=float) for c in pdf.drawn()]
    q = [float(v @ A @ v) for v in dv]
    err = expect_stop(capped, q, pdf.log, 10 ** 9)
    ctx.check(err is None, lambda: what() + ": " + err)
    est = out[0] if isinstance(out, tuple) else out
    mean = np.mean(q) if q else np.nan
    sc = dtol * max([1.0] + [abs(x) for x in q])
    ok = lambda x, y: np.size(x) == 1 and ((np.isnan(y) and np.isnan(float(np.ravel(x)[0]))) or abs(float(np.ravel(x)[0]) - y) <= sc)
    ctx.check(ok(est, mean), lambda: what() + f": estimate {est}, mean of the quadratic forms {mean}")
    if full:
        ctx.check(isinstance(out, tuple) and len(out) == 2, lambda: what() + f": full output is {out!r}")
    if not full and not cb:
        ctx.check(not isinstance(out, tuple), lambda: what() + f": plain output is {out!r}")
    if full or cb:
        ctx.check(all(k == batch for k in pdf.log), lambda: what() + f": batch sizes requested {pdf.log}")
    if isinstance(out, tuple):
        res = out[1]
        ctx.check(ok(res.estimate, mean) and res.nit == len(q) and len(res.estimator) == len(q) and isinstance(res.message, str) and res.criterion is crit,
                  lambda: what() + f": result estimate={res.estimate} nit={res.nit} samples={len(res.estimator)} message={res.message!r}; expected {mean}, {len(q)}")
        if rec:
            ctx.check(near(np.ravel(res.estimator.values) if q else np.zeros(0), np.array(q), sc), lambda: what() + f": recorded {res.estimator.values}, quadratic forms {q}")
        else:
            ctx.check(res.estimator.values is None, lambda: what() + ": values recorded without being asked")
    if cb:
        tot = np.cumsum(pdf.log)
        ctx.check(len(snaps) == len(pdf.log), lambda: what() + f": {len(snaps)} callbacks for {len(pdf.log)} batches")
        for t, s in zip(tot, snaps):
            m = np.mean(q[:t])
            ctx.check(ok(s[0], m) and s[1] == t and s[2] == t and ok(s[3], m) and s[5], lambda: what() + f": after {t} samples the callback saw {s}, estimate is {m}")
            if t < tot[-1]:
                ctx.check(not s[4], lambda: what() + f": criterion held after {t} samples in the callback, but sampling went on")
    ctx.trace()


BATCHES = (1, 2, 7, 16, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257)


def large(ctx, case):
    """Larger operators, batches and sample counts."""
    from primate.trace import hutch
    import scipy.sparse as sp
    n, vk = case["n"], case["vk"]
    A = big_matrix(n, case["name"])[0] / 4
    cols = big_cols(n, 3200 if "long" in case else 900, vk)
    q = np.array([v @ A @ v for v in cols])
    long = "long" in case
    for bi, batch in enumerate((1, 7, 64, 128, 260, 300, 513, 1030) if long else BATCHES):
        for ri, rule in enumerate((["count", 1], ["count", 520], ["count", 1030], ["or", ["count", 2100], ["tol", 1e-6, 0.0]], ["or", ["count", 700], ["conf", 0.99, 0.0, 1e-4]]) if long else (["count", 1], ["count", 100], ["count", 250], ["or", ["count", 300], ["tol", 0.002, 0.0]], ["or", ["count", 300], ["conf", 0.9, 0.0, 0.02]], ["user", 65])):
            for full, cb, rec in MODES if (bi + ri) % 3 == 0 else [(True, True, True), (False, False, False)]:
                if not (full or cb) and bi > 2:
                    continue
                k = (bi + ri) % 5
                op = [A, np.asfortranarray(A), Quad(A), sp.csr_array(A), A.astype(np.float32)][k]
                pdf, snaps = Scripted(n, cols), []
                out = hutch(op, batch=batch, pdf=pdf, converge=build(rule), full=full, callback=(lambda r: snaps.append((float(r.estimate), r.nit, len(r.estimator)))) if cb else None, **(dict(record=True) if rec else {}))
                ctx.op(len(pdf.log))
                what = lambda: f"{case} batch={batch} rule={rule} full={full} callback={cb} record={rec}, requests {pdf.log}"
                sc = (3e-5 if k == 4 else 1e-10) * max(1.0, np.abs(q).max())
                t = pdf.pos
                est, res = out if isinstance(out, tuple) else (out, None)
                ctx.check(np.size(est) == 1 and abs(float(np.ravel(est)[0]) - q[:t].mean()) <= sc, lambda: what() + f": estimate {est}, mean of the {t} quadratic forms {q[:t].mean()}")
                if res is not None:
                    ctx.check(all(b == batch for b in pdf.log), lambda: what() + ": requests of another size than the batch")
                    ctx.check(res.nit == t and len(res.estimator) == t and abs(float(np.ravel(res.estimate)[0]) - q[:t].mean()) <= sc, lambda: what() + f": result estimate={res.estimate} nit={res.nit}")
                    if rec:
                        ctx.check(near(np.ravel(res.estimator.values), q[:t], sc), lambda: what() + ": recorded values are not the quadratic forms in order")
                if cb:
                    c = np.cumsum(pdf.log)
                    ctx.check(len(snaps) == len(c) and all(abs(x[0] - q[:m].mean()) <= sc and x[1] == m and x[2] == m for x, m in zip(snaps, c)), lambda: what() + f": callbacks saw {snaps}")
                if k != 4:
                    try:
                        err = expect_stop(rule, list(q[:t]), pdf.log, 10 ** 9)
                        ctx.check(err is None, lambda: what() + ": " + err[:300])
                    except Tie:
                        ctx.outcome("tie")
        ctx.trace()
        ctx.state(n, case["name"], vk, batch)


MODES = [(f, c, r) for f in (False, True) for c in (False, True) for r in (False, True)]


def run(ctx, case):
    from primate.estimators import EstimatorResult
    from primate.trace import hutch
    kind = case["kind"]
    if kind == "loop":
        n, A = case["n"], np.array(case["A"], dtype=float)
        cols = [np.array(V[n][i]) for i in case["w"]]
        h = sum((i + 1) * x for i, x in enumerate(case["w"]))
        for ri, rule in enumerate(RULES):
            for batch in (1, 2, 3):
                for mi, mode in enumerate(MODES):
                    if mode in ((False, False, False), (False, False, True)) and batch > 1:
                        continue
                    if ctx.tier != "thorough" and (mi + ri + batch + h) % 4:
                        continue
                    kA = A.copy()
                    k = (ri + h + batch) % 5
                    try:
                        if k == 4:
                            op = Quad(A)
                        elif k == 3:
                            op = Spy(A)
                        elif k == 2:
                            op = A.astype(np.float32)
                        else:
                            op = A
                        one(ctx, A, op, n, cols, rule, batch, mode, 1e-6 if k == 2 else 1e-12)
                    except Tie:
                        ctx.outcome("tie")
                    ctx.check(np.array_equal(A, kA), "operator modified")
                    ctx.state(tuple(A.ravel()), case["w"], str(rule), batch, mode)
        return
    if kind == "large":
        return large(ctx, case)
    if kind == "mf":
        from primate.operators import MatrixFunction
        from mc.lib import fun_mat, krylov
        n = case["n"]
        A = struct_family(n)[case["name"]]
        for f, F in ((np.exp, np.exp), ("square" if False else (lambda x: x * x), lambda x: x * x)):
            fA = fun_mat(A, F)
            M = MatrixFunction(A, fun=f, deg=n + 1 if n > 1 else 2, orth=-1)
            for s in itertools.product((-1.0, 1.0), repeat=n):
                for t in itertools.product((-1.0, 1.0), repeat=n):
                    cols = [np.array(s), np.array(t), np.array(s) * 2.0]
                    for batch in (1, 2, 3):
                        pdf = Scripted(n, cols * 2)
                        est, res = hutch(M, batch=batch, pdf=pdf, converge="count", count=3, full=True, record=True)
                        ctx.op()
                        q = np.array([v @ fA @ v for v in pdf.drawn()])
                        ctx.check(abs(est - q.mean()) <= 1e-7 * max(1, abs(q).max()) and near(np.ravel(res.estimator.values), q, 1e-7 * max(1, abs(q).max())),
                                  lambda: f"matrix function of {A.tolist()}: vectors {np.array(pdf.drawn()).tolist()} give {res.estimator.values}, quadratic forms {q}")
                    ctx.trace()
                    ctx.state(n, case["name"], s, t)
        return
    if kind == "pdf":
        from primate.random import isotropic
        n, pdf = case["n"], case["pdf"]
        A = struct_family(n)["rank1"] + np.diag(np.arange(n) - 0.5)
        for seed in range(6):
            for batch in (1, 2, 4):
                for cnt in (1, 3, 8):
                    for full in (False, True):
                        b = batch if full else 1
                        g = np.random.default_rng(seed)
                        est = hutch(A, batch=batch, pdf=pdf, converge="count", count=cnt, seed=np.random.default_rng(seed), full=full)
                        est = est[0] if full else est
                        q = []
                        while len(q) < cnt:
                            W = isotropic((n, b), pdf=pdf, seed=g)
                            q += [W[:, j] @ A @ W[:, j] for j in range(b)]
                        ctx.op()
                        ctx.check(abs(est - np.mean(q)) <= 1e-9 * max(1, np.max(np.abs(q))), lambda: f"pdf {pdf} seed {seed} batch {batch} count {cnt} full={full}: estimate {est}, mean of the quadratic forms {np.mean(q)}")
                        ctx.state(n, pdf, seed, batch, cnt, full)
            ctx.trace()
        return
    if kind == "default":
        # default rule: 200 samples, or the 95% confidence half-width (n >= 3) is at most one
        from mc.props.c06 import tq, zq
        for amp in (0.0, 0.5, 3.0, 40.0):
            for batch in (1, 7, 32):
                for full in (False, True):
                    A = np.array([[1.0, amp], [amp, 2.0]])
                    pdf = Scripted(2, [], tail=[[1.0, 1.0], [1.0, -1.0], [1.0, 1.0]])
                    out = hutch(A, batch=batch, pdf=pdf, full=full)
                    est = out[0] if full else out
                    q = [float(np.asarray(v) @ A @ np.asarray(v)) for v in pdf.drawn()]
                    ctx.op(len(pdf.log))
                    rule = ["or", ["count", 200], ["conf", 0.95, 1.0, 0.0]]
                    err = expect_stop(rule, q, pdf.log, 10 ** 9)
                    ctx.check(err is None, lambda: f"default rule A={A.tolist()} batch={batch}: {err}")
                    ctx.check(abs(est - np.mean(q)) <= 1e-9 * max(1, abs(np.array(q)).max()), lambda: f"default rule: estimate {est}, mean {np.mean(q)}")
                    ctx.state(amp, batch, full)
        for n in (3, 12, 33, 41, 80, 150):
            for amp in (0.3, 1.0, 2.5, 20.0):
                for k, batch in enumerate((1, 4, 32, 64)):
                    A = np.diag((np.arange(n) % 5) / 4.0 - 0.5)
                    A[0, 1] = A[1, 0] = amp
                    op = [A, Quad(A), A.astype(np.float32)][(k + n) % 3]
                    pdf = Scripted(n, big_cols(n, 300, "signs"))
                    out = hutch(op, batch=batch, pdf=pdf, full=True)
                    q = [float(np.asarray(v) @ A @ np.asarray(v)) for v in pdf.drawn()]
                    ctx.op(len(pdf.log))
                    try:
                        err = expect_stop(["or", ["count", 200], ["conf", 0.95, 1.0, 0.0]], q, pdf.log, 10 ** 9)
                    except Tie:
                        ctx.outcome("tie")
                        continue
                    ctx.check(err is None, lambda: f"default rule on {n} x {n} with off-diagonal {amp} batch={batch}: {err[:300]}")
                    ctx.check(abs(out[0] - np.mean(q)) <= 1e-5 * max(1, abs(np.array(q)).max()) and out[1].nit == len(q), lambda: f"default rule, n={n}, off-diagonal {amp}: estimate {out[0]} nit {out[1].nit}, mean {np.mean(q)} of {len(q)}")
                    ctx.state("default", n, amp, batch)
        # named rules with keywords
        A = np.array([[2.0, 1.0], [1.0, 3.0]])
        for nm, kw, rule in (("count", dict(count=5), ["count", 5]), ("COUNT", dict(count=2), ["count", 2]), ("tolerance", dict(rtol=0.2, atol=0.0), ["tol", 0.2, 0.0]),
                             ("confidence", dict(confidence=0.8, atol=0.0, rtol=0.2), ["conf", 0.8, 0.0, 0.2])):
            for full in (False, True):
                for w in itertools.product(range(4), repeat=3):
                    pdf = Scripted(2, [np.array(V[2][i]) for i in w], tail=[V[2][0], V[2][1], V[2][3]])
                    hutch(A, batch=2, pdf=pdf, converge=nm, full=full, **kw)
                    ctx.op(len(pdf.log))
                    q = [float(np.asarray(v) @ A @ np.asarray(v)) for v in pdf.drawn()]
                    try:
                        err = expect_stop(rule, q, pdf.log, 10 ** 9)
                    except Tie:
                        continue
                    ctx.check(err is None, lambda: f"rule {nm} {kw} vectors {np.array(pdf.drawn()).tolist()} full={full}: {err}")
        ctx.trace()
        return
    if kind == "knee":
        for S in (0.5, 1.0, 2.0):
            for w in itertools.product(range(4), repeat=5):
                for batch in (1, 2):
                    A = np.array([[2.0, 1.0], [1.0, -1.0]])
                    pdf = Scripted(2, [np.array(V[2][i]) for i in w], tail=[V[2][0], V[2][1], V[2][3]])
                    rule = ["or", ["count", 30], ["knee", S]]
                    hutch(A, batch=batch, pdf=pdf, converge=build(rule), full=True, record=True)
                    ctx.op(len(pdf.log))
                    q = [float(np.asarray(v) @ A @ np.asarray(v)) for v in pdf.drawn()]
                    try:
                        err = expect_stop(rule, q, pdf.log, 10 ** 9)
                    except Tie:
                        ctx.outcome("tie")
                        continue
                    ctx.check(err is None, lambda: f"knee rule S={S} batch={batch} vectors {np.array(pdf.drawn()).tolist()}: {err}")
                    ctx.state(w, S, batch)
        ctx.trace()
        return
    if kind == "empty":
        for dt in (np.float32, np.float64):
            for pdf in ("rademacher", "sphere", Scripted(0, [])):
                ctx.op()
                E = np.zeros((0, 0), dtype=dt)
                t = hutch(E, pdf=pdf)
                out = hutch(E, pdf=pdf, full=True)
                ctx.check(t == 0.0 and out[0] == 0.0 and isinstance(out[1], EstimatorResult), f"empty operator: {t!r}, {out!r}")
        ctx.trace()
