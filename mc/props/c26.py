"""C26: diagonal estimator."""
import itertools
import numpy as np
from mc.lib import Scripted, Spy, big_cols, big_matrix, near, struct_family, sym_from_word, sym_words
from mc.props.c14 import reps
from mc.rules import Tie, build, holds

RULE = ("all scripted vector words up to length L over the alphabet x operators (all small words, structured, diagonal, larger ones to n=70/150 with up to 150 samples) x representations and "
        "precisions x stopping rules (basic, composite, user-defined) x full/callback/record x samplers returning columns or 1-D arrays: "
        "estimate, number of draws, every callback snapshot (also after later updates) and the result object against the ratio definition")
ASSUMPTIONS = ["the accumulated squares are positive in every entry (the ratio is undefined otherwise)", "near ties (1e-7) of stopping thresholds may go either way"]
EXTS = ("tqli", "fttr", "_lanczos")
V = {1: [[1.0], [-1.0], [2.0], [0.5]], 2: [[1.0, 1.0], [1.0, -1.0], [2.0, 0.5], [-0.5, -1.0]], 3: [[1.0, 1.0, 1.0], [-1.0, 1.0, 1.0], [1.0, 2.0, -1.0], [0.5, -1.0, 2.0]]}
RULES = [["count", 0], ["count", 1], ["count", 2], ["count", 4], ["tol", 0.3, 0.0], ["tol", 0.0, 0.4], ["tol", 0.05, 0.1], ["tol", 0.01, 1.49e-8], ["user", 3], ["above", 1.5],
         ["or", ["count", 4], ["tol", 0.2, 0.0]], ["and", ["count", 3], ["tol", 0.5, 0.1]], ["not", ["not", ["count", 3]]], ["and", ["not", ["tol", 0.05, 0.0]], ["user", 2]]]
CAP = 12
MODES = [(f, c, r) for f in (False, True) for c in (False, True) for r in (False, True)]


def mats(tier):
    for a in (-2.0, 0.0, 1.5):
        yield 1, [[a]]
    for w in sym_words(2, (-1, 0, 2)):
        yield 2, sym_from_word(w, 2).tolist()
    for nm in ("diag", "diagneg", "lap", "invol", "rank1", "zero", "arrow", "hilb", "path"):
        yield 3, struct_family(3)[nm].tolist()
    yield 2, [[1.0, 2.0], [-0.5, 3.0]]  # not symmetric: the ratio definition is the same


def cases(tier):
    for n, A in mats(tier):
        for w in itertools.product(range(4), repeat=4 if tier == "thorough" else 3):
            yield dict(n=n, A=A, w=w)
    for n in range(1, 7):
        yield dict(n=n, diagonal=1)
    for n in (1, 2, 3, 5):
        yield dict(n=n, native=1)
    yield dict(n=0, empty=1)
    for n in (12, 40, 70) + ((150,) if tier == "thorough" else ()):
        for nm in ("lin", "indef", "out", "rank", "clust"):
            yield dict(n=n, large=nm)
    for n in (8, 30, 270, 530):
        yield dict(n=n, large="indef" if n > 6 else "lin", long=1)


class Flat(Scripted):
    """sampler answering one-dimensional requests with one-dimensional arrays"""

    def __call__(self, size):
        x = super().__call__(size)
        return x[:, 0] if isinstance(size, (int, np.integer)) else x


def ratios(A, vs):
    n = len(A)
    num, den, out = np.zeros(n), np.zeros(n), []
    for v in vs:
        num, den = num + v * (A @ v), den + v * v
        out.append(num / den)
    return out


def large(ctx, case):
    """Larger operators, long runs."""
    from primate.diagonal import diag
    n = case["n"]
    A = big_matrix(n, case["large"])[0]
    A = A / np.abs(A).max()
    ops = list(reps(A, np.float64)) + [("float32", A.astype(np.float32))]
    for vi, vk in enumerate(("signs", "graded", "orth")):
        long = "long" in case
        cols = big_cols(n, 1100 if long else 160, vk)
        if vk == "orth":
            cols = [c + 0.01 for c in cols]
        rs = ratios(A, cols)
        mus = np.cumsum(rs, axis=0) / np.arange(1, len(rs) + 1)[:, None]
        for ri, rule in enumerate((["count", 257], ["count", 350], ["count", 1050]) if long else (["count", 1], ["count", 33], ["count", 64], ["count", 65], ["count", 130], ["or", ["count", 150], ["tol", 0.05, 0.0]], ["or", ["count", 150], ["tol", 0.0, 0.01]])):
            for full, cb, rec in MODES:
                nm, op = ops[(ri + vi + full + 2 * cb + 4 * rec) % len(ops)]
                pdf, snaps = Scripted(n, cols), []
                out = diag(op, pdf=pdf, converge=build(rule), full=full, record=rec, callback=(lambda r: snaps.append((np.array(r.estimate), r.nit))) if cb else None)
                t = pdf.pos
                ctx.op(t)
                what = lambda: f"{case} {nm} vectors {vk} rule={rule} full={full} callback={cb} record={rec}, {t} samples"
                sc = (1e-3 if nm == "float32" else 1e-9) * max(1.0, np.abs(rs[:t]).max())
                est = out[0] if isinstance(out, tuple) else out
                ctx.check(t > 0 and near(np.ravel(est), mus[t - 1], sc), lambda: what() + f": estimate off by {np.abs(np.ravel(est) - mus[t - 1]).max()}")
                if rec and isinstance(out, tuple):
                    ctx.check(near(np.array(out[1].estimator.values).reshape(t, -1), np.array(rs[:t]), sc), lambda: what() + ": recorded ratios differ from the definition")
                if cb:
                    ctx.check(len(snaps) == t and all(near(np.ravel(s[0]), mus[j], sc) and s[1] == j + 1 for j, s in enumerate(snaps)), lambda: what() + f": callbacks saw {len(snaps)} estimates, not the running ones")
                if nm != "float32":
                    try:
                        for j in range(t):
                            ctx.check(not holds(rule, rs[:j], 1), lambda: what() + f": the rule held after {j} samples")
                        ctx.check(holds(rule, rs[:t], 1), lambda: what() + ": stopped although the rule does not hold")
                    except Tie:
                        ctx.outcome("tie")
        ctx.trace()
        ctx.state(n, case["large"], vk)


def run(ctx, case):
    from primate.diagonal import diag
    from primate.random import isotropic
    n = case["n"]
    th = ctx.tier == "thorough"
    if "large" in case:
        return large(ctx, case)
    if "empty" in case:
        for kw in ({}, {"full": True}):
            t = diag(np.zeros((0, 0)), **kw)
            ctx.op()
            ctx.check(np.size(t[0] if isinstance(t, tuple) else t) in (0, 1), lambda: f"diagonal of the empty operator: {t!r}")
        return
    if "diagonal" in case:
        for al in itertools.product((-2.0, 0.0, 0.5, 3.0), repeat=min(n, 4)):
            d = np.array((al * 2)[:n])
            for pdf in ("rademacher", "normal", "sphere"):
                for k in (1, 2, 3):
                    e = diag(np.diag(d), pdf=pdf, converge="count", count=k, seed=k)
                    ctx.op(k)
                    ctx.check(near(np.ravel(e), d, 1e-9), lambda: f"diagonal operator {d}: {pdf} estimate after {k} samples {e}")
            seen = []
            diag(np.diag(d), pdf="normal", converge="count", count=4, seed=7, callback=lambda r: seen.append(np.array(r.estimate)))
            ctx.check(len(seen) == 4 and all(near(np.ravel(x), d, 1e-9) for x in seen), lambda: f"diagonal operator {d}: estimates {seen}")
            ctx.state(tuple(d))
        ctx.trace()
        return
    if "native" in case:
        A = struct_family(n)["rank1"] + np.diag(np.arange(n) - 0.5)
        for pdf in ("rademacher", "signs", "normal", "gaussian", "sphere"):
            for seed in range(5):
                for k in (1, 2, 5):
                    g = np.random.default_rng(seed)
                    vs = [np.ravel(isotropic((n, 1), pdf=pdf, seed=g)) for _ in range(k)]
                    e = np.mean(ratios(A, vs), axis=0)
                    for full in (False, True):
                        out = diag(A, pdf=pdf, converge="count", count=k, seed=np.random.default_rng(seed), full=full)
                        out = out[0] if full else out
                        ctx.op(k)
                        ctx.check(near(np.ravel(out), e, 1e-8 * max(1, np.abs(e).max())), lambda: f"{pdf} seed {seed} count {k} full={full}: {out}, by definition {e}")
                    ctx.state(n, pdf, seed, k)
        # the default rule is the tolerance rule with its defaults
        for seed in range(4):
            pdf = Scripted(n, [np.ravel(isotropic((n, 1), seed=np.random.default_rng(seed + 50 * j))) for j in range(400)], tail=[np.ones(n)])
            diag(A, pdf=pdf)
            rs = ratios(A, pdf.drawn())
            ctx.op(len(rs))
            try:
                for t in range(len(rs)):
                    ctx.check(not holds(["tol", 0.01, 1.49e-8], rs[:t], 1), lambda: f"default rule held after {t} samples, drew {len(rs)}")
                ctx.check(holds(["tol", 0.01, 1.49e-8], rs, 1), lambda: f"stopped after {len(rs)} samples, default tolerance rule does not hold")
            except Tie:
                ctx.outcome("tie")
        ctx.trace()
        return
    A = np.array(case["A"], dtype=float)
    kA = A.copy()
    cols = [np.array(V[n][i]) for i in case["w"]]
    tail = [np.array(V[n][i]) for i in (0, 1, 3, 2, 1)]
    if sum(case["w"]) % (1 if th else 3) == 0:  # the ratios do not depend on the scale of the vectors, and are homogeneous in the operator
        for k in (-300, -60, -30, 30, 60, 300):
            for j, (B, f) in enumerate(((A, 1.0), (A * 2.0 ** k, 2.0 ** k), (A * 2.0 ** -k, 2.0 ** -k))):
                vs = [2.0 ** k * c for c in cols]
                full = bool((j + k // 30) % 2)
                e = diag(B, pdf=Scripted(n, vs), converge="count", count=len(vs), full=full)
                e = np.ravel(e[0] if full else e) / f
                ref = np.mean(ratios(A, cols), axis=0)
                ctx.op(len(vs))
                ctx.check(near(e, ref, 1e-10 * max(1.0, np.abs(ref).max())), lambda: f"A={A.tolist()}*{f} vectors={np.array(cols).tolist()}*2^{k}: estimate {e} times {f}, by definition {ref}")
    R = list(reps(A, np.float64))
    h = sum((i + 1) * x for i, x in enumerate(case["w"])) + int(np.abs(A).sum())
    for ri, rule0 in enumerate(RULES):
        rule = ["or", ["count", CAP], rule0]
        for mi, (full, cb, rec) in enumerate(MODES):
            if not th and (ri + mi + h) % 3:
                continue
            pick = (ri + mi + h) % (len(R) + 1)
            nm, op = R[pick] if pick < len(R) else ("float32", A.astype(np.float32))
            tol = 1e-5 if nm == "float32" else 1e-11
            pdf = (Flat if (ri + h) % 2 else Scripted)(n, cols, tail=tail)
            snaps = []
            crit = build(rule)

            def callback(r):
                snaps.append((r.estimate, np.array(r.estimate, copy=True), r.nit, len(r.estimator), r.estimator.estimate, np.array(r.estimator.estimate, copy=True), bool(r.criterion(r.estimator))))

            out = diag(op, pdf=pdf, converge=crit, full=full, callback=callback if cb else None, record=rec)
            ctx.op(len(pdf.log) + 1)
            vs = pdf.drawn()
            what = lambda: f"{nm} A={A.tolist()} vectors={np.array(vs).tolist()} rule={rule0} full={full} callback={cb} record={rec}"
            rs = ratios(A, vs)
            sc = tol * max([1.0] + [np.abs(r).max() for r in rs])
            mus = [np.mean(rs[: t + 1], axis=0) for t in range(len(rs))]
            ctx.check(all(k == 1 for k in pdf.log), lambda: what() + f": requests {pdf.log}")
            est = out[0] if isinstance(out, tuple) else out
            if not rs:
                ctx.check(np.all(np.isnan(est)), lambda: what() + f": estimate {est!r} without samples")
            else:
                ctx.check(np.size(est) == n and near(np.ravel(est), mus[-1], sc), lambda: what() + f": estimate {est}, by definition {mus[-1]}")
            try:
                if tol < 1e-6:
                    for t in range(len(rs)):
                        ctx.check(not holds(rule, rs[:t], 1), lambda: what() + f": the rule held after {t} samples, but {len(rs)} were drawn")
                    ctx.check(holds(rule, rs, 1), lambda: what() + f": stopped after {len(rs)} samples although the rule does not hold")
            except Tie:
                ctx.outcome("tie")
            if full:
                ctx.check(isinstance(out, tuple) and len(out) == 2, lambda: what() + f": output {out!r}")
            if isinstance(out, tuple):
                r = out[1]
                ok = r.nit == len(rs) and len(r.estimator) == len(rs) and r.criterion is crit and (not rs or near(np.ravel(r.estimate), mus[-1], sc))
                ctx.check(ok, lambda: what() + f": result estimate={r.estimate} nit={r.nit} samples={len(r.estimator)}")
                if rec and rs:
                    ctx.check(near(np.array(r.estimator.values).reshape(len(rs), -1), np.array(rs), sc), lambda: what() + f": recorded {r.estimator.values}, ratios {rs}")
            else:
                ctx.check(not full and not cb, lambda: what() + f": output {out!r}")
            if cb:
                ctx.check(len(snaps) == len(rs), lambda: what() + f": {len(snaps)} callbacks for {len(rs)} samples")
                for t, s in enumerate(snaps):
                    ctx.check(near(np.ravel(s[1]), mus[t], sc) and near(np.ravel(s[5]), mus[t], sc) and s[2] == t + 1 and s[3] == t + 1,
                              lambda: what() + f": callback {t} saw estimate {s[1]} / {s[5]} nit {s[2]}, by definition {mus[t]}")
                    ctx.check(np.array_equal(s[0], s[1]) and np.array_equal(s[4], s[5]), lambda: what() + f": the estimate handed out at step {t} changed from {s[1]} to {s[0]} later")
                    ctx.check(t + 1 == len(snaps) or not s[6], lambda: what() + f": criterion held in callback {t}, sampling went on")
            ctx.check(np.array_equal(A, kA), lambda: what() + ": operator modified")
            ctx.state(tuple(A.ravel()), case["w"], str(rule0), full, cb, rec)
    ctx.trace()
