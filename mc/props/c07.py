"""C07: knee rule == kneedle on the cumulative absolute change of the running mean."""
import itertools
from fractions import Fraction
import numpy as np

RULE = ("all value words up to length L over the alphabet (long ones to 300, scaled and shifted) x sensitivities x cuttings into updates, recorded and not; compared with "
        "the kneedle rule evaluated in exact rational arithmetic; constant-mean sequences must be converged, also with values that "
        "are not exactly representable")
ASSUMPTIONS = ["ties of the knee threshold (within 1e-9) may be answered either way"]
EXTS = ()
VALS = [0, 1, -2, 5]
SENS = [Fraction(1, 4), Fraction(1), Fraction(5, 2)]


def cases(tier):
    L = 9 if tier == "thorough" else 7
    for n in range(0, L + 1):
        for w in itertools.product(VALS, repeat=n):
            if n < L or tier == "thorough" or w[0] in (0, 5):
                yield dict(kind="word", w=w)
    for p in ((8, 1, 0), (3, 2, 2, 1), (10,), (0, 0, 1)):
        for n in (10, 20, 40, 80):
            yield dict(kind="word", w=tuple([100 // (i + 1) for i in range(n // 2)] + [p[i % len(p)] for i in range(n - n // 2)]))
    for n in (100, 129, 300):
        for k in range(4):
            yield dict(kind="word", w=tuple([(i * (3 + k) % (5 + 2 * k)) if i % (n // (k + 2)) else 50 // (1 + i // 9) for i in range(n)]))
    for n in range(3, 8):
        for w in itertools.product((0, 2, 1, -4), repeat=n - 2) if n < 6 else [(a, b) + c * (n - 4) for a in (0, 2, 1, -4) for b in (0, 2, 1, -4) for c in ((0,), (2,), (1,))]:
            for a, b in ((0, 2), (2, 0), (-4, 6), (1, 1), (5, -3)):
                yield dict(kind="word", w=(a, b) + tuple(w))
    for a, b in ((0, 2), (2, 0), (-4, 6), (6, -4), (100, -98), (3, -3)):  # the mean no longer changes after the second sample
        for n in (3, 4, 10, 33, 64):
            yield dict(kind="word", w=(a, b) + ((a + b) // 2,) * (n - 2))
    for n in (301, 600, 1030):  # whatever their length
        for k in (0, 1):
            yield dict(kind="word", w=tuple([i % 2 for i in range(256)] + [50 * (i % (3 + k)) for i in range(n - 256)]))
    for n in (803, 900, 1300):
        for k in (0, 1, 2):
            yield dict(kind="word", w=tuple([(i * (3 + k) % (5 + 2 * k)) if i % (n // (k + 2)) else 50 // (1 + i // 9) for i in range(n)]))
    for n in (520, 1030) + ((2060,) if tier == "thorough" else ()):  # what the last few samples do decides
        for tail in (3, 20):
            yield dict(kind="word", w=tuple([i % 2 for i in range(n - tail)] + [10 ** 7 * (i + 1) for i in range(tail)]))
    for v in (0.1, -0.3, 1 / 3, 1e-7, 12345.678, 0.0, 2.0):
        for n in range(3, 60, 1):
            yield dict(kind="const", v=v, n=n)


def curve(w):
    """normalised curve above the diagonal, exactly (None: constant mean)"""
    n = len(w)
    mu, s = [], Fraction(0)
    for i, x in enumerate(w):
        s += x
        mu.append(s / (i + 1))
    y, acc = [], Fraction(0)
    for i in range(1, n):
        acc += abs(mu[i] - mu[i - 1])
        y.append(acc)
    lo, hi = y[0], y[-1]
    if lo == hi:
        return None
    m = len(y)
    return [(v - lo) / (hi - lo) - Fraction(i, m - 1) for i, v in enumerate(y)]


def knee(w, S, diff=False):
    """exact rule; returns (answer, margin)"""
    if len(w) < 3:
        return False, 1
    if diff is False:
        diff = curve(w)
    if diff is None:
        return True, 1
    mx, m = max(diff), len(diff)
    thr = mx - S / (m - 1)
    return (mx > thr and diff[-1] < thr), abs(float(diff[-1] - thr))


def run(ctx, case):
    from primate.estimators import KneeCriterion, MeanEstimator
    if case["kind"] == "const":
        for pat in (1, case["n"]):
            e = MeanEstimator(record=True)
            for i in range(0, case["n"], pat):
                e.update(np.full(pat, case["v"]))
                ctx.op()
            for S in SENS:
                ctx.check(bool(KneeCriterion(S=float(S))(e)), lambda: f"{case['n']} constant samples {case['v']} are not converged (S={S})")
            ctx.trace()
        ctx.state("const", case["v"], case["n"])
        return
    w = case["w"]
    diff = curve(w) if len(w) >= 3 else None
    near = []
    if diff is not None and max(diff) > diff[-1]:  # just below and just above the sensitivity at which the answer changes
        star = (max(diff) - diff[-1]) * (len(diff) - 1)
        near = [star * (1 - Fraction(1, 10 ** 5)), star * (1 + Fraction(1, 10 ** 5))]
    for cut in (1, len(w) or 1, 3):
        for cov in (False, True):
            e = MeanEstimator(covariance=cov, record=True)
            for i in range(0, len(w), cut):
                e.update(np.array(w[i:i + cut], dtype=float))
                ctx.op()
            for S in SENS + near:
                exp, margin = knee(w, S, diff)
                got = KneeCriterion(S=float(S))(e)
                ctx.op()
                ctx.check(isinstance(got, (bool, np.bool_)), lambda: f"answer {got!r} is not Boolean")
                if margin > 1e-9:
                    ctx.check(bool(got) == exp, lambda: f"samples {w}, S={S}: the rule answers {got}, the kneedle rule {exp}")
                    ctx.outcome(str(exp))
            ctx.check(isinstance(KneeCriterion().message(e), str), "message is not text") if w else None
        ctx.trace()
    if 0 < len(w) <= 5 or len(w) >= 10:  # the rule is invariant under scaling and shifting of the samples
        for sc, off in ((2.0 ** -60, 0), (2.0 ** -30, 0), (2.0 ** 30, 0), (2.0 ** 60, 0), (-1.0, 0), (1.0, 100), (1.0, -1000)):
            e = MeanEstimator(record=True)
            e.update(np.array([sc * x + off for x in w], dtype=float))
            ctx.op()
            for S in SENS:
                exp, margin = knee(w, S, diff)
                got = KneeCriterion(S=float(S))(e)
                if margin > 1e-8:
                    ctx.check(bool(got) == exp, lambda: f"samples {w} times {sc} plus {off}, S={S}: the rule answers {got}, the kneedle rule {exp}")
    e = MeanEstimator(record=False)
    if w:
        e.update(np.array(w, dtype=float))
    ctx.check(not KneeCriterion()(e), "the rule holds without recorded values")
    ctx.state(w)
