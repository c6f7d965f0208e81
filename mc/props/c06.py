"""C06: confidence rule and confidence intervals against the exact quantiles."""
import itertools, math
import numpy as np
from mc.core import close, raises

RULE = ("sample sizes 1..N for every periodic data word (period <= 3) of the alphabet (scaled by 2^-60..2^60 and up to n=1000 on a coarser grid) x several cuttings of the stream x confidence "
        "levels: the rule is evaluated with atol/rtol just above and below the half-width / relative error computed from textbook "
        "formulas (own Student-t quantile by numerical inversion); intervals: all words up to length L x levels x distributions")
ASSUMPTIONS = ["quantile agreement 1e-6 relative", "the estimator tracks covariance (as in hutch)"]
EXTS = ()
ALPH = [(1.0, 2.0), (3.0,), (-1.0, 4.0, 0.5), (10.0, 10.5), (0.0, 0.0, 1.0), (-5.0, -4.0, -4.5), (1.0, -1.0)]
LEVELS = [0.5, 0.8, 0.9, 0.95, 0.99]
ODD = [0.0123, 1 / 3, 0.6827, 0.9545, 0.9973, 0.9995, 1 - 1e-6, 1 - 1e-8]  # levels that are not multiples of a hundredth
_tq = {}


def t_cdf(x, df):
    """Student-t CDF by its finite series (exact for integer df)."""
    th = math.atan(x / math.sqrt(df))
    c, s = math.cos(th), math.sin(th)
    if df % 2 == 1:
        acc, term = 0.0, c
        if df > 1:
            acc = term
            k = 2
            while k <= df - 2:
                term *= k / (k + 1) * c * c
                acc += term
                k += 2
        return 0.5 + (th + s * acc) / math.pi if df > 1 else 0.5 + th / math.pi
    acc, term, k = 1.0, 1.0, 1
    while k <= df - 3:
        term *= k / (k + 1) * c * c
        acc += term
        k += 2
    return 0.5 + s * acc / 2


def inv(f, p, lo, hi):
    for _ in range(200):
        mid = (lo + hi) / 2
        if f(mid) < p:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def tq(conf, df):
    k = (conf, df)
    if k not in _tq:
        _tq[k] = inv(lambda x: t_cdf(x, df), (1 + conf) / 2, 0.0, 1e10)
    return _tq[k]


def zq(conf):
    k = (conf, 0)
    if k not in _tq:
        _tq[k] = inv(lambda x: 0.5 * (1 + math.erf(x / math.sqrt(2))), (1 + conf) / 2, 0.0, 50.0)
    return _tq[k]


def cases(tier):
    N = 130 if tier == "thorough" else 64
    for a in range(len(ALPH)):
        for n in range(1, N + 1):
            yield dict(kind="rule", a=a, n=n)
        for n in (1, 2, 3, 4, 9, 28, 29, 30, 31, 32, 33, 64, 65, 100, 200, 1000):
            for ps in (-60, -30, -10, 10, 30, 60):
                yield dict(kind="rule", a=a, n=n, ps=ps)
        for n in (1, 2, 3, 4, 9, 29, 30, 31, 64, 100):
            for off in (-2.0 ** 24, 2.0 ** 26):
                yield dict(kind="rule", a=a, n=n, off=off)
        for n in (1001, 3000):
            yield dict(kind="rule", a=a, n=n)
    L = 6 if tier == "thorough" else 5
    for n in range(2, L + 1):
        for w in itertools.product((0.0, 1.0, -2.5), repeat=n):
            yield dict(kind="ci", w=w)
    for n in (10, 29, 30, 31, 50, 100, 129, 257, 1000, 1025, 2000, 5000):
        for a in range(len(ALPH)):
            yield dict(kind="ci", w=tuple(np.resize(ALPH[a], n).tolist()))
    yield dict(kind="rej")
    yield dict(kind="const")


def stats(x):
    n = len(x)
    mu = math.fsum(x) / n
    s = math.sqrt(math.fsum((t - mu) ** 2 for t in x) / (n - 1)) if n > 1 else math.inf
    return mu, s / math.sqrt(n)


def run(ctx, case):
    from primate.estimators import ConfidenceCriterion, MeanEstimator
    from primate.stats import confidence_interval
    if case["kind"] == "rej":
        ctx.op()
        for c in (0.0, 1.0, -0.1, 1.5):
            ctx.check(raises(ConfidenceCriterion, confidence=c), lambda: f"confidence level {c} accepted by the rule")
        for c in (-0.1, 1.5, "x"):
            ctx.check(raises(confidence_interval, np.array([1.0, 2.0, 3.0]), confidence=c), lambda: f"confidence level {c} accepted")
        ctx.check(raises(confidence_interval, np.array([1.0, 2.0, 3.0]), sdist="cauchy"), "unknown sampling distribution accepted")
        return
    if case["kind"] == "const":
        for v in (0.0, 2.0, -3.0):
            for n in range(1, 40):
                e = MeanEstimator(covariance=True)
                e.update(np.full(n, v))
                ctx.op()
                for at, rt in ((0.0, 0.0), (1.0, 0.0), (None, 1.0 if v else None)):
                    got = ConfidenceCriterion(atol=at, rtol=rt)(e)
                    ctx.check(bool(got) == (n >= 3), lambda: f"{n} equal samples {v}: the rule answers {got!r}")
        return
    if case["kind"] == "ci":
        x = np.array(case["w"])
        mu, se = stats(case["w"])
        for sd in ("t", "normal"):
            last = 0.0
            for c in sorted(LEVELS + ODD):
                keep = x.copy()
                lo, hi = confidence_interval(x, confidence=c, sdist=sd)
                ctx.op()
                ctx.check(np.array_equal(x, keep), "confidence_interval changed its argument")
                q = tq(c, len(x) - 1) if sd == "t" else zq(c)
                if se > 0:
                    ctx.check(close([lo, hi], [mu - q * se, mu + q * se], 1e-9, (1e-9 if c < 0.9999 else 1e-7) * q * se), lambda: f"{sd} interval at {c} of {case['w']}: {(lo, hi)} expected {(mu - q * se, mu + q * se)}")
                    ctx.check(lo <= mu <= hi and hi - lo > last, lambda: f"{sd} interval {(lo, hi)} does not bracket {mu} or does not widen")
                    last = hi - lo
                elif sd == "t":
                    ctx.check(close([lo, hi], [mu, mu], 1e-9, 1e-9), lambda: f"{sd} interval of constant data: {(lo, hi)}")
            if se > 0:
                for c in (0.0, 0, 1.0, 1):
                    lo, hi = confidence_interval(x, confidence=c, sdist=sd)
                    ctx.op()
                    ctx.check(close([lo, hi], [mu, mu], 1e-9, 1e-9 * se) if c == 0 else (lo == -math.inf and hi == math.inf), lambda: f"{sd} interval at level {c} of {case['w']}: {(lo, hi)}")
        l1 = confidence_interval(x)
        ctx.check(se == 0 or close(l1, [mu - tq(0.95, len(x) - 1) * se, mu + tq(0.95, len(x) - 1) * se], 1e-6, 1e-7), "default interval is not the 95% t interval")
        ctx.trace()
        ctx.state("ci", case["w"])
        return
    n = case["n"]
    sc = 2.0 ** case.get("ps", 0)
    x = np.resize(ALPH[case["a"]], n) * sc + case.get("off", 0.0)
    mu, se = stats(x.tolist())
    const = len(set(x.tolist())) == 1
    for pat in ((n,), (1,) * n, (n - 1, 1), (1, n - 1), (2, n - 2), (n // 2, n - n // 2)):
        if any(b < 1 for b in pat):
            continue
        e = MeanEstimator(covariance=True)
        i = 0
        for b in pat:
            e.update(x[i:i + b])
            ctx.op()
            i += b
        for conf in LEVELS + (ODD if len(pat) == 1 else []):
            q = tq(conf, n - 1) if 1 < n < 30 else zq(conf)
            moe = q * se
            tests = []
            if not const and n >= 3:
                tests += [(moe * (1 + 1e-6), 0.0, True), (moe * (1 - 1e-6), 0.0, False), (moe * (1 - 1e-6), None, False), (moe * 2, None, True)]
                if abs(mu) > 1e-9 * sc:
                    r = se / abs(mu)
                    tests += [(0.0, r * (1 + 1e-6), True), (0.0, r * (1 - 1e-6), False), (None, r * (1 + 1e-6), True), (None, r * (1 - 1e-6), False), (None, None, False), (moe * (1 - 1e-6), r * (1 - 1e-6), False)]
                elif abs(mu) == 0.0 or True:
                    tests += [(0.0, 1e-3, False)]
            if n < 3:
                tests += [(1e12 * max(1, sc), 1e12, False), (sc, 1.0, False)]
            for at, rt, exp in tests:
                c = ConfidenceCriterion(confidence=conf, atol=at, rtol=rt)
                got = c(e)
                ctx.op()
                ctx.check(bool(got) == exp, lambda: f"n={n} data {ALPH[case['a']]}.. cut {pat}: rule(conf={conf}, atol={at}, rtol={rt}) answers {got}, "
                                            f"half-width {moe}, standard error {se}, mean {mu}")
                ctx.outcome(f"{exp}")
            ctx.check(isinstance(ConfidenceCriterion(confidence=conf).message(e), str), "message is not text")
        ctx.trace()
    d = ConfidenceCriterion()
    if n >= 3 and not const and abs(se / abs(mu) - 0.01) > 1e-9 if abs(mu) > 1e-9 * sc else False:
        ctx.check(bool(d(e)) == (se / abs(mu) <= 0.01), "default rule is not 'standard error at most one percent of the mean'")
    ctx.state("rule", case["a"], n)
