"""C05: count/tolerance thresholds and the criterion factory."""
import itertools
import numpy as np
from mc.core import raises

RULE = ("all update histories up to the depth x thresholds just below, on and just above the attained value (count: n-1,n,n+1; "
        "tolerances: 1 -/+ 1e-6 times the attained value) x norm orders x dims (to 70) x scales 2^-60..2^60; factory: all names/cases x all subsets of keywords, nonzero and zero/None values")
ASSUMPTIONS = ["exact equality of the tolerance bound is only tested where the value is exactly representable (zero change)"]
EXTS = ()
SAMP = {1: [[1.0], [3.0], [-2.0], [0.0]], 2: [[1.0, 0.0], [3.0, -4.0], [0.0, 0.0], [-1.0, 2.0]], 3: [[1.0, 2.0, 2.0], [0.0, -3.0, 1.0], [4.0, 0.0, 0.0]]}
ORDS = [1, 2, 2.0, np.inf, None, -np.inf]
PARAMS = {"count": {"count": 3}, "tolerance": {"rtol": 0.25, "atol": 0.125, "ord": 1}, "confidence": {"confidence": 0.8, "atol": 0.5, "rtol": 0.1}, "knee": {"S": 0.5}}


def cases(tier):
    L = 5 if tier == "thorough" else 4
    for d in (1, 2, 3):
        for cov in (False, True):
            for n in range(0, L + 1):
                for h in itertools.product(range(len(SAMP[d])), repeat=n):
                    yield dict(kind="thr", d=d, cov=cov, h=h)
    keys = ["count", "rtol", "atol", "ord", "confidence", "S", "bogus"]
    for name in PARAMS:
        for r in range(len(keys) + 1):
            for sub in itertools.combinations(keys, r):
                yield dict(kind="fac", name=name, sub=sub)
                yield dict(kind="fac", name=name, sub=sub, zero=True)
    for d in (1, 2, 3, 20, 70):
        for ps in (-60, -30, 0, 30, 60):
            for k in range(6 if d < 20 else 4):
                yield dict(kind="scale", d=d, ps=ps, k=k)
    yield dict(kind="rej")


def nrm(x, o):
    x = np.abs(np.ravel(np.asarray(x, dtype=float)))
    if o == 1:
        return x.sum()
    if o in (2, 2.0) or o is None:
        return np.sqrt((x * x).sum())
    return x.max() if o > 0 else x.min()


def run(ctx, case):
    from primate.estimators import (ConfidenceCriterion, ConvergenceCriterion, CountCriterion, KneeCriterion, MeanEstimator,
                                    ToleranceCriterion, convergence_criterion)
    CL = {"count": CountCriterion, "tolerance": ToleranceCriterion, "confidence": ConfidenceCriterion, "knee": KneeCriterion}
    if case["kind"] == "rej":
        ctx.op()
        for bad in ("nope", "", "counts", None, 3, CountCriterion):
            ctx.check(raises(convergence_criterion, bad), lambda: f"unknown criterion {bad!r} accepted")
        for c in (CountCriterion(3), ToleranceCriterion(), ConfidenceCriterion(), KneeCriterion(), CountCriterion(1) | KneeCriterion()):
            ctx.check(convergence_criterion(c) is c and convergence_criterion(c, count=9, rtol=1.0) is c, "an existing criterion is not passed through")
        return
    if case["kind"] == "fac":
        name = case["name"]
        allp = dict(count=3, rtol=0.25, atol=0.125, ord=1, confidence=0.8, S=0.5, bogus=1)
        if case.get("zero"):
            allp.update(count=0, rtol=0.0, atol=0.0, ord=None, S=0.0, confidence=1e-3)
        kw = {k: allp[k] for k in case["sub"]}
        if name == "count" and "count" not in kw:
            ctx.check(raises(convergence_criterion, name, **kw), "count criterion without a count accepted")
            ctx.op()
            return
        accepted = {"count": {"count"}, "tolerance": {"rtol", "atol", "ord"}, "confidence": {"confidence", "atol", "rtol"}, "knee": {"S"}}[name]
        direct = CL[name](**{k: v for k, v in kw.items() if k in accepted})
        for nm in (name, name.upper(), name.capitalize()):
            c = convergence_criterion(nm, **dict(kw))
            ctx.op()
            ctx.check(type(c) is CL[name], lambda: f"{nm} builds a {type(c).__name__}")
            for h in ([1.0], [1.0, 2.0], [1.0, 1.25, 1.0], [1.0, 1.1, 1.05, 1.02], [4.0, 4.5, 4.0, 4.25, 4.0], [2.0, 2.0, 2.0], [8.0, 9.0, 8.5, 8.5, 8.5, 8.5]):
                e = MeanEstimator(covariance=True, record=True)
                for x in h:
                    e.update(x)
                    ctx.check(bool(c(e)) == bool(direct(e)), lambda: f"{nm} with {kw} answers {c(e)} but the rule constructed directly {direct(e)} on {h}")
            pub = {k: v for k, v in vars(direct).items() if not k.startswith("_") and (v is None or isinstance(v, (int, float, str, np.ndarray)))}
            for k, v in pub.items():
                ctx.check(np.array_equal(getattr(c, k, "missing"), v), lambda: f"{nm} with {kw}: parameter {k} is {getattr(c, k)!r} expected {v!r}")
        ctx.trace()
        ctx.state(name, case["sub"])
        return
    if case["kind"] == "scale":
        # thresholds just below and above the attained value at any scale and dimension
        d, sc, k = case["d"], 2.0 ** case["ps"], case["k"]
        for cov in (False, True):
            e, mu, t = MeanEstimator(dim=d, covariance=cov), np.zeros(d), 0
            rows = np.zeros((0, d))
            for b in ((1, 1, 1, 1, 1), (3, 1, 40), (64, 65, 1), (1, 200), (700, 301, 1, 4000), (1,) * 130)[k]:
                i, j = np.arange(t, t + b)[:, None], np.arange(d)[None, :]
                B = (i * 5 + j * 3 + i * j) % 7 - 2.5 + (j % 2)
                e.update(sc * B)
                t += b
                ctx.op()
                rows = np.r_[rows, B]
                new = rows.mean(axis=0)
                delta, mu = new - mu, new
                for o in ORDS:
                    err, nm = nrm(delta, o), nrm(mu, o)
                    if err < 1e-6 or nm < 1e-6:
                        continue
                    for f, exp in ((1 + 1e-6, True), (1 - 1e-6, False), (3.0, True), (0.3, False)):
                        for rt, at in ((0.0, err * sc * f), (err / nm * f, 0.0), (err / nm * f, err * sc * 0.5), (err / nm * 0.5, err * sc * f)):
                            x = exp if f > 0.9 or 0 in (rt, at) else False
                            got = ToleranceCriterion(rtol=rt, atol=at, ord=o)(e)
                            ctx.op()
                            ctx.check(bool(got) == x, lambda: f"{case} after {t} rows: rtol={rt} atol={at} ord={o} answers {got}; change {err * sc}, norm {nm * sc}")
                for c in (t - 1, t, t + 1, 2 ** 40):
                    ctx.check(bool(CountCriterion(c)(e)) == (t >= c), lambda: f"count={c} with {t} samples")
            ctx.trace()
        ctx.state("scale", d, case["ps"], k)
        return
    d = case["d"]
    e = MeanEstimator(dim=d, covariance=case["cov"])
    rows = []
    mu = np.zeros(d)
    for i in case["h"]:
        e.update(np.array([SAMP[d][i]]))
        rows.append(SAMP[d][i])
        ctx.op()
        new = np.mean(np.array(rows), axis=0)
        delta, mu = new - mu, new
    n = len(rows)
    for c in (n - 1, n, n + 1, 0, 10 ** 6):
        ctx.check(bool(CountCriterion(c)(e)) == (n >= c), lambda: f"count={c} with {n} samples answers {CountCriterion(c)(e)}")
    if n == 0:
        for o in ORDS[:3]:
            ctx.check(not ToleranceCriterion(rtol=0.5, atol=1e9, ord=o)(e), "tolerance rule holds before any update")
        return
    for o in ORDS:
        err, nm = nrm(delta, o), nrm(mu, o)
        for at, rt, exp in ((err * (1 + 1e-6) + 1e-300, 0.0, True if err > 0 else None), (err * (1 - 1e-6), 0.0, False), (0.0, 0.0, False),
                            (err * 2 + 1e-12, 0.0, True), (1e-12, 0.0, True if err < 1e-13 else (False if err > 1e-11 else None))):
            if exp is not None:
                got = ToleranceCriterion(rtol=rt, atol=at, ord=o)(e)
                ctx.op()
                ctx.check(bool(got) == exp, lambda: f"atol={at} rtol={rt} ord={o}: answers {got} with change {err}, estimate {mu}")
        if nm > 1e-9:
            r = err / nm
            for rt, exp in ((r * (1 + 1e-6), True if err > 1e-12 else None), (r * (1 - 1e-6), False if err > 1e-12 else None), (r * 3 + 1e-9, True)):
                if exp is not None:
                    got = ToleranceCriterion(rtol=rt, atol=0.0, ord=o)(e)
                    ctx.op()
                    ctx.check(bool(got) == exp, lambda: f"rtol={rt} ord={o}: answers {got} with change {err}, norm {nm}")
        elif err > 1e-9:
            ctx.check(not ToleranceCriterion(rtol=1.0, atol=0.0, ord=o)(e), "relative rule holds with a zero estimate")
    ctx.check(bool(ToleranceCriterion()(e)) == (nrm(delta, 2) < 1.49e-8 or nrm(delta, 2) < 0.01 * nrm(mu, 2)), "default tolerance rule") if abs(nrm(delta, 2) - 0.01 * nrm(mu, 2)) > 1e-9 else None
    ctx.trace()
    ctx.state(d, case["cov"], case["h"])
