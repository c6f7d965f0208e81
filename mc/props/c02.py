"""C02: MeanEstimator bookkeeping over all update histories, two live instances, buffer reuse."""
import itertools
import numpy as np
from mc.core import close
from mc.lib import near

RULE = ("all update histories up to the depth over the menu of batches (scalars, lists, 1-D, 2-D, empty, reused caller buffer), "
        "dims 1..3 (long streams up to dim 70, batch 400, scales 2^-60..2^60), covariance/record flags, interleavings of two instances; after every step compare length, estimate, delta "
        "and recorded samples with a list model, and everything reported earlier with a snapshot of it")
ASSUMPTIONS = ["after the first update delta is counted from the initial mean zero", "agreement up to 1e-9"]
EXTS = ()


def menu(d):
    if d == 1:
        return [("scalar", [[2.0]]), ("scalar", [[-1.5]]), ("list", [[1.0], [4.0]]), ("1d", [[0.5], [0.5], [-3.0]]),
                ("2d", [[7.0]]), ("2d", [[1.0], [-1.0]]), ("empty", []), ("buf", [[3.0], [2.0]]), ("pyint", [[5.0]])]
    r = [[float((i * 7 + j * 3) % 5 - 2) + 0.5 * j for j in range(d)] for i in range(5)]
    return [("2d", [r[0]]), ("2d", [r[1]]), ("2d", [r[2], r[3]]), ("list", [r[4], r[0], r[1]]), ("F", [r[3], r[1]]),
            ("empty", []), ("buf", [r[2], r[0]])]


def cases(tier):
    for d in (1, 2, 5, 40, 70):
        for sc in (1.0, 2.0 ** -60, 2.0 ** 60):
            yield dict(kind="wide", d=d, sc=sc)
    dep = 5 if tier == "thorough" else 4
    for d in (1, 2, 3):
        k = len(menu(d))
        for cov in (False, True):
            for rec in (False, True):
                for n in range(1, dep + 1):
                    if n == dep and d > 1 and tier != "thorough" and not (cov and rec):
                        continue
                    for h in itertools.product(range(k), repeat=n):
                        yield dict(kind="one", d=d, cov=cov, rec=rec, h=h)
        for cov in (False, True):
            for n in range(2, 4 if tier != "thorough" else 5):
                for h in itertools.product(range(min(k, 5)), repeat=n):
                    for who in itertools.product((0, 1), repeat=n):
                        if len(set(who)) == 2:
                            yield dict(kind="two", d=d, cov=cov, rec=True, h=h, who=who)


def wide(ctx, case):
    from primate.estimators import MeanEstimator
    d, sc = case["d"], case["sc"]
    n = 400 if d > 2 else 5200
    i, j = np.arange(n)[:, None], np.arange(d)[None, :]
    X = sc * (((i * 7 + j * 3 + i * j) % 11 - 5.0) / 4 + (i % 50 == 0) * 4.0)
    for cov in (False, True):
        for rec in (False, True):
            for pat in ((1,), (64,), (65, 1), (100, 3), (400,)) if d > 2 else ((1, 600), (257, 1), (513, 1025), (4097, 1), (5200,)):
                e, t, mu = MeanEstimator(dim=d, covariance=cov, record=rec), 0, np.zeros(d)
                it = itertools.cycle(pat)
                while t < n:
                    b = min(next(it), n - t)
                    e.update(X[t:t + b])
                    t += b
                    ctx.op()
                    new = X[:t].mean(axis=0)
                    ctx.check(len(e) == t and near(np.ravel(e.estimate), new, 1e-10 * sc) and near(np.ravel(e.mean), new, 1e-10 * sc), lambda: f"{case} batches {pat} after {t} rows: length {len(e)}, estimate {e.estimate}, mean {new}")
                    ctx.check(near(np.ravel(e.delta), new - mu, 1e-10 * sc), lambda: f"{case} batches {pat} after {t} rows: delta {e.delta}, change of the mean {new - mu}")
                    mu = new
                if rec:
                    ctx.check(np.array_equal(np.array(e.values).reshape(n, d), X), lambda: f"{case} batches {pat}: recorded samples differ from the rows given")
                ctx.trace()
                ctx.state("wide", d, sc, cov, rec, pat)


class Model:
    def __init__(self, d):
        self.d, self.rows, self.mu = d, [], np.zeros(d)

    def update(self, rows):
        self.rows += [list(r) for r in rows]
        new = np.mean(np.array(self.rows).reshape(-1, self.d), axis=0) if self.rows else self.mu
        self.delta, self.mu = new - self.mu, new


def compare(ctx, e, m, rec, d, what):
    n = len(m.rows)
    ctx.check(len(e) == n and e.n_samples == n, lambda: f"{what}: length {len(e)} (n_samples {e.n_samples}) expected {n}")
    if n == 0:
        ctx.check(np.all(np.isnan(e.estimate)), lambda: f"{what}: estimate without samples is {e.estimate!r}")
    else:
        ctx.check(close(e.estimate, m.mu), lambda: f"{what}: estimate {e.estimate!r} expected {m.mu!r}")
        ctx.check(close(e.mean, m.mu), lambda: f"{what}: mean {e.mean!r} expected {m.mu!r}")
        ctx.check(np.ndim(e.estimate) == 0 if d == 1 else np.shape(e.estimate) == (d,), lambda: f"{what}: estimate has shape {np.shape(e.estimate)}")
        ctx.check(close(np.ravel(e.delta), m.delta), lambda: f"{what}: delta {e.delta!r} expected {m.delta!r}")
    if rec:
        got = np.array(e.values).reshape(len(e.values), -1) if len(e.values) else np.zeros((0, d))
        ctx.check(got.shape == (n, d) and np.array_equal(got, np.array(m.rows).reshape(-1, d)), lambda: f"{what}: recorded {e.values!r} expected {m.rows!r}")
    else:
        ctx.check(not e.values, lambda: f"{what}: values recorded although recording is off: {e.values!r}")


def apply(ctx, e, m, item, d, bufs):
    form, rows = item
    if form == "scalar":
        x = rows[0][0]
    elif form == "pyint":
        x = int(rows[0][0])
    elif form == "list":
        x = [r[0] for r in rows] if d == 1 else [list(r) for r in rows]
    elif form == "1d":
        x = np.array([r[0] for r in rows])
    elif form == "empty":
        x = np.zeros((0, d))
    elif form == "F":
        x = np.asfortranarray(np.array(rows))
    elif form == "buf":  # one caller-owned buffer reused for all updates, overwritten after each
        x = bufs.setdefault("b", np.zeros((len(rows), d)))
        x[:] = rows
    else:
        x = np.array(rows)
    keep = np.array(x, copy=True)
    e.update(x)
    ctx.op()
    m.update(rows)
    ctx.check(np.array_equal(np.asarray(x), keep), lambda: f"update changed the array passed by the caller ({form})")
    if isinstance(x, np.ndarray):
        x[...] = -999.0  # the caller is free to reuse its array


def run(ctx, case):
    from primate.estimators import MeanEstimator
    if case["kind"] == "wide":
        return wide(ctx, case)
    d, rec = case["d"], case["rec"]
    k = 2 if case["kind"] == "two" else 1
    es = [MeanEstimator(dim=d, covariance=case["cov"], record=rec) for _ in range(k)]
    ms = [Model(d) for _ in range(k)]
    bufs, old = {}, []
    mn = menu(d)
    for e, m in zip(es, ms):
        compare(ctx, e, m, rec, d, "fresh estimator")
        ctx.check(np.all(np.isinf(e.delta)), lambda: f"delta before any update is {e.delta!r}")
    for step, i in enumerate(case["h"]):
        w = case["who"][step] if k == 2 else 0
        apply(ctx, es[w], ms[w], mn[i], d, bufs)
        for q, (e, m) in enumerate(zip(es, ms)):
            if q == w or m.rows:
                compare(ctx, e, m, rec, d, f"after step {step + 1} of {[mn[j] for j in case['h']]} (instance {q})")
        for (ref, snap, what) in old:
            ctx.check(np.array_equal(np.asarray(ref), snap, equal_nan=True), lambda: f"{what} reported earlier changed from {snap!r} to {ref!r}")
        e = es[w]
        old += [(x, np.array(x, copy=True), what) for x, what in ((e.estimate, "estimate"), (e.mean, "mean"), (e.delta, "delta"))]
        if case["cov"] and len(e) > 1:
            C = e._cov() if hasattr(e, "_cov") else None
            if C is not None:
                R = np.atleast_2d(np.cov(np.array(ms[w].rows).reshape(-1, d).T, ddof=1))
                ctx.check(close(np.ravel(C), np.ravel(R)), lambda: f"covariance {C!r} expected {R!r}")
    ctx.trace()
    ctx.state(case["kind"], d, case["cov"], rec, tuple(np.ravel(m.mu).round(9).tolist() for m in ms), tuple(len(m.rows) for m in ms))
