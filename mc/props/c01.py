"""C01: streaming mean/covariance == batch moments for every cutting of the stream."""
import itertools
import numpy as np
from mc.core import close
from mc.lib import compositions, words

RULE = ("for every data word up to length L over the row alphabet, every composition into update batches, every input form "
        "and every interposed empty batch: after every update compare mean and covariance (ddof 0,1,2) with the batch "
        "definition on all rows seen so far; also offset data, spreads of 2^-36 around a common value, long periodic streams under several batch patterns, and up to 70 dimensions, batches to 1000 and scales 2^-60..2^60")
ASSUMPTIONS = ["floating point agreement up to 1e-9 relative to the data scale (1e-6 with offset 1e6)"]
EXTS = ()
SCALES = (1.0, 2.0 ** -60, 2.0 ** -30, 2.0 ** 30, 2.0 ** 60)
PATS = ((1,), (2, 1), (31, 1, 32), (63,), (64,), (65, 2), (100,), (128, 127), (129,), (256, 1), (1000,))
ALPH = {1: [(-1.0,), (0.0,), (2.5,)], 2: [(0.0, 1.0), (-2.0, 0.5), (3.0, 3.0)], 3: [(1.0, 0.0, -1.0), (0.0, 2.0, 1.0), (-1.0, 1.0, 4.0)]}
FORMS = {1: ["2d", "1d", "list", "scalar", "int"], 2: ["2d", "list", "F"], 3: ["2d", "list", "F"]}


def cases(tier):
    th = tier == "thorough"
    for d in (1, 2, 3):
        L = ({1: 7, 2: 6, 3: 6} if th else {1: 5, 2: 5, 3: 4})[d]
        for n in range(1, L + 1):
            for w in words(range(3), n):
                yield dict(kind="word", d=d, w=w)
    for d in (1, 2, 3):
        for p in range(1, 4):
            for w in words(range(3), p):
                for off in (0.0, 1e6):
                    yield dict(kind="long", d=d, w=w, off=off, n=4000 if th else 600)
    for d in (1, 2, 3):
        yield dict(kind="none", d=d)
    for d in (1, 2, 3, 5):
        yield dict(kind="reject", d=d)
    for d in (1, 2, 5, 17, 40, 70):
        for sc in SCALES:
            for k in range(3):
                yield dict(kind="wide", d=d, sc=sc, k=k)


def ref(X, ddof, dim):
    n = len(X)
    mu = X.mean(axis=0)
    Y = X - mu
    return mu, (Y.T @ Y) / (n - ddof) if n > ddof else None


def query(ctx, m, c, X, d, scale, what):
    n = len(X)
    from primate.stats import Covariance
    if n == 0:
        for a in (m(), m.mean(), c.mean()):
            ctx.check(np.all(np.isnan(a)), lambda: f"{what}: mean without data is {a!r}, not NaN")
        for ddof in (0, 1, 2):
            ctx.check(np.all(np.isposinf(c(ddof=ddof))), lambda: f"{what}: covariance without data is {c(ddof=ddof)!r}, not infinite")
        return
    for ddof in (0, 1, 2):
        mu, C = ref(X, ddof, d)
        got = c(ddof=ddof)
        if C is None:
            ctx.check(np.all(np.isposinf(got)), lambda: f"{what}: covariance(ddof={ddof}) of {n} rows is {got!r}, not infinite")
        else:
            ctx.check(close(got, C, 1e-9, 1e-9 * scale), lambda: f"{what}: covariance(ddof={ddof}) {got!r} expected {C!r}")
            ctx.check(np.ndim(got) == 0 if d == 1 else np.shape(got) == (d, d), lambda: f"{what}: covariance shape {np.shape(got)}")
            ctx.check(close(c.covariance(ddof=ddof), C, 1e-9, 1e-9 * scale), lambda: f"{what}: .covariance(ddof={ddof})")
    if n > 1:
        ctx.check(close(c(), ref(X, 1, d)[1], 1e-9, 1e-9 * scale), lambda: f"{what}: default covariance is not the sample covariance")
    for a in (m(), m.mean(), c.mean()):
        ctx.check(close(a, mu, 1e-10, 1e-10 * scale), lambda: f"{what}: mean {a!r} expected {mu!r}")


def feed(rows, form, d):
    if form == "2d":
        return np.array(rows)
    if form == "F":
        return np.asfortranarray(np.array(rows))
    if form == "list":
        return [r[0] for r in rows] if d == 1 else [list(r) for r in rows]
    if form == "1d":
        return np.array([r[0] for r in rows])
    if form == "scalar":
        return rows[0][0] if len(rows) == 1 else np.array([r[0] for r in rows])
    if form == "int":
        return np.array([int(r[0]) for r in rows])


def reject(ctx, d):
    """Rows of another width are refused and leave no trace; results are numbers (one dimension) or arrays of their own."""
    from primate.stats import Covariance, Mean
    for make in (lambda: Mean(dim=d), lambda: Covariance(dim=d)) + ((Mean, Covariance) if d == 1 else ()):
        for n in (0, 1, 2, 5):
            for w in range(0, 7):
                for k in (0, 1, 2, 3):
                    if w == d or k * w == 0 and k + w > 3:
                        continue
                    forms = [np.ones((k, w))] + ([np.ones((k, w)).tolist()] if k * w else []) + ([np.ones(k)] if w == 1 else [])
                    for B in forms:
                        if np.atleast_1d(B).ndim == 1 and d == 1:
                            continue
                        o, X = make(), np.add.outer(np.arange(n) ** 2, np.arange(d) * 1.5)
                        o.update(X)
                        ok = True
                        try:
                            o.update(B)
                            ok = False
                        except Exception:
                            pass
                        ctx.op(2)
                        ctx.check(ok, lambda: f"{type(o).__name__} of dimension {d} accepts {B!r}")
                        X = np.vstack([X, X[:1] + 1, X[:1] * 0 - 2]) if n else X
                        if n:
                            o.update(X[n:])
                            mu, C = ref(X, 1, d)
                            ctx.check(close(np.ravel(o.mean()), mu, 1e-10, 1e-10) and (make is not Covariance and isinstance(o, Mean) and not isinstance(o, Covariance) or close(np.reshape(o(), (d, d)), C, 1e-9, 1e-9)),
                                      lambda: f"{type(o).__name__} of dimension {d} after rejecting {B!r}: mean {o.mean()}, {o()}, expected {mu}, {C}")
                        ctx.state("reject", d, n, w, k, type(o).__name__)
        # one dimension gives numbers; what was handed out stays as it was
        o = make()
        kept = []
        for x in (1.0, 4.0, -2.0, 8.5):
            o.update(np.full((1, d), x))
            for g in (o.mean, o):
                r = g()
                ctx.check((np.ndim(r) == 0) == (d == 1) or not np.all(np.isfinite(r)), lambda: f"{type(o).__name__} of dimension {d} reports {r!r}")
                kept.append((r, np.array(r)))
            ctx.op()
        ctx.check(all(np.array_equal(a, b) for a, b in kept), lambda: f"results handed out earlier changed: {kept}")
        for a, _ in kept:
            if isinstance(a, np.ndarray):
                a.fill(77.0)
        ctx.check(close(np.ravel(o.mean()), np.full(d, 11.5 / 4), 1e-12, 1e-12), "writing into a reported mean changes the statistics")
        ctx.trace()


def wide(ctx, case):
    """Many dimensions, large batches, data of any scale."""
    from primate.stats import Covariance, Mean
    d, sc, k = case["d"], case["sc"], case["k"]
    n = 600 if d > 2 else 5300
    i, j = np.arange(n)[:, None], np.arange(d)[None, :]
    X = [((i * 7 + j * 3 + i * j) % 11 - 5.0) / 4, np.where((i + j) % 7 == 0, 3.0, -0.25) * (1 + j % 3), ((i // 50) % 5) * 2.0 - j % 4 + (i % 3) * 0.125][k]
    for pat in PATS if d > 2 else ((1, 600), (257,), (511, 2), (1025, 1024), (1, 2049), (4097,), (5300,)):
        m, c, t = Mean(dim=d), Covariance(dim=d), 0
        it = itertools.cycle(pat)
        while t < n:
            b = min(next(it), n - t)
            B = sc * X[t:t + b]
            m.update(B)
            c.update(B)
            t += b
            ctx.op(2)
            if t in (1, 2, b) or t == n:
                mu, C = ref(X[:t], 1, d)
                for nm, g in (("Mean", m()), ("Covariance.mean", c.mean())):
                    ctx.check(close(np.ravel(g) / sc, mu, 1e-10, 1e-10), lambda: f"{case} batches {pat} after {t} rows: {nm} {np.ravel(g) / sc} times the scale, expected {mu}")
                for ddof in (0, 1, 5):
                    if t > ddof:
                        ctx.check(close(np.reshape(c(ddof=ddof), (d, d)) / sc ** 2, ref(X[:t], ddof, d)[1], 1e-9, 1e-9), lambda: f"{case} batches {pat} after {t} rows: covariance (ddof={ddof}) differs from the batch definition")
                    else:
                        ctx.check(np.all(np.isposinf(c(ddof=ddof))), lambda: f"{case}: covariance(ddof={ddof}) of {t} rows is {c(ddof=ddof)}")
        ctx.trace()
        ctx.state("wide", d, sc, k, pat)


def run(ctx, case):
    from primate.stats import Covariance, Mean
    d = case["d"]
    if case["kind"] == "wide":
        return wide(ctx, case)
    if case["kind"] == "reject":
        return reject(ctx, d)
    if case["kind"] == "none":
        m, c = Mean(dim=d), Covariance(dim=d)
        query(ctx, m, c, np.zeros((0, d)), d, 1.0, "no data")
        for _ in range(2):
            for o in (m, c):
                o.update(np.zeros((0, d)))
                ctx.op()
            query(ctx, m, c, np.zeros((0, d)), d, 1.0, "only empty batches")
        ctx.state("none", d)
        return
    if case["kind"] == "long":
        base = np.array([ALPH[d][i] for i in case["w"]])
        n = case["n"]
        X = np.tile(base, (n // len(base) + 1, 1))[:n] + case["off"]
        for pat in ((1,), (7,), (1, 64), (n // 2, 1), (3, 1, 17), (n,)):
            m, c = Mean(dim=d), Covariance(dim=d)
            i, it = 0, itertools.cycle(pat)
            while i < n:
                b = min(next(it), n - i)
                m.update(X[i:i + b])
                c.update(X[i:i + b])
                ctx.op(2)
                i += b
            ctx.trace()
            mu, C = ref(X - case["off"], 1, d)
            tol = 1e-9 if case["off"] == 0 else 1e-6
            ctx.check(close(m(), mu + case["off"], 1e-12, 1e-9 if case["off"] == 0 else 1e-8), lambda: f"long stream pattern {pat}: mean {m()!r} expected {mu + case['off']!r}")
            ctx.check(close(c.mean(), mu + case["off"], 1e-12, 1e-9 if case["off"] == 0 else 1e-8), lambda: f"long stream pattern {pat}: Covariance.mean {c.mean()!r}")
            ctx.check(close(c(), C, tol, tol), lambda: f"long stream pattern {pat} offset {case['off']}: covariance {c()!r} expected {C!r}")
            ctx.state("long", d, case["w"], case["off"], pat)
        return
    rows = [ALPH[d][i] for i in case["w"]]
    X = np.array(rows)
    for comp in compositions(len(rows)):
        for form in FORMS[d]:
            for empty in ((None,) if form != "2d" else (None, 0, 1)):
                data = [tuple(float(int(t)) for t in r) for r in rows] if form == "int" else rows
                XX = np.array(data)
                m, c = Mean(dim=d), Covariance(dim=d)
                i = 0
                for j, b in enumerate(comp):
                    if empty == j:
                        m.update(np.zeros((0, d)))
                        c.update(np.zeros((0, d)))
                        query(ctx, m, c, XX[:i], d, 1.0, f"{comp} {form} after an empty batch")
                    for o in (m, c):
                        buf = feed(data[i:i + b], form, d)
                        keep = np.array(buf, copy=True)
                        o.update(buf)
                        ctx.op()
                        ctx.check(np.array_equal(np.asarray(buf), keep), "update changed the caller's data")
                    i += b
                    if form in ("2d",) or i == len(rows):
                        query(ctx, m, c, XX[:i], d, 1.0, f"cut {comp[:j + 1]} of {comp}, form {form}")
                ctx.trace()
        ctx.state(d, case["w"], comp)
    if len(case["w"]) <= 4:  # common offset: the accumulated covariance must not lose the small spread
        for comp in compositions(len(rows)):
            c = Covariance(dim=d)
            i = 0
            for b in comp:
                c.update(X[i:i + b] + 1e6)
                ctx.op()
                i += b
                if i > 1:
                    C = ref(X[:i], 1, d)[1]
                    ctx.check(close(c(), C, 1e-6, 1e-6), lambda: f"offset 1e6, cut {comp}: covariance {c()!r} expected {C!r}")
            # a spread of some 1e-10 of the common value, in any unit
            for u in (1.0, 2.0 ** -60, 2.0 ** 60):
                m, c = Mean(dim=d), Covariance(dim=d)
                i = 0
                for b in comp:
                    m.update(u * (1.0 + 2.0 ** -36 * X[i:i + b]))
                    c.update(u * (1.0 + 2.0 ** -36 * X[i:i + b]))
                    ctx.op(2)
                    i += b
                    mu, C = ref(X[:i], 1, d)
                    for nm, g in (("Mean", m()), ("Covariance.mean", c.mean())):
                        ctx.check(close((np.ravel(g) / u - 1.0) * 2.0 ** 36, mu, 1e-3, 1e-3), lambda: f"spread 2^-36 around {u}, cut {comp}: {nm} is off by {(np.ravel(g) / u - 1.0) * 2.0 ** 36 - mu} spreads")
                    if i > 1:
                        ctx.check(close(np.reshape(c(), (d, d)) / u ** 2 * 2.0 ** 72, np.reshape(C, (d, d)), 1e-2, 1e-2), lambda: f"spread 2^-36 around {u}, cut {comp}: covariance {np.reshape(c(), (d, d)) / u ** 2 * 2.0 ** 72} squared spreads, expected {C}")
