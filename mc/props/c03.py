"""C03: control-variate estimator equals the textbook formula for every split of the stream."""
import itertools
import numpy as np
from mc.core import close, raises
from mc.lib import compositions

RULE = ("up to 8 controls, 120 rows and scales 2^-40..2^40; all words of (sample, control...) rows up to length L x all compositions into updates x 1..2 controls x given or "
        "estimated coefficients; after every update compare estimate, alpha and length with the formula on all rows so far")
ASSUMPTIONS = ["while the controls seen so far are degenerate (singular sample covariance) any minimiser is accepted as alpha",
               "before two rows with estimated coefficients only 'no failure, right length' and NaN-or-formula is required"]
EXTS = ()
ROWS = {1: [(1.0, 0.0), (2.0, 1.0), (-1.0, 3.0), (0.5, -2.0)],
        2: [(1.0, 0.0, 1.0), (2.0, 1.0, 0.0), (-1.0, 3.0, 1.0), (0.5, -2.0, 2.0)]}
ECV = {1: [0.5, -1.0], 2: [[0.5, 1.0], [2.0, -1.0]]}
ALPHA = {1: [None, 0.75, 0.0, [-2.0], 0, [0.0]], 2: [None, [0.75, -0.5], [0.0, 0.0], (0.0, 2.0), (-1, 0)]}


def cases(tier):
    L = 6 if tier == "thorough" else 5
    for k in (1, 2):
        for n in range(1, L + 1):
            for w in itertools.product(range(len(ROWS[k])), repeat=n):
                yield dict(k=k, w=w)
    yield dict(k=0, w=())
    for k in (1, 2, 3, 5, 8):
        for sy in (-40, -20, 0, 20, 40):
            for sx in (-40, -20, 0, 20, 40):
                yield dict(k=k, big=(sy, sx))
    for k, rows in ((2, 3000), (12, 700), (20, 260)):
        yield dict(k=k, big=(0, 0), rows=rows)


def check_state(ctx, e, X, ecv, alpha, what):
    n = len(X)
    ctx.check(len(e) == n, lambda: f"{what}: length {len(e)} expected {n}")
    est = e.estimate
    if alpha is not None:
        a = np.ravel(alpha)
        exp = X[:, 0].mean() - a @ (X[:, 1:].mean(axis=0) - np.ravel(ecv))
        ctx.check(close(est, exp), lambda: f"{what}: estimate {est!r} expected {exp!r}")
        ctx.check(close(np.ravel(e.alpha), a), lambda: f"{what}: given coefficients changed to {e.alpha!r}")
        return
    if n < 2:
        ctx.check(np.isnan(est) or close(est, X[0, 0]), lambda: f"{what}: estimate {est!r} from one row without coefficients")
        return
    C = np.cov(X.T, ddof=1)
    a = np.ravel(e.alpha)
    ctx.check(a.shape == (X.shape[1] - 1,) and np.all(np.isfinite(a)), lambda: f"{what}: alpha {e.alpha!r}")
    ctx.check(close(C[1:, 1:] @ a, C[1:, 0], 1e-7, 1e-7), lambda: f"{what}: alpha {a!r} does not solve the regression equations {C!r}")
    exp = X[:, 0].mean() - a @ (X[:, 1:].mean(axis=0) - np.ravel(ecv))
    ctx.check(close(est, exp, 1e-8, 1e-8), lambda: f"{what}: estimate {est!r} expected {exp!r}")
    if np.linalg.cond(C[1:, 1:]) < 1e6:
        ref = X[:, 0].mean() - np.linalg.solve(C[1:, 1:], C[1:, 0]) @ (X[:, 1:].mean(axis=0) - np.ravel(ecv))
        ctx.check(close(est, ref, 1e-7, 1e-7), lambda: f"{what}: estimate {est!r} expected {ref!r}")


def big(ctx, case):
    """More controls, longer streams, samples and controls of different scales: alpha and the estimate are homogeneous."""
    from primate.estimators import ControlVariableEstimator
    k, (py, px) = case["k"], case["big"]
    sy, sx = 2.0 ** py, 2.0 ** px
    n = case.get("rows", 120)
    i = np.arange(n)
    U = np.array([((i * (2 * j + 3) + j * j + (i * i) // (j + 2)) % (7 + 2 * j)) - 3.0 for j in range(k)]).T
    y = U @ (1.0 / (1 + np.arange(k))) + ((i * 5) % 7) * 0.25 - 2.0
    X = np.c_[sy * y, sx * U]
    ecv = sx * (0.25 + np.arange(k) % 3)
    for given in (None, np.zeros(k), (sy / sx) * (1.0 + np.arange(k)), (sy / sx) * np.eye(k)[-1]):
        for pat in ((1,), (3, 7), (64,), (65, 1), (120,), (n,)):
            e, t = ControlVariableEstimator(ecv=ecv.copy(), alpha=None if given is None else given.copy(), record=True), 0
            it = itertools.cycle(pat)
            while t < n:
                b = min(next(it), n - t)
                e.update(X[t:t + b])
                t += b
                ctx.op()
                if t not in (1, 2, b, 66, 100, 250, 260, 520, 1030, 2047, n) or (given is None and t < 3 * k + 3):
                    continue
                Z = np.c_[y, U][:t]
                a = given * sx / sy if given is not None else np.linalg.lstsq(Z[:, 1:] - Z[:, 1:].mean(axis=0), Z[:, 0] - Z[:, 0].mean(), rcond=None)[0]
                exp = Z[:, 0].mean() - a @ (Z[:, 1:].mean(axis=0) - ecv / sx)
                ctx.check(len(e) == t and close(np.ravel(e.alpha) * sx / sy, a, 1e-7, 1e-7), lambda: f"{case} batches {pat}, given {given}: after {t} rows alpha {np.ravel(e.alpha) * sx / sy} (rescaled), expected {a}")
                ctx.check(close(e.estimate / sy, exp, 1e-8, 1e-8), lambda: f"{case} batches {pat}, given {given}: after {t} rows estimate {e.estimate / sy} (rescaled), expected {exp}")
            ctx.check(np.array_equal(np.array(e.values).reshape(n, -1), X), "recorded rows differ")
            ctx.trace()
    ctx.state(case["k"], case["big"])


def run(ctx, case):
    from primate.estimators import ControlVariableEstimator
    k = case["k"]
    if "big" in case:
        return big(ctx, case)
    if k == 0:
        ctx.op()
        for kk in (1, 2):
            e = ControlVariableEstimator(ecv=ECV[kk][0])
            ctx.check(len(e) == 0 and np.all(np.isnan(e.estimate)), lambda: f"fresh estimator reports {e.estimate!r}")
            e = ControlVariableEstimator(ecv=ECV[kk][0], alpha=ALPHA[kk][1])
            ctx.check(len(e) == 0 and np.all(np.isnan(e.estimate)), lambda: f"fresh estimator with alpha reports {e.estimate!r}")
            ctx.check(raises(ControlVariableEstimator, ecv=ECV[kk][0], alpha=[1.0] * (kk + 1)), "coefficient vector of wrong length accepted")
        return
    X = np.array([ROWS[k][i] for i in case["w"]])
    long = len(X) >= 5
    for comp in compositions(len(X)):
        for ecv in ECV[k][(len(comp) + sum(case['w'])) % 2:][:1] if long else ECV[k]:
            for alpha in ALPHA[k][: 3 if long else None]:
                e = ControlVariableEstimator(ecv=ecv, alpha=alpha, record=True)
                i = 0
                prev = np.nan
                for b in comp:
                    Y = X[i:i + b].copy()
                    e.update(Y)
                    ctx.op()
                    ctx.check(np.array_equal(Y, X[i:i + b]), "update changed the caller's rows")
                    Y[:] = 77.0
                    i += b
                    check_state(ctx, e, X[:i], ecv, alpha, f"cut {comp} after {i} rows, ecv={ecv}, alpha={alpha}")
                    if not np.isnan(prev):
                        ctx.check(close(np.ravel(e.delta), np.ravel(e.estimate - prev)), lambda: f"delta {e.delta!r} is not the change of the estimate")
                    prev = e.estimate
                got = np.array(e.values).reshape(len(X), -1)
                ctx.check(np.array_equal(got, X), lambda: f"recorded rows {got!r} expected {X!r}")
                ctx.trace()
    ctx.state(k, case["w"])
