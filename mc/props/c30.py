"""C30: convergence plots (recorded drawing calls)."""
import itertools, math, sys, types
import numpy as np
from mc.lib import near

RULE = ("all value words up to length L over the alphabet (incl. NaN) x estimator (all cuttings)/list/array input x true value or none x "
        "absolute/relative x threshold: the arguments of the drawing calls received by a recording stand-in for the plotting library, "
        "against running means and errors computed from the definition; all degrees/parameters of the Jacobi plot and all spectra words of the spectral density plot")
ASSUMPTIONS = ["the plotting library (not installed) is replaced by a stand-in recording every call", "agreement 1e-7 relative"]
EXTS = ("tqli", "fttr", "_lanczos")
AL = [1.0, -2.0, 0.5, float("nan")]


class Rec:
    def __init__(self, log, name=""):
        self.__dict__["_l"], self.__dict__["_n"] = log, name

    def __getattr__(self, k):
        return Rec(self._l, self._n + "." + k)

    def __setattr__(self, k, v):
        pass

    def __call__(self, *a, **k):
        self._l.append((self._n.split(".")[-1], a, k))
        return Rec(self._l, self._n)


def install(log):
    pkg = types.ModuleType("bokeh")
    pkg.__path__ = []
    sys.modules["bokeh"] = pkg
    for m in ("plotting", "models", "palettes", "layouts", "io"):
        mod = types.ModuleType("bokeh." + m)
        mod.__getattr__ = lambda k, m=m: Rec(log, k)
        if m == "palettes":
            mod.Category10 = {k: tuple(f"#{i:06x}" for i in range(k)) for k in range(3, 11)}
        sys.modules["bokeh." + m] = mod
        setattr(pkg, m, mod)


def cases(tier):
    L = 6 if tier == "thorough" else 4
    for n in range(1, L + 1):
        for w in itertools.product(range(4), repeat=n):
            yield dict(w=w)
    for n in (5, 12, 29, 30, 31, 32, 40, 64, 65, 100, 129, 200, 600, 1100):
        yield dict(w=[(i * i + i // 3) % 3 for i in range(n)])
        yield dict(w=[(i * i + i // 3 + n) % 4 for i in range(n)])
        for k in (-40, -12, 12, 40):
            yield dict(w=[(i * i + i // 5) % 4 for i in range(n)], scale=k)
    for n in (3, 5, 29, 31, 100):  # values that agree to many digits: sample means and errors need double precision
        for rel in (1e-6, 1e-9):
            yield dict(w=[(i * i + i // 3) % 3 for i in range(n)], rel=rel)
    for w in itertools.product(range(4), repeat=3):
        for k in (-40, -12, 12, 40):
            yield dict(w=w, scale=k)


    for deg in range(3, 11):
        for a in (-0.5, 0, 0.5, 1, 2):
            yield dict(w=(), jac=(deg, a))
    for n in range(1, 5):  # infinite samples are samples
        for w in itertools.product(range(5), repeat=n):
            if 4 in w:
                yield dict(w=(), inf=w)
    for n in range(1, 6):
        for w in itertools.combinations_with_replacement(range(7), n):
            yield dict(w=(), csm=w)
    for n in (12, 60, 300):
        yield dict(w=(), csm=[(i * i + i // 3) % (2 * n) * 6.0 / (2 * n) for i in range(n)])


def jacobi(deg, a, b, x):
    """P_0 .. P_{deg-1} by the explicit sum."""
    gb = lambda z, k: math.prod((z - i) / (i + 1) for i in range(k))
    return [sum(gb(n + a, n - k) * gb(n + b, k) * ((x - 1) / 2) ** k * ((x + 1) / 2) ** (n - k) for k in range(n + 1)) for n in range(deg)]


def polynomials(ctx, case, log):
    from primate.plotting import figure_jacobi
    deg, a = case["jac"]
    for b in (-0.5, 0, 0.5, 1, 2):
        log.clear()
        figure_jacobi(deg, a, b)
        ctx.op()
        ln = [(xy(p, k), k) for f, p, k in log if f == "line"]
        ctx.check(len(ln) == deg, lambda: f"figure_jacobi({deg}, {a}, {b}) draws {len(ln)} curves")
        for d, ((x, y), k) in enumerate(ln):
            ref = jacobi(d + 1, a, b, x)[d]
            ctx.check(len(x) > 20 and x.min() <= -0.99 and x.max() >= 0.99 and near(y, ref, 1e-8 * max(1.0, np.abs(ref).max())), lambda: f"figure_jacobi({deg}, {a}, {b}): curve {d} is not the Jacobi polynomial of degree {d}")
            ctx.check(str(d) in str(k.get("legend_label", d)), lambda: f"figure_jacobi({deg}, {a}, {b}): curve {d} is labelled {k.get('legend_label')}")
    ctx.state("jacobi", deg, a)
    ctx.trace()


def spectrum(ctx, case, log):
    """The drawn step function is the share of eigenvalues up to each point."""
    from primate.plotting import figure_csm
    v = np.sort(np.array([-0.9 + 0.3 * t for t in case["csm"]]))
    log.clear()
    figure_csm(v.copy())
    ctx.op()
    st = [(a, k) for f, a, k in log if f == "varea_step"]
    ctx.check(len(st) == 1, lambda: f"figure_csm({v.tolist()}) draws {log}")
    k = st[0][1]
    x, y1, y2 = (np.ravel(np.asarray(k[t], dtype=float)) for t in ("x", "y1", "y2"))
    ctx.check(len(x) == len(y1) == len(y2) and k.get("step_mode", "before") == "before" and np.all(np.diff(x) >= 0) and not y1.any(), lambda: f"figure_csm({v.tolist()}): area {k}")
    for i in range(1, len(x)):
        if x[i] > x[i - 1]:
            t = 0.5 * (x[i] + x[i - 1])
            ctx.check(abs(y2[i] - np.mean(v <= t)) <= 1e-9, lambda: f"figure_csm({v.tolist()}): height {y2[i]} at {t}, the share of eigenvalues up to there is {np.mean(v <= t)}")
    ctx.check(x[0] <= v[0] and abs(y2[0]) < 1e-12 and x[-1] >= v[-1] and abs(y2[-1] - 1) < 1e-9, lambda: f"figure_csm({v.tolist()}): heights {y2} at {x}")
    sc = [xy(a, dict(k, y=0)) if len(a) < 2 else (np.ravel(a[0]), a[1]) for f, a, k in log if f == "scatter"]
    ctx.check(len(sc) == 1 and near(np.sort(sc[0][0]), v, 0), lambda: f"figure_csm({v.tolist()}) marks {sc}")
    ctx.state("csm", tuple(v))
    ctx.trace()


def infinite(ctx, case, log):
    from primate.plotting import figure_error, figure_sequence
    for sign in (1, -1):
        vals = [(AL + [math.inf * sign])[i] for i in case["inf"]]
        good = np.array([v for v in vals if not math.isnan(v)])
        idx = np.arange(1, len(good) + 1)
        avg = np.cumsum(good) / idx
        for X in (list(vals), np.array(vals)):
            log.clear()
            figure_sequence(X)
            ctx.op()
            sc = [xy(a, k) for f, a, k in log if f in ("scatter", "circle")]
            ln = [xy(a, k) for f, a, k in log if f == "line"]
            ctx.check(len(sc) == 1 and np.array_equal(sc[0][0], idx) and np.array_equal(sc[0][1], good), lambda: f"figure_sequence({vals}): draws the samples {sc}")
            ctx.check(any(np.array_equal(x, idx) and np.allclose(y, avg, rtol=1e-12) for x, y in ln), lambda: f"figure_sequence({vals}): draws the running means {ln}, expected {avg}")
            log.clear()
            figure_error(X, mu=1.5)
            ln = [xy(a, k) for f, a, k in log if f == "line"]
            ctx.check(any(np.array_equal(x, idx) and np.allclose(y, np.abs(avg - 1.5), rtol=1e-12) for x, y in ln), lambda: f"figure_error({vals}): draws {ln}, expected {np.abs(avg - 1.5)}")
    ctx.state("inf", case["inf"])
    ctx.trace()


def xy(a, k):
    x = a[0] if a else k.get("x")
    y = a[1] if len(a) > 1 else k.get("y")
    return np.ravel(np.asarray(x, dtype=float)), np.ravel(np.asarray(y, dtype=float))


def run(ctx, case):
    from mc.props.c06 import tq, zq
    log = []
    install(log)
    if "jac" in case:
        return polynomials(ctx, case, log)
    if "inf" in case:
        return infinite(ctx, case, log)
    if "csm" in case:
        return spectrum(ctx, case, log)
    from primate.estimators import MeanEstimator
    from primate.plotting import figure_error, figure_sequence
    s = 2.0 ** case.get("scale", 0)
    rel = case.get("rel")
    off, amp = (1.0, rel) if rel else (0.0, s)
    tm, te = (1e-3 * rel, 1e-3 * rel) if rel else (1e-9 * s, None)
    vals = [off + AL[i] * amp for i in case["w"]]
    good = [v for v in vals if not math.isnan(v)]
    n = len(good)
    if n == 0:
        return
    idx = np.arange(1, n + 1)
    avg = np.cumsum(good) / idx
    inputs = [("list", list(vals)), ("array", np.array(vals)), ("column", np.array(vals)[:, None])]
    for nm, cov, cut in (("estimator", False, 1), ("estimator with covariance", True, 2)):
        e = MeanEstimator(covariance=cov, record=True)
        for i in range(0, len(vals), cut):
            e.update(np.array(vals[i:i + cut]))
        inputs.append((nm, e))
    for nm, X in inputs:
        for mu in (None, off + 0.75 * amp, 0.0):
            log.clear()
            figure_sequence(X, mu=mu) if mu is not None else figure_sequence(X)
            ctx.op()
            what = lambda: f"figure_sequence({nm} of {vals}, mu={mu})"
            sc = [xy(a, k) for f, a, k in log if f in ("scatter", "circle")]
            ln = [xy(a, k) for f, a, k in log if f == "line"]
            ctx.check(len(sc) == 1 and near(sc[0][0], idx, 0) and near(sc[0][1], np.array(good), 0), lambda: what() + f": draws the samples {sc}, expected {good}")
            ctx.check(any(near(x, idx, 0) and near(y, avg, tm) for x, y in ln), lambda: what() + f": draws the running means {ln}, expected {avg.tolist()}")
            if mu is not None:
                ctx.check(any(f == "Span" and (k.get("location") == mu) for f, a, k in log), lambda: what() + ": the true value is not marked")
        for mu in (None, off + 0.75 * amp, off - 3.0 * amp, 0.0):
            for absolute in (True, False):
                for thr in (None, 0.1, 0.0):
                    if mu == 0.0 and not absolute:
                        continue
                    log.clear()
                    figure_error(X, mu=mu, absolute=absolute, threshold=thr)
                    ctx.op()
                    what = lambda: f"figure_error({nm} of {vals}, mu={mu}, absolute={absolute}, threshold={thr})"
                    if mu is not None:
                        err = np.abs(avg - mu) / (1.0 if absolute else abs(mu))
                    else:
                        err = []
                        for k in range(1, n + 1):
                            if k < 3:
                                err.append(math.inf)
                                continue
                            x = np.array(good[:k])
                            se = x.std(ddof=1) / math.sqrt(k)
                            q = tq(0.95, k - 1) if k < 30 else zq(0.95)
                            if not absolute and abs(x.mean()) < 1e-12 * s:
                                err.append(None)
                            else:
                                err.append(q * se if absolute else se / abs(x.mean()))
                    ln = [xy(a, k) for f, a, k in log if f == "line"]
                    ok = False
                    for x, y in ln:
                        if len(x) == n and near(x, idx, 0) and len(y) == n:
                            ok |= all(r is None or (math.isinf(r) and math.isinf(v)) or abs(v - r) <= (te or 1e-7 * max(s if absolute else 1, abs(r))) for v, r in zip(y, err))
                    ctx.check(ok, lambda: what() + f": draws {ln}, expected error {list(err)}")
                    if thr is not None:
                        ctx.check(any(near(y, np.array([thr, thr]), 0) for x, y in ln), lambda: what() + ": the threshold is not drawn")
                    labels = True
        ctx.state(case["w"], nm, s)
    ctx.trace()
