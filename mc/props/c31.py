"""C31: convergence messages and result records report the actual state."""
import copy
import itertools
import math
import re
import numpy as np

RULE = ("all value words up to the depth (scalars; vectors of dimension 1..7) x grouping into batches x estimator kind (mean, covariance, recording, control "
        "variates) x every rule and parameter menu (count, tolerance with all norm orders, confidence, knee, every composite): after every update, and before "
        "the first, the message parses to the estimate, count, half-width, norms and parameters of an independent recomputation, asking for it changes "
        "nothing; all fully reported hutch runs over scripted sample words: message, count, estimate and estimator of the record agree; all pairs of records are independent")
ASSUMPTIONS = ["numbers are compared at the printed precision (3 decimals, 2 for vectors, 6 for parameters)",
               "confidence rules are only used with scalar covariance-tracking estimators, which is what they are defined for"]
EXTS = ("tqli", "fttr", "_lanczos")
VAL = [0.0, 1.0, -2.5, 1234.5678, -1e-4, 7e8]
NUM = r"(nan|-?inf|-?[0-9.]+(?:e[+-]?\d+)?)"


def cases(tier):
    L = 6 if tier == "thorough" else 5
    for kind in ("mean", "cov", "rec"):
        for a, b in itertools.product(range(len(VAL)), repeat=2):
            yield dict(t="s", kind=kind, pre=(a, b), L=L)
        for d in range(1, 8):
            for k in range(6):
                yield dict(t="v", kind=kind, d=d, k=k, L=L)
    for a in range(len(VAL)):
        yield dict(t="cv", a=a, L=L - 2)
    for w in itertools.product(range(3), repeat=3):
        yield dict(t="hutch", w=w)
    yield dict(t="record")


def close(txt, val, dec):
    """The printed number is the value to `dec` decimals."""
    p, val = float(txt), float(val)
    if math.isnan(val) or math.isinf(val):
        return (math.isnan(p) and math.isnan(val)) or p == val
    return abs(p - val) <= 0.5 * 10.0 ** -dec * 1.01 + 1e-9 * abs(val)


def est_ok(txt, est):
    """txt prints the estimate: one number, up to three, or the first two and the last."""
    x = np.atleast_1d(np.asarray(est, dtype=float)).ravel()
    txt = txt.strip()
    if len(x) == 1:
        return re.fullmatch(NUM, txt) is not None and close(txt, x[0], 3)
    if not (txt.startswith("[") and txt.endswith("]")):
        return False
    parts = [s.strip() for s in txt[1:-1].split(",")]
    if len(x) <= 3:
        return len(parts) == len(x) and all(close(p, v, 2) for p, v in zip(parts, x))
    return len(parts) == 4 and parts[2] == "..." and all(close(p, v, 2) for p, v in zip((parts[0], parts[1], parts[3]), (x[0], x[1], x[-1])))


def norm(x, o):
    x = np.abs(np.ravel(np.asarray(x, dtype=float)))
    if o == 1:
        return x.sum()
    if o is None or o == 2:
        return np.sqrt((x * x).sum())
    return x.max() if o > 0 else x.min()


T95 = {}


def tq(conf, df):
    from scipy import stats
    if (conf, df) not in T95:
        T95[conf, df] = float(stats.t.ppf((1 + conf) / 2, df)) if df else float(stats.norm.ppf((1 + conf) / 2))
    return T95[conf, df]


def rules(scalar_cov):
    from primate.estimators import ConfidenceCriterion, CountCriterion, KneeCriterion, ToleranceCriterion
    out = [("count", dict(count=c), CountCriterion(count=c)) for c in (0, 3, 10 ** 6)]
    out += [("tol", dict(rtol=r, atol=a, ord=o), ToleranceCriterion(rtol=r, atol=a, ord=o)) for r, a, o in ((0.01, 1.49e-8, 2.0), (0.25, 0.5, 1), (0.0, 1e-3, np.inf), (12.5, 0.0, None), (0.5, 2.0, -np.inf))]
    out += [("knee", dict(S=s), KneeCriterion(S=s)) for s in (1.0, 0.125)]
    if scalar_cov:
        out += [("conf", dict(confidence=c), ConfidenceCriterion(confidence=c, rtol=r, atol=a)) for c, r, a in ((0.95, 0.01, 0.0), (0.8, 0.5, 60.0), (0.99, 0.0, 1e9))]
    base = [r[2] for r in out]
    out += [("comp", {}, base[0] | base[3]), ("comp", {}, base[1] & base[4]), ("comp", {}, ~base[5])]
    return out


def snap(e):
    return (copy.deepcopy(np.asarray(e.estimate)), copy.deepcopy(np.asarray(e.delta)), len(e), None if e.values is None else [np.array(v, copy=True) for v in e.values])


def same(s, t):
    return (np.array_equal(s[0], t[0], equal_nan=True) and np.array_equal(s[1], t[1], equal_nan=True) and s[2] == t[2]
            and (s[3] is None) == (t[3] is None) and (s[3] is None or (len(s[3]) == len(t[3]) and all(np.array_equal(a, b) for a, b in zip(s[3], t[3])))))


def params(c):
    return {k: copy.deepcopy(v) for k, v in vars(c).items() if not callable(v)}


def look(ctx, e, rows, mu, delta, RU, what):
    """Every message at the current position of the history. rows: samples (n, d); mu: reference mean; delta: reference last change."""
    n = len(rows)
    for name, kw, c in RU:
        s0, p0 = snap(e), params(c)
        with np.errstate(all="ignore"):
            a0 = bool(c(e))
            msg = c.message(e)
            again = c.message(e)
            a1 = bool(c(e))
        ctx.op()
        ctx.check(isinstance(msg, str) and msg == again, lambda: f"{what}: {name} {kw} message changes from {msg!r} to {again!r}")
        p1 = params(c)
        ctx.check(same(s0, snap(e)) and a0 == a1 and p0.keys() == p1.keys() and all(np.array_equal(p0[k], p1[k]) if isinstance(p0[k], np.ndarray) else p0[k] == p1[k] for k in p0),
                  lambda: f"{what}: asking {name} {kw} for its message changed the estimator or the rule")
        if name == "comp":
            ctx.check(len(msg) > 0, "empty message of a composite rule")
            continue
        m = re.match(r"Est: (.*?)\s*(?:\+/- |\(atol|\(#S)", msg, re.S)
        ctx.check(m and est_ok(m.group(1), mu if n else np.nan), lambda: f"{what}: {name} reports {msg!r}, the estimate is {mu}")
        m = re.search(r"#S:(\d+)", msg)
        ctx.check(m and int(m.group(1)) == n, lambda: f"{what}: {name} reports {msg!r} after {n} samples")
        if name == "knee":
            m = re.search(r"S=" + NUM, msg)
            ctx.check(m and close(m.group(1), kw["S"], 6), lambda: f"{msg!r} for S={kw['S']}")
        if name == "tol":
            m = re.search(r"atol=" + NUM + r", rtol=" + NUM, msg)
            ctx.check(m and close(m.group(1), kw["atol"], 6) and close(m.group(2), kw["rtol"], 6), lambda: f"{msg!r} for {kw}")
            m = re.search(r"norm\(it - est, (.*?)\) = " + NUM + r", norm\(est, (.*?)\) = " + NUM, msg)
            ctx.check(m and m.group(1) == m.group(3) == str(kw["ord"]), lambda: f"{msg!r} for {kw}")
            ctx.check(n == 0 or (close(m.group(2), norm(delta, kw["ord"]), 3) and close(m.group(4), norm(mu, kw["ord"]), 3)),
                      lambda: f"{what}: {msg!r}; last change {norm(delta, kw['ord'])}, norm {norm(mu, kw['ord'])} ({kw})")
        if name == "conf":
            m = re.search(r"\+/- " + NUM + r" \((\d+)% CI", msg)
            ctx.check(m and close(m.group(2), 100 * kw["confidence"], 0), lambda: f"{msg!r} for {kw}")
            if n < 3:
                h = math.inf
            else:
                x = np.ravel(rows)
                h = tq(kw["confidence"], n - 1 if n < 30 else 0) * math.sqrt(max(math.fsum((v - mu) ** 2 for v in x), 0.0) / (n - 1) / n)
            ctx.check(close(m.group(1), h, 3), lambda: f"{what}: {msg!r}, the half-width is {h}")
    return


def feed(ctx, e, d, blocks, RU, what):
    rows, mu, delta = np.zeros((0, d)), np.full(d, np.nan), None
    look(ctx, e, rows, np.nan, np.inf, RU, what + " (empty)")
    for B in blocks:
        B = np.asarray(B, dtype=float).reshape(-1, d)
        e.update(B)
        ctx.op()
        rows = np.r_[rows, B]
        new = np.array([math.fsum(c) / len(rows) for c in rows.T])
        delta = new - (mu if len(rows) > len(B) else 0.0)
        mu = new
        look(ctx, e, rows, mu[0] if d == 1 else mu, delta, RU, what)
        ctx.state(what, len(rows))
    ctx.trace()


def run(ctx, case):
    from primate.estimators import ControlVariableEstimator, CountCriterion, EstimatorResult, MeanEstimator
    if case["t"] == "record":
        R = [EstimatorResult() for _ in range(3)]
        R[0].info["a"] = 1
        R[0].message, R[0].nit, R[0].estimate = "x", 4, 2.0
        ctx.check(R[1].info == {} and R[2].info == {} and EstimatorResult().info == {} and (R[1].message, R[1].nit, R[1].estimate) == ("", 0, 0.0), "result records share state")
        for vals in itertools.product((None, MeanEstimator()), (None, "count", CountCriterion(3)), (0.0, 2.5, np.ones(3)), ("", "m"), (0, 7), ({}, {"k": 1})):
            r = EstimatorResult(*vals)
            got = tuple(r)
            named = (r.estimator, r.criterion, r.estimate, r.message, r.nit, r.info)
            ctx.op()
            ctx.check(len(got) == 6 and all(a is b for a, b in zip(got, vals)) and all(a is b for a, b in zip(named, vals)), lambda: f"record of {vals} unpacks as {got}")
            k = EstimatorResult(**dict(zip(("estimator", "criterion", "estimate", "message", "nit", "info"), vals)))
            ctx.check(all(a is b for a, b in zip(tuple(k), vals)), lambda: f"record of {vals} unpacks as {tuple(k)}")
        ctx.state("record")
        ctx.trace()
        return
    if case["t"] == "hutch":
        return hutch_runs(ctx, case)
    mk = {"mean": dict(covariance=False), "cov": dict(covariance=True), "rec": dict(covariance=True, record=True)}
    if case["t"] == "s":
        cov = case["kind"] != "mean"
        RU = rules(cov)
        L = case["L"] if case["kind"] == "rec" else case["L"] - 1
        for r in range(0, L - 1):
            for tail in itertools.product(range(len(VAL)), repeat=r):
                w = [VAL[i] for i in case["pre"] + tail]
                if r < L - 2:
                    continue  # prefixes are looked at while feeding the longest words
                feed(ctx, MeanEstimator(**mk[case["kind"]]), 1, [[v] for v in w], RU if tail[0] == 0 or len(tail) < 3 else RU[:1] + RU[3:4] + RU[8:12], f"{case['kind']} {w}")
        w = [VAL[i] for i in case["pre"]]
        for cut in ([2], [1, 1, 3], [3, 40], [29, 1, 1], [60], [28, 1, 1, 1, 70]):
            blocks, t = [], 0
            for c in cut:
                blocks.append([w[(t + j) % 2] + 0.25 * ((t + j) % 5) for j in range(c)])
                t += c
            feed(ctx, MeanEstimator(**mk[case["kind"]]), 1, blocks, RU, f"{case['kind']} {w} in batches {cut}")
        return
    if case["t"] == "v":
        d, k = case["d"], case["k"]
        RU = rules(False)
        for sc in (1.0, 2.0 ** -9, 2.0 ** 17):
            for cut in ([1, 1, 1], [2, 1, 4], [5], [1, 33, 1]):
                blocks, t = [], 0
                for c in cut:
                    i, j = np.arange(t, t + c)[:, None], np.arange(d)[None, :]
                    blocks.append(sc * (((i * (k + 2) + j * 3 + i * j) % 7) - 2.5 + 0.37 * j))
                    t += c
                feed(ctx, MeanEstimator(dim=d, **mk[case["kind"]]), d, blocks, RU, f"{case['kind']} d={d} k={k} scale {sc} batches {cut}")
        return
    if case["t"] == "cv":
        RU = [r for r in rules(False)]
        for tail in itertools.product(range(len(VAL)), repeat=case["L"] - 1):
            w = [VAL[i] for i in (case["a"],) + tail]
            for alpha in (0.5, -1.0):
                e = ControlVariableEstimator(0.25, alpha=alpha)
                look(ctx, e, [], np.nan, np.inf, RU, "control variate (empty)")
                old = np.nan
                for t in range(len(w)):
                    y = [((i * 3) % 4) * 0.5 for i in range(t + 1)]
                    e.update(np.array([[w[t], y[t]]]))
                    ctx.op()
                    m = math.fsum(w[: t + 1]) / (t + 1) - alpha * (math.fsum(y) / (t + 1) - 0.25)
                    look(ctx, e, w[: t + 1], m, m - old, RU, f"control variate {w[:t + 1]}")
                    old = m
                ctx.trace()
                ctx.state(tuple(w), alpha)


def hutch_runs(ctx, case):
    """Fully reported runs over scripted sample words."""
    from primate.estimators import EstimatorResult
    from primate.trace import hutch
    alpha = np.array([[1.0, 1.0], [1.0, -1.0], [2.0, 0.5]])
    word = [alpha[i] for i in case["w"]]
    A = np.array([[2.0, 0.5], [0.5, -1.0]])
    for batch in (1, 2, 5):
        for name, kw, c in rules(True):
            cap = __import__("primate.estimators", fromlist=["x"]).CountCriterion(23)
            stop = c if name == "count" and kw["count"] < 99 else None
            pos = [0]

            def pdf(size):
                cols = [word[(pos[0] + j) % 3] for j in range(size[1])]
                pos[0] += size[1]
                return np.array(cols).T

            if stop is None:
                class Both(type(c)):
                    """The rule itself, with an answer that also ends at the cap."""
                rule = copy.copy(c)
                rule.__class__ = Both
                Both.__call__ = lambda self, e, c=c, cap=cap: bool(c(e)) or bool(cap(e))
            else:
                rule = stop
            seen = []
            with np.errstate(all="ignore"):
                est, res = hutch(A, pdf=pdf, converge=rule, batch=batch, full=True, record=True, callback=lambda r: seen.append((r.nit, r.estimate)))
            ctx.op()
            n = pos[0]
            q = [float(v @ A @ v) for v in ([word[j % 3] for j in range(n)])]
            mean = math.fsum(q) / n if n else math.nan
            ctx.check(isinstance(res, EstimatorResult) and res.nit == n == len(res.estimator) and res.criterion is rule, lambda: f"{case} {name} {kw}: record says {res.nit} samples, {n} were drawn")
            ctx.check((math.isnan(mean) and math.isnan(est)) or abs(est - mean) <= 1e-10 * max(1, abs(mean)), lambda: f"{case} {name}: estimate {est} instead of {mean}")
            ctx.check(np.array_equal(res.estimate, est, equal_nan=True), lambda: f"record estimate {res.estimate}, returned {est}")
            with np.errstate(all="ignore"):
                ctx.check(isinstance(res.message, str) and res.message == rule.message(res.estimator), lambda: f"{case} {name} {kw}: record message {res.message!r}, the rule says {rule.message(res.estimator)!r}")
            if name != "comp":
                m = re.match(r"Est: (.*?)\s*(?:\+/- |\(atol|\(#S)", res.message, re.S)
                ctx.check(m and est_ok(m.group(1), mean) and f"#S:{n}" in res.message, lambda: f"{case} {name}: record message {res.message!r}, estimate {mean} of {n} samples")
            a, b, c2, d, e, f = res
            ctx.check(a is res.estimator and b is rule and np.array_equal(c2, est, equal_nan=True) and d == res.message and e == n and f == res.info, "the record unpacks in another order")
            ctx.state(case["w"], batch, name, str(kw))
            ctx.trace()
