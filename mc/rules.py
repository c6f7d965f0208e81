"""Stopping rules as data: construction on the real code and independent reference evaluation."""
import math
from fractions import Fraction
import numpy as np


def build(rule):
    """Real criterion for a rule term."""
    from primate.estimators import ConfidenceCriterion, ConvergenceCriterion, CountCriterion, KneeCriterion, ToleranceCriterion
    k = rule[0]
    if k == "count":
        return CountCriterion(rule[1])
    if k == "tol":
        return ToleranceCriterion(rtol=rule[1], atol=rule[2])
    if k == "conf":
        return ConfidenceCriterion(confidence=rule[1], atol=rule[2], rtol=rule[3])
    if k == "knee":
        return KneeCriterion(S=rule[1])
    if k == "user":
        return ConvergenceCriterion(lambda est: len(est) >= rule[1])
    if k == "above":  # |estimate| exceeds a threshold (entrywise sum for vectors)
        return ConvergenceCriterion(lambda est: len(est) > 0 and bool(np.sum(np.abs(est.estimate)) > rule[1]))
    if k == "or":
        return build(rule[1]) | build(rule[2])
    if k == "and":
        return build(rule[1]) & build(rule[2])
    if k == "not":
        return ~build(rule[1])
    raise KeyError(k)


class Tie(Exception):
    """the comparison is too close to call in floating point"""


def _cmp(x, y, tol=1e-7):
    """x < y, refusing near ties."""
    if math.isinf(x) or math.isinf(y):
        return x < y
    if abs(x - y) <= tol * max(1.0, abs(x), abs(y)):
        raise Tie
    return x < y


def holds(rule, rows, last, old=None):
    """Does the rule hold after the given samples (list of 1-D rows), the latest update having brought `last` of them?

    `old` overrides the estimate before the latest update (estimators that recompute all their samples)."""
    from mc.props.c06 import tq, zq
    n = len(rows)
    k = rule[0]
    if k in ("count", "user"):
        return n >= rule[1]
    if k == "or":
        return holds(rule[1], rows, last, old) or holds(rule[2], rows, last, old)
    if k == "and":
        return holds(rule[1], rows, last, old) and holds(rule[2], rows, last, old)
    if k == "not":
        return not holds(rule[1], rows, last, old)
    X = np.array(rows, dtype=float).reshape(n, -1) if n else np.zeros((0, 1))
    if k == "above":
        return n > 0 and not _cmp(float(np.abs(X.mean(axis=0)).sum()), rule[1])
    if k == "tol":
        if n == 0:
            return False
        mu = X.mean(axis=0)
        old = np.atleast_1d(old) if old is not None else X[: n - last].mean(axis=0) if n > last else np.zeros(X.shape[1])
        e = float(np.linalg.norm(mu - old))
        m = float(np.linalg.norm(mu))
        if e <= 1e-13:
            if rule[2] > 1e-9 or (rule[1] > 0 and m > 1e-9):
                return True
            if not np.any(X):
                return False
            raise Tie
        return _cmp(e, rule[2]) or _cmp(e, rule[1] * m)
    if k == "conf":
        if n < 3:
            return False
        x = X[:, 0]
        mu = x.mean()
        se = math.sqrt(((x - mu) ** 2).sum() / (n - 1) / n)
        if se == 0.0:
            return True if (mu != 0 or rule[2] >= 0) else False
        q = tq(rule[1], n - 1) if n < 30 else zq(rule[1])
        rel = se / abs(mu) if mu != 0 else math.inf
        return not _cmp(rule[2], q * se) or not _cmp(rule[3], rel)
    if k == "knee":
        from mc.props.c07 import knee
        ans, margin = knee([Fraction(float(v)) for v in X[:, 0]], Fraction(rule[1]))
        if margin < 1e-9:
            raise Tie
        return ans
    raise KeyError(k)
