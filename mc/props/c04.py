"""C04: criteria compose as a Boolean algebra and never change the estimator."""
import copy, itertools
import numpy as np

RULE = ("all expression trees of depth <= 2 (depth 3 at selected states; thorough more) and all left- and right-nested operator chains of length 6 over the leaf criteria, evaluated at every "
        "state reached by the bounded update histories of scalar, vector and control-variate estimators; compared with Python's Boolean value of the leaves in that state; "
        "operand values before/after composing, the same criteria on a second estimator and back, estimator snapshot before/after evaluation, message type")
ASSUMPTIONS = ["leaves that do not apply to an estimator kind (confidence on non-mean estimators) are not combined with it"]
EXTS = ()
SAMPLES = [1.0, 1.0, 3.0, -2.0]
NLEAF = 9


def leaves(kind="mean"):
    from primate.estimators import (ConfidenceCriterion, ConvergenceCriterion, CountCriterion, KneeCriterion, ToleranceCriterion)
    if kind != "mean":
        return [CountCriterion(2), CountCriterion(0), ToleranceCriterion(rtol=0.6, atol=0.0), ToleranceCriterion(rtol=0.0, atol=0.3, ord=1),
                ToleranceCriterion(rtol=0.0, atol=2.0, ord=np.inf), CountCriterion(3), ConvergenceCriterion(lambda e: True),
                ConvergenceCriterion(lambda e: False), ConvergenceCriterion(lambda e: len(e) % 2 == 1)]
    return [CountCriterion(2), CountCriterion(0), ToleranceCriterion(rtol=0.6, atol=0.0), ToleranceCriterion(rtol=0.0, atol=0.3, ord=1),
            ConfidenceCriterion(atol=2.0, rtol=0.0), KneeCriterion(S=0.2), ConvergenceCriterion(lambda e: True),
            ConvergenceCriterion(lambda e: False), ConvergenceCriterion(lambda e: len(e) % 2 == 1)]


def trees(depth):
    """Expression trees as nested tuples."""
    level = [[(i,) for i in range(NLEAF)]]
    for d in range(depth):
        prev = [t for lv in level for t in lv]
        new = [("~", t) for t in level[-1]]
        lo = level[0]
        new += [(op, a, b) for op in "|&" for a in (level[-1] if d else lo) for b in lo]
        if d:
            new += [(op, b, a) for op in "|&" for a in level[-1] if a[0] in "|&~" for b in lo[:3]]
        level.append(new)
    return [t for lv in level for t in lv]


def cases(tier):
    L = 5 if tier == "thorough" else 4
    for n in range(0, L + 1):
        for h in itertools.product(range(len(SAMPLES)), repeat=n):
            yield dict(h=h, rec=True, depth=2)
    for h in itertools.product(range(3), repeat=3) if tier == "thorough" else ((0, 2, 3), (0, 1)):
        yield dict(h=h, rec=False, depth=3)
    for h in ((), (0,), (0, 2, 3), (0, 1), (0, 1, 0), (2, 3, 1, 0, 0)):
        for kind in ("vec", "cv"):
            for rec in (False, True):
                yield dict(h=h, rec=rec, depth=2, kind=kind)
        for kind in ("mean", "vec"):
            yield dict(h=h, rec=True, depth=0, kind=kind, chain=6 if tier != "thorough" else 7)
    for h in ((), (0,), (0, 2, 3), (0, 0, 0, 2, 1)):
        yield dict(h=h, rec=False, depth=2)


def ev(t, vals):
    if len(t) == 1:
        return vals[t[0]]
    if t[0] == "~":
        return not ev(t[1], vals)
    a, b = ev(t[1], vals), ev(t[2], vals)
    return (a or b) if t[0] == "|" else (a and b)


def chains(k):
    """All operator words of length k, nested to the left and to the right, each with and without negated links."""
    for ops in itertools.product("|&", repeat=k):
        for neg in range(4):
            for side in "lr":
                t = (neg + 1,)
                for i, o in enumerate(ops):
                    leaf = ((3 * i + 2 * neg + len(ops)) % NLEAF,)
                    t = (o, t, leaf) if side == "l" else (o, leaf, t)
                    if neg and i % (neg + 1) == 0:
                        t = ("~", t)
                yield t


def mk(t, ls, memo):
    if t in memo:
        return memo[t]
    if len(t) == 1:
        r = ls[t[0]]
    elif t[0] == "~":
        r = ~mk(t[1], ls, memo)
    elif t[0] == "|":
        r = mk(t[1], ls, memo) | mk(t[2], ls, memo)
    else:
        r = mk(t[1], ls, memo) & mk(t[2], ls, memo)
    memo[t] = r
    return r


def snap(e):
    out = [len(e), e.n_samples, np.array(e.estimate, dtype=float), np.array(e.delta, dtype=float), e.mean,
           None if e.values is None else np.array(e.values, dtype=float)]
    out.append(str(getattr(e, "alpha", None)))
    return out


def same(a, b):
    return a[-1] == b[-1] and all((x is None and y is None) or np.array_equal(np.asarray(x, dtype=float), np.asarray(y, dtype=float), equal_nan=True) for x, y in zip(a[:-1], b[:-1]))


def run(ctx, case):
    from primate.estimators import ControlVariableEstimator, ConvergenceCriterion, MeanEstimator
    kind = case.get("kind", "mean")

    def estimator(h):
        if kind == "mean":
            e = MeanEstimator(covariance=True, record=case["rec"])
        else:
            e = MeanEstimator(dim=3, covariance=len(h) % 2 == 0, record=case["rec"]) if kind == "vec" else ControlVariableEstimator(ecv=[0.5], alpha=0.7, record=case["rec"])
        for i in h:
            e.update(SAMPLES[i] if kind == "mean" else np.array([[SAMPLES[i], 1.0, -SAMPLES[i]]] if kind == "vec" else [[SAMPLES[i], i - 1.0]]))
        return e
    e = estimator(case["h"])
    ls = leaves(kind)
    before = snap(e)
    vals = [bool(c(e)) for c in ls]
    ctx.check(same(before, snap(e)), "evaluating a criterion changed the estimator")
    memo = {}
    for t in chains(case["chain"]) if "chain" in case else trees(case["depth"]):
        c = mk(t, ls, memo)
        ctx.check(isinstance(c, ConvergenceCriterion), lambda: f"{t} is not a criterion")
        got = c(e)
        ctx.op()
        exp = ev(t, vals)
        ctx.check(bool(got) == exp and got in (True, False), lambda: f"{t} evaluates to {got!r} but its parts {vals} give {exp}")
        if len(t) > 1:
            ctx.check(all(c is not l for l in ls), lambda: f"composing {t} returned one of its operands")
    for i in range(NLEAF):
        memo.setdefault((i,), ls[i])
    for t in list(memo)[:: 7] + [(i,) for i in range(NLEAF)]:
        msg = memo[t].message(e)
        ctx.check(isinstance(msg, str), lambda: f"message of {t} is {msg!r}")
        ctx.op()
    ctx.check(same(before, snap(e)), "evaluating criteria or messages changed the estimator")
    # the same criteria on another estimator, and back: the answers depend on the estimator's state only
    e2 = estimator((1, 3) if len(case["h"]) % 2 else ())
    for est in (e2, e):
        v = [bool(c(est)) for c in ls]
        for t, c in memo.items():
            ctx.check(bool(c(est)) == ev(t, v), lambda: f"{t}, evaluated before on another estimator, does not give the value of its parts {v}")
        ctx.op(len(memo))
    ctx.check([bool(c(e)) for c in ls] == vals, "composing criteria altered the operands")
    ctx.trace()
    ctx.state(case["h"], case["rec"], case["depth"], kind, case.get("chain"))
    ctx.outcome("".join("01"[v] for v in vals))
