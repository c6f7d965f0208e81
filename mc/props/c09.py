"""C09: multithreaded fill explored under a controlled scheduler."""
import itertools, os
import numpy as np
from mc.core import Violation

RULE = ("real Isotropic.fill under a controlled scheduler that serialises the pool's real threads: every line of the package's code "
        "(main thread and workers) is a scheduling point, all schedules within the preemption bound (job orders unbounded) for every "
        "configuration (pdf, rows, columns, threads), two consecutive fills; plus uncontrolled runs on the real thread pool")
ASSUMPTIONS = ["a single numpy call on disjoint data is atomic (numpy serialises each bit generator by its own lock)",
               "the pool is obtained from concurrent.futures; work handed out any other way runs uncontrolled"]
EXTS = ()


def cases(tier):
    th = tier == "thorough"
    for pdf in ("rademacher", "normal", "sphere"):
        for T in (1, 2, 3, 4):
            for m in range(1, 10):
                for n in (1, 3):
                    yield dict(kind="jobs", pdf=pdf, T=T, m=m, n=n, bound=0, line=False)
        for m in (1, 2, 3, 5):
            yield dict(kind="line", pdf=pdf, T=2, m=m, n=2, bound=4 if th else 3, line=True, fills=1)
        yield dict(kind="line", pdf=pdf, T=2, m=3, n=2, bound=3 if th else 2, line=True, fills=2)
        for m in (2, 4):
            yield dict(kind="line", pdf=pdf, T=3, m=m, n=2, bound=3 if th and m == 4 else 2, line=True, fills=1)
        yield dict(kind="line", pdf=pdf, T=4, m=6, n=1, bound=0, line=True, fills=1)
        yield dict(kind="line", pdf=pdf, T=4, m=7, n=2, bound=1, line=True, fills=1)
        if th:
            yield dict(kind="line", pdf=pdf, T=4, m=7, n=2, bound=2, line=True, fills=1)
        for T in (5, 6, 8, 9, 12, 17, 33, 40, 64) + ((100, 130) if th else ()):
            yield dict(kind="wide", pdf=pdf, T=T, m=T + 1 if T % 2 else 2 * T, n=2)
    for pdf in ("rademacher", "signs", "normal", "gaussian", "sphere"):
        for T in (1, 2, 3, 4, 5, None):
            for m in range(1, 12):
                yield dict(kind="real", pdf=pdf, T=T, m=m, n=3)
        for T in (1, 2, 3, 9, 33):
            for m in (530, 1030):
                if pdf in ("rademacher", "normal", "sphere"):
                    yield dict(kind="real", pdf=pdf, T=T, m=m, n=3)
        for T in (2, 7, 8, 9, 16, None) if not th else (2, 3, 6, 7, 8, 9, 12, 16, 17, None):
            for m in (13, 16, 17, 33, 64, 65, 129, 257) if not th else (1, 8, 13, 16, 17, 31, 33, 64, 65, 70, 100, 129, 257):
                if not th and pdf in ("signs", "gaussian"):
                    continue
                yield dict(kind="real", pdf=pdf, T=T, m=m, n=(2, 7, 65)[m % 3])


def valid(ctx, V, pdf, what):
    ctx.check(np.all(np.isfinite(V)), lambda: f"{what}: invalid samples {V!r}")
    n = V.shape[0]
    if pdf in ("rademacher", "signs"):
        ctx.check(np.all(np.abs(V) == 1.0), lambda: f"{what}: columns not filled with +-1: {V!r}")
    elif pdf == "sphere":
        ctx.check(np.allclose(np.sqrt((V ** 2).sum(axis=0)), np.sqrt(n), rtol=1e-12), lambda: f"{what}: column norms {np.sqrt((V ** 2).sum(axis=0))!r}")
    else:
        ctx.check(np.all(V != 0.0), lambda: f"{what}: columns left unfilled: {V!r}")
        ctx.check(np.unique(V).size == V.size, lambda: f"{what}: equal values in different places (streams shared between threads): {V!r}")


def wide(ctx, case, pr, Isotropic, explore, patched, Deadlock, pkg):
    """Many threads: all job orders that bring one job forward to the front (every pair of jobs runs in both orders)."""
    pdf, T, m, n = case["pdf"], case["T"], case["m"], case["n"]
    ref = None
    with patched(pr):
        try:
            for c in range(T):
                prefix = []
                for _ in range(2):  # the default schedule runs the jobs in order once the main thread waits; the first choice there picks job c
                    obs, s = next(explore(lambda: Isotropic((n, m), pdf=pdf, seed=7, threads=T), lambda I, s: (I.fill(), np.array(I.values))[1], 0, pkg, line=False, max_runs=1, prefix=prefix))
                    k = next((i for i, o in enumerate(s.options) if o > 1), None)
                    if c == 0 or k is None:
                        break
                    prefix = [0] * k + [min(c, s.options[k] - 1)]
                ctx.op(T)
                ctx.trace()
                what = f"threads={T} columns={m} pdf={pdf}, job {c} first"
                valid(ctx, obs, pdf, what)
                ref = obs if ref is None else ref
                ctx.check(np.array_equal(obs, ref), lambda: f"{what}: result differs from that of the jobs in order")
                ctx.state("wide", pdf, T, m, c)
        except Deadlock as e:
            raise Violation(f"threads={T} columns={m} pdf={pdf}: {e}")
    I = Isotropic((n, m), pdf=pdf, seed=7, threads=T)
    I.fill()
    ctx.check(np.array_equal(I.values, ref), lambda: f"threads={T} columns={m} pdf={pdf}: the real thread pool gives another result than the controlled schedules")


def run(ctx, case):
    import primate.random as pr
    from primate.random import Isotropic, isotropic
    pdf, T, m, n = case["pdf"], case["T"], case["m"], case["n"]
    if case["kind"] == "real":
        for seed in (0, 1234):
            outs = []
            for rep in range(2):
                I = Isotropic((n, m), pdf=pdf, seed=seed, threads=T)
                I.fill()
                a = I.values.copy()
                I.fill()
                b = I.values.copy()
                outs.append((a, b))
                ctx.op(2)
                for V in (a, b):
                    ctx.check(V.shape == (n, m), lambda: f"values have shape {V.shape}")
                    valid(ctx, V, pdf, f"threads={T} columns={m} pdf={pdf}")
                if pdf in ("normal", "gaussian"):
                    ctx.check(np.intersect1d(a, b).size == 0, lambda: f"threads={T} columns={m}: a second fill repeats samples of the first")
            ctx.check(np.array_equal(outs[0][0], outs[1][0]) and np.array_equal(outs[0][1], outs[1][1]), lambda: f"threads={T} columns={m}: two runs with one seed differ")
            if T == 1:
                g = np.random.default_rng(seed)
                ctx.check(np.array_equal(outs[0][0], isotropic((n, m), pdf=pdf, seed=g)) and np.array_equal(outs[0][1], isotropic((n, m), pdf=pdf, seed=g)),
                          lambda: f"one thread differs from the single-threaded sampler ({pdf}, {m} columns)")
            I = Isotropic((n, m), pdf=pdf, seed=np.random.default_rng(seed), threads=T)
            I.fill()
            ctx.check(np.array_equal(I.values, outs[0][0]), "an equal generator as seed gives another result")
        ctx.trace()
        ctx.state("real", pdf, T, m)
        return
    from mc.sched import Deadlock, explore, patched
    pkg = os.path.dirname(pr.__file__)
    fills = case.get("fills", 2)
    if case["kind"] == "wide":
        return wide(ctx, case, pr, Isotropic, explore, patched, Deadlock, pkg)
    ref, runs = None, 0
    cap = 200000 if ctx.tier == "thorough" else 15000  # never reached by the code as it is: a bound for code with far more scheduling points
    with patched(pr):
        def make():
            return Isotropic((n, m), pdf=pdf, seed=7, threads=T)

        def observe(I, s):
            obs = []
            for _ in range(fills):
                I.fill()
                obs.append(np.array(I.values))
            return obs
        try:
            for obs, s in explore(make, observe, case["bound"], pkg, line=case["line"], max_runs=cap):
                runs += 1
                ctx.op(max(1, s.points))
                ctx.trace()
                what = f"threads={T} columns={m} pdf={pdf} schedule {s.trace_log}"
                for V in obs:
                    ctx.check(V.shape == (n, m), lambda: f"values have shape {V.shape}")
                    valid(ctx, V, pdf, what)
                if ref is None:
                    ref = obs
                for V, R in zip(obs, ref):
                    ctx.check(np.array_equal(V, R), lambda: f"{what}: result {V!r} differs from that of another schedule {R!r}")
                if fills == 2 and pdf == "normal":
                    ctx.check(np.intersect1d(obs[0], obs[1]).size == 0, lambda: f"{what}: the second fill repeats samples of the first")
                ctx.state(pdf, T, m, n, case["bound"], tuple(s.trace_log))
        except Deadlock as e:
            raise Violation(f"threads={T} columns={m} pdf={pdf}: {e}")
    ctx.outcome("schedules capped" if runs >= cap else "all schedules within the bound")
    I = Isotropic((n, m), pdf=pdf, seed=7, threads=T)
    for R in ref:
        I.fill()
        ctx.op()
        ctx.check(np.array_equal(I.values, R), lambda: f"the real thread pool gives {I.values!r}, the controlled schedules {R!r}")
