"""C10: random symmetric matrices with prescribed spectrum."""
import itertools
import numpy as np
from mc.core import raises
from mc.lib import mt_generator

RULE = ("all sizes 1..N x entry distributions x eigenvalue words (multisets over {-2,0,0.5,3} incl. repeated, zero and negative, plus large "
        "scale) x positive-definiteness flag x seeds of the grid (incl. extreme generator states): symmetry and sorted spectrum")
ASSUMPTIONS = ["spectra compared up to 1e-9 relative to their largest magnitude"]
EXTS = ()
VALS = (-2.0, 0.0, 0.5, 3.0)
SEEDS = [0, 1, 2, "zeros", "ones", "alt", "default"]


def cases(tier):
    th = tier == "thorough"
    for n in range(1, 8 if th else 6):
        for w in itertools.combinations_with_replacement(VALS, n):
            for pd in (False, True):
                for dist in ("normal", "uniform"):
                    yield dict(kind="sym", n=n, w=w, pd=pd, dist=dist)
            yield dict(kind="haar", n=n, w=w)
            yield dict(kind="sym", n=n, w=w[::-1], pd=False, dist="normal")
        for pd in (False, True):
            for dist in ("normal", "uniform"):
                yield dict(kind="sym", n=n, w=None, pd=pd, dist=dist)
        yield dict(kind="haar", n=n, w=None)
        yield dict(kind="sym", n=n, w=tuple(10.0 ** (i - 2) for i in range(n)), pd=False, dist="normal")
        yield dict(kind="haar", n=n, w=tuple(10.0 ** (i - 2) for i in range(n)))
    for n in (2, 3, 8, 12, 20, 33, 50, 64, 65, 100, 150, 300):
        i = np.arange(n)
        for sc in ((2.0 ** -40, 1e-3, 1.0, 1e6, 2.0 ** 40) if n <= 100 or th else (1.0,)):
            for v, w in enumerate(((-1.0) ** i * (1 + i % 5), 1.0 + (i * 7 + 3) % n, np.where(i % 4 == 0, 0.0, 2.0), np.where(i == n // 2, -5.0, 1.0))):
                for pd in (False, True):
                    yield dict(kind="sym", n=n, w=tuple((sc * w).tolist()), pd=pd, dist="uniform" if v % 2 else "normal")
                yield dict(kind="haar", n=n, w=tuple((sc * w).tolist()))
        for pd in (False, True):
            for dist in ("normal", "uniform"):
                yield dict(kind="sym", n=n, w=None, pd=pd, dist=dist)
        yield dict(kind="haar", n=n, w=None)
    for n in (12, 25):
        yield dict(kind="sym", n=n, w=tuple(float(i // 2) for i in range(n)), pd=False, dist="normal")
        yield dict(kind="haar", n=n, w=tuple(float(i // 2) for i in range(n)))
    yield dict(kind="rej")


def gen(s):
    if s == "zeros":
        return mt_generator([0x00000000, 0x00000001] * 100)
    if s == "ones":
        return mt_generator([0xFFFFFFFF] * 200)
    if s == "alt":
        return mt_generator([0xFFFFFFFF, 0x0000FFFF, 0x12345678, 0x80000000] * 50)
    return s


def run(ctx, case):
    from primate.random import haar, symmetric
    if case["kind"] == "rej":
        ctx.op()
        for dist in ("bogus", "", "gamma"):
            ctx.check(raises(symmetric, 3, dist=dist), lambda: f"distribution {dist!r} accepted")
        for n in (2, 3, 4):
            for k in range(1, 6):
                if k != n and k != 1:  # a single value might as well stand for all
                    ctx.check(raises(symmetric, n, ew=np.ones(k)), lambda: f"symmetric({n}) accepted {k} eigenvalues")
                    ctx.check(raises(haar, n, ew=np.ones(k)), lambda: f"haar({n}) accepted {k} eigenvalues")
        return
    n, w = case["n"], case["w"]
    for s in SEEDS if n < 12 else (0, 1, "alt", "default"):
        if s == "default":
            s = np.random.default_rng(99)
        for ew in ((None,) if w is None else (np.array(w), list(w))):
            keep = None if ew is None else np.array(ew, copy=True)
            if case["kind"] == "sym":
                pd = case["pd"]
                A = symmetric(n, dist=case["dist"], pd=pd, ew=ew, seed=gen(s))
            else:
                if s in ("zeros", "ones", "alt"):
                    continue
                if n == 1:  # scipy's orthogonal group needs n > 1
                    continue
                pd = False
                A = haar(n, ew=ew, seed=gen(s))
            ctx.op()
            what = f"{case} seed {s}"
            ctx.check(A.shape == (n, n) and np.all(np.isfinite(A)), lambda: f"{what}: shape {A.shape} / non-finite entries")
            scale = float(np.max(np.abs(A))) if ew is None else float(np.max(np.abs(keep)))
            ctx.check(np.max(np.abs(A - A.T)) <= (0.0 if case["kind"] == "sym" else 1e-13 * scale * n), lambda: f"{what}: not symmetric by {np.max(np.abs(A - A.T))}")
            lam = np.linalg.eigvalsh((A + A.T) / 2)
            if ew is not None:
                ctx.check(np.array_equal(np.array(ew), keep), lambda: f"{what}: the caller's eigenvalues were modified")
                exp = np.sort(np.maximum(keep, 0.0) if pd else keep)
                ctx.check(np.allclose(lam, exp, rtol=1e-9, atol=1e-9 * np.max(np.abs(keep))), lambda: f"{what}: eigenvalues {lam} expected {exp}")
            else:
                lo = 0.0 if pd else -1.0
                ctx.check(np.all(lam >= lo - 1e-12 * n) and np.all(lam <= 1 + 1e-12 * n), lambda: f"{what}: default eigenvalues {lam}")
            ctx.trace()
    ctx.state(case["kind"], n, w, case.get("pd"), case.get("dist"))
