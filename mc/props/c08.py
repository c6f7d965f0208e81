"""C08: isotropic samplers."""
import itertools
import numpy as np
from mc.core import raises
from mc.lib import mt_generator

RULE = ("all assignments of the decisive words {0, 2^31-1, 2^31, 2^32-1} of a real bit generator (state set through its inverse "
        "tempering) for 1..3 (thorough 4) entries: every sign pattern occurs equally often, also in blocks of 2..4 columns; 4096-point grid of the first word; all assignments of words giving tiny to large normal entries; "
        "all shapes x names x call forms x seeds x stream splits: values, norms, agreement of the call forms, buffers")
ASSUMPTIONS = ["sphere: the underlying normal vector is not exactly zero",
               "normal samples are identified with numpy's standard normal stream of the same generator"]
EXTS = ()
W4 = (0x00000000, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000)
# (high, low) words giving tiny, small, moderate and large normal entries of either sign
NORMW = [(0x0, 0x201), (0x0, 0x301), (0x0, 0xFFFFFE02), (0x1000, 0x105), (0x08000000, 0x5), (0x12345678, 0x111)]
NAMES = {"rademacher": "rademacher", "signs": "rademacher", "normal": "normal", "gaussian": "normal", "sphere": "sphere"}
SHAPES = [1, 2, 5, (1, 1), (3, 1), (1, 4), (3, 2), (2, 5), (4, 4), (7, 3), (3,), (5, 0), (64, 2), (65, 3), (100, 33), 130, (257, 17), (1, 300), (600, 3), (1025, 2), (2, 2050), (3000, 1), (300, 64), (5000, 2), (9000, 1)]


def cases(tier):
    th = tier == "thorough"
    for n in (1, 2, 3) + ((4,) if th else ()):
        for form in ("direct", "out64", "out32", "deferred", "col"):
            yield dict(kind="bits", n=n, form=form)
    for form in ("block2", "blockT2", "block3", "blockT3"):
        for n in (4, 6, 8):
            if n % int(form[-1]) == 0:
                yield dict(kind="bits", n=n, form=form)
                if n < 8:
                    yield dict(kind="tiny", n=n, form=form)
    for n in (1, 2, 3) + ((4,) if th else ()):
        for form in ("direct", "out64", "deferred", "col"):
            yield dict(kind="tiny", n=n, form=form)
    for form in ("direct", "out32"):
        yield dict(kind="grid", form=form, k=14 if th else 11)
    for name in NAMES:
        for s in range(len(SHAPES)):
            for seed in (0, 1, 2, 12345) if not th else range(40):
                yield dict(kind="forms", name=name, s=s, seed=seed)
        for seed in range(4 if not th else 16):
            for n in (1, 2, 3, 5):
                yield dict(kind="stream", name=name, n=n, seed=seed)
    yield dict(kind="rej")


def draw(form, n, g, pdf="rademacher"):
    from primate.random import isotropic
    if form == "direct":
        return isotropic((n, 1), pdf=pdf, seed=g)
    if form == "col":
        return isotropic((1, n), pdf="signs" if pdf == "rademacher" else pdf, seed=g)
    if form.startswith("block"):  # several columns at once
        r = int(form[-1])
        r, c = (r, n // r) if "T" not in form else (n // r, r)
        return isotropic((r, c), pdf=pdf, seed=g)
    if form == "deferred":
        return isotropic(pdf=pdf, seed=g)(size=(n, 1))
    out = np.full((n, 1), np.nan, dtype=np.float64 if form == "out64" else np.float32)
    r = isotropic(pdf=pdf, seed=g, out=out)
    assert r is None
    return out


def norm_ok(V, tol):
    return np.allclose(np.sqrt((np.asarray(V, dtype=float) ** 2).sum(axis=0)), np.sqrt(V.shape[0]), rtol=tol, atol=tol)


def run(ctx, case):
    from primate.random import isotropic
    k = case["kind"]
    if k == "bits":
        n, form = case["n"], case["form"]
        cnt = {}
        nw = 2 * n
        few = [(w, w) for w in W4]
        if n > 4:
            few = [(0x0, 0x0), (0xFFFFFFFF, 0xFFFFFFFF)]
        for ws in itertools.product(W4, repeat=nw) if n < 4 or n == 4 and not form.startswith("block") else (sum(p, ()) for p in itertools.product(few, repeat=n)):
            v = np.asarray(draw(form, n, mt_generator(ws)), dtype=float).ravel()
            ctx.op()
            ctx.check(v.shape == (n,) and np.all(np.abs(v) == 1.0), lambda: f"generator words {[hex(w) for w in ws]}: sample {v!r} is not a sign vector")
            key = tuple(int(x) for x in v)
            cnt[key] = cnt.get(key, 0) + 1
        ctx.trace(sum(cnt.values()))
        for p, c in cnt.items():
            ctx.state(n, form, p)
        ctx.check(len(cnt) == 2 ** n and len(set(cnt.values())) == 1, lambda: f"sign patterns are not equally likely over all {sum(cnt.values())} generator states: {cnt}")
        return
    if k == "tiny":
        n, form = case["n"], case["form"]
        for ws in itertools.product(NORMW[:: 1 if n < 6 else 2], repeat=n):
            flat = [w for p in ws for w in p]
            z = mt_generator(flat).standard_normal(n)
            assert np.all(z != 0.0)
            N, S = (np.asarray(draw(form, n, mt_generator(flat), pdf), dtype=float) for pdf in ("normal", "sphere"))
            ctx.op(2)
            what = lambda: f"generator words {[hex(w) for w in flat]} (normal entries {z!r}), form {form}"
            if form.startswith("block"):
                ctx.check(np.array_equal(np.sort(N.ravel()), np.sort(z)), lambda: f"{what()}: normal sample {N!r}")
                sc = np.abs(N).max(axis=0)
                exp = N / sc / np.linalg.norm(N / sc, axis=0) * np.sqrt(len(N))
                ctx.check(np.allclose(S, exp, rtol=1e-9, atol=1e-9), lambda: f"{what()}: sphere sample {S!r} expected {exp!r}")
                continue
            ctx.check(np.array_equal(N.ravel(), z), lambda: f"{what()}: normal sample {N!r}")
            exp = np.sign(z).reshape(S.shape) if form == "col" else (z / np.abs(z).max() / np.linalg.norm(z / np.abs(z).max()) * np.sqrt(n)).reshape(S.shape)
            ctx.check(np.allclose(S, exp, rtol=1e-9, atol=1e-9), lambda: f"{what()}: sphere sample {S!r} expected {exp!r}")
        ctx.trace(len(NORMW[:: 1 if n < 6 else 2]) ** n)
        ctx.state("tiny", n, form)
        return
    if k == "grid":
        cnt = {1: 0, -1: 0}
        B = case["k"]
        for i in range(2 ** B):
            for low in (0, (1 << (32 - B)) - 1):
                for w2 in (0, 0xFFFFFFFF):
                    v = draw(case["form"], 1, mt_generator([(i << (32 - B)) | low, w2]))
                    ctx.op()
                    ctx.check(abs(float(v.item())) == 1.0, lambda: f"sample {v!r}")
                    cnt[int(v.item())] += 1
        ctx.trace(2 ** (B + 2))
        ctx.state("grid", case["form"], B)
        ctx.check(cnt[1] == cnt[-1], lambda: f"the two signs are not equally likely over the grid of generator words: {cnt}")
        return
    if k == "rej":
        ctx.op()
        for bad in ("bogus", "", "unif", "rademacherr"):
            ctx.check(raises(isotropic, (3, 2), pdf=bad), lambda: f"unknown distribution {bad!r} accepted")
            ctx.check(raises(isotropic, pdf=bad), lambda: f"unknown distribution {bad!r} accepted (deferred)")
        return
    name = case["name"]
    canon = NAMES[name]
    if k == "forms":
        size = SHAPES[case["s"]]
        shape = (size, 1) if isinstance(size, int) else size
        seed = case["seed"]
        D = isotropic(size, pdf=name, seed=seed)
        ctx.op()
        what = f"pdf={name} size={size} seed={seed}"
        ctx.check(isinstance(D, np.ndarray) and D.shape == shape and D.dtype == np.float64, lambda: f"{what}: got {type(D)} of shape {np.shape(D)}")
        if D.ndim == 2 and min(D.shape) and (canon == "normal" or D.shape[1] >= 64):  # no entry or row repeats another one
            R = D if D.shape[1] >= 64 else D.reshape(-1, 1)
            ctx.check(len(np.unique(R * np.where(R[:, :1] < 0, -1.0, 1.0), axis=0)) == len(R), lambda: f"{what}: some rows are repeated")
            R = D.T if D.shape[0] >= 64 else D.reshape(-1, 1)
            ctx.check(canon != "normal" and D.shape[0] < 64 or len(np.unique(R * np.where(R[:, :1] < 0, -1.0, 1.0), axis=0)) == len(R), lambda: f"{what}: some columns are repeated")
        if canon == "rademacher":
            ctx.check(np.all(np.abs(D) == 1.0), lambda: f"{what}: {D!r}")
        elif canon == "sphere" and D.size:
            ctx.check(norm_ok(D, 1e-13 * 10), lambda: f"{what}: norms {np.sqrt((D ** 2).sum(axis=0))!r}")
            Z = isotropic(size, pdf="normal", seed=seed)
            ctx.check(np.allclose(D, Z / np.sqrt((Z ** 2).sum(axis=0, keepdims=True)) * np.sqrt(shape[0]), rtol=1e-12, atol=1e-12), lambda: f"{what}: direction is not that of a normal vector")
        elif canon == "normal":
            S = np.random.default_rng(seed).standard_normal(D.size)
            ctx.check(np.array_equal(np.sort(D.ravel()), np.sort(S)), lambda: f"{what}: not the standard normal stream of the generator")
        g = lambda: np.random.default_rng(seed)
        for what2, X in (("canonical name", isotropic(size, pdf=canon, seed=seed)), ("generator as seed", isotropic(size, pdf=name, seed=g())),
                         ("deferred sampler", isotropic(pdf=name, seed=seed)(size)), ("deferred with keyword", isotropic(pdf=name, seed=g())(size=size)),
                         ("shape instead of length", isotropic(shape, pdf=name, seed=seed))):
            ctx.op()
            ctx.check(np.array_equal(X, D), lambda: f"{what}: {what2} gives {X!r}, the direct call {D!r}")
        for order in "FC":
            for dt in (np.float64, np.float32):
                out = np.full(shape, np.nan, dtype=dt, order=order)
                r = isotropic(pdf=name, seed=seed, out=out)
                ctx.op()
                ctx.check(r is None and out.dtype == dt, lambda: f"{what}: in-place call returned {r!r}")
                if dt == np.float64 and order == "F":
                    ctx.check(np.array_equal(out, D), lambda: f"{what}: in-place fill gives {out!r}, the direct call {D!r}")
                elif canon == "rademacher":
                    ctx.check(np.all(np.abs(out) == 1.0), lambda: f"{what}: in-place {dt.__name__} fill {out!r}")
                elif canon == "sphere" and out.size:
                    ctx.check(norm_ok(out, 1e-5 if dt == np.float32 else 1e-12), lambda: f"{what}: in-place {dt.__name__} norms")
                elif out.size:
                    ctx.check(np.all(np.isfinite(out)) and (np.unique(out).size == out.size or dt == np.float32 and out.size > 60), lambda: f"{what}: in-place {dt.__name__} {out!r}")
        ctx.trace()
        ctx.state(name, case["s"], seed)
        return
    n, seed = case["n"], case["seed"]
    for total in range(1, 6):
        whole = isotropic((n, total), pdf=name, seed=seed)
        for cut in range(1, total):
            for form in ("gen", "deferred", "deferred-int"):
                g = np.random.default_rng(seed) if form != "deferred-int" else seed
                f = isotropic(pdf=name, seed=g)
                draws = [(f if form != "gen" else (lambda size: isotropic(size, pdf=name, seed=g)))((n, c)) for c in (cut, total - cut)]
                ctx.op(2)
                ctx.check(np.array_equal(np.c_[draws[0], draws[1]], whole), lambda: f"pdf={name}: drawing {cut}+{total - cut} columns differs from drawing {total} at once")
                keep = draws[0].copy()
                f((n, 1))
                ctx.check(np.array_equal(draws[0], keep), "a later draw changed an earlier sample")
        ctx.trace()
    ctx.state("stream", name, n, seed)
