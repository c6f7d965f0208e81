"""C13: incremental inverse of an upper triangular matrix."""
import itertools
import numpy as np
from mc.core import raises

RULE = ("all chains of columns over the alphabet up to the depth, both precisions, every accepted column form, contiguous and strided "
        "inputs: after every step the returned matrix times the matrix grown so far is the identity; inputs unmodified, earlier results "
        "unchanged, mismatches rejected")
ASSUMPTIONS = ["entrywise agreement to 1e-11 (double) / 1e-5 (single) times the number of columns times |X||B||X|, the bound of back substitution, so it does not depend on the units of rows or columns"]
EXTS = ()
OFF, DIA = (-1.0, 0.0, 2.0), (0.5, -2.0, 4.0)


def cases(tier):
    N = 4 if tier == "thorough" else 3
    for n in range(1, N + 1):
        k = n * (n - 1) // 2
        for dia in itertools.product(DIA if n < 4 else DIA[:2], repeat=n):
            for off in itertools.product(OFF if n < 4 else OFF[::2], repeat=k):
                yield dict(dia=dia, off=off)
    for n in (4, 6, 10, 17, 33, 40, 70):
        for v in range(8):
            yield dict(n=n, v=v)
            if n == 70 and v < 2:
                yield dict(n=130 + 100 * v, v=v)
            if n <= 17:
                for k in (-60, -40, -20, 20, 40, 60):
                    yield dict(n=n, v=v, scale=k)
                    if abs(k) > 20:
                        yield dict(n=n, v=v, scale=k, rows=True)
                        yield dict(n=n, v=v, scale=k, all=True)
    yield dict(rej=True)


def run(ctx, case):
    from primate.linalg import update_trinv
    if "rej" in case:
        ctx.op()
        I = np.eye(3)
        ctx.check(raises(update_trinv, I, np.ones(3)), "too short column accepted")
        ctx.check(raises(update_trinv, I, np.ones(5)), "too long column accepted")
        ctx.check(raises(update_trinv, np.ones((3, 2)), np.ones(4)), "non-square inverse accepted")
        ctx.check(raises(update_trinv, I, np.ones(4, dtype=np.float32)), "column of another precision accepted")
        ctx.check(raises(update_trinv, I.astype(np.float32), np.ones(4)), "column of another precision accepted")
        return
    if "dia" in case:
        n = len(case["dia"])
        B = np.diag(case["dia"]).astype(float)
        B[np.triu_indices(n, 1)] = case["off"]
    else:
        n, v = case["n"], case["v"]
        i = np.arange(n, dtype=float)
        B = np.triu(((i[:, None] * 7 + i[None, :] * 3 + v) % 5 - 2) / 4)
        if n > 10:
            B *= 4.0 / n
        np.fill_diagonal(B, (1.0 + (i + v) % 3) * np.where((i + v) % 4 == 3, -1.0, 1.0))
        if "scale" in case:  # columns in different units
            d = 2.0 ** np.where((i % 3 == v % 3) | case.get("all", False), case["scale"], 0.0)
            B *= d[:, None] if case.get("rows") else d
    for dt in (np.float64, np.float32):
        for form in ("1d", "col", "list", "strided", "F"):
            R = np.zeros((0, 0), dtype=dt)
            old = []
            for j in range(n):
                b = B[: j + 1, j].astype(dt)
                if form == "col":
                    b = b.reshape(-1, 1)
                elif form == "strided":
                    b = np.repeat(b, 2)[::2]
                elif form == "F":
                    R = np.asfortranarray(R)
                elif form == "list":
                    if dt != np.float64:
                        break
                    b = b.tolist()
                kR, kb = np.array(R), np.array(b)
                S = update_trinv(R, b)
                ctx.op()
                what = f"B={B[:j + 1, :j + 1].tolist()} dtype={dt.__name__} form={form}"
                ctx.check(np.array_equal(R, kR) and np.array_equal(np.array(b), kb), lambda: f"{what}: inputs modified")
                ctx.check(S.shape == (j + 1, j + 1) and S.dtype == dt, lambda: f"{what}: result {S.shape} {S.dtype}")
                X = np.linalg.inv(B[: j + 1, : j + 1])
                # entry by entry, as back substitution gives it whatever the units of rows and columns
                tol = (1e-11 if dt == np.float64 else 1e-5) * (j + 1) * (np.abs(X) @ np.abs(B[: j + 1, : j + 1]) @ np.abs(X))
                ctx.check(np.all(np.abs(S - X) <= tol), lambda: f"{what}: {S.tolist()} expected {X.tolist()}")
                ctx.check(np.all(np.tril(S, -1) == 0), lambda: f"{what}: not upper triangular")
                for a, s in old:
                    ctx.check(np.array_equal(a, s), lambda: f"{what}: an earlier result changed")
                old.append((S, S.copy()))
                R = S
            ctx.trace()
    ctx.state(tuple(B.ravel()))
