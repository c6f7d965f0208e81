"""Violation type, exploration context and small helpers shared by all properties."""
import hashlib, json, mmap, struct


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg, self.key = msg, key


def _canon(x, h):
    import numpy as np
    if isinstance(x, np.ndarray):
        h.update(b"A" + str(x.shape).encode() + str(x.dtype).encode() + np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (tuple, list)):
        h.update(b"(")
        for y in x:
            _canon(y, h)
        h.update(b")")
    else:
        h.update(repr(x).encode() + b";")


class Ctx:
    """Collects what a shard covered: distinct states, transitions (API operations), validated traces, outcomes."""

    def __init__(self, tier, beat=None):
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.outcomes = {}
        self._beat = beat
        self._n = 0

    def tick(self):
        self._n += 1
        if self._beat is not None:
            self._beat(self._n)

    def state(self, *key):
        h = hashlib.blake2b(digest_size=8)
        _canon(key, h)
        self.states.add(h.digest())

    def op(self, n=1):
        self.transitions += n
        self.tick()

    def trace(self, n=1):
        self.traces += n

    def outcome(self, tag):
        self.outcomes[tag] = self.outcomes.get(tag, 0) + 1

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)


def close(a, b, rtol=1e-9, atol=1e-9):
    """Entrywise closeness that treats equal infinities and NaNs as equal and requires equal shapes (after squeeze)."""
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        if a.size != b.size:
            return False
        a, b = a.ravel(), b.ravel()
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


class Beat:
    """Progress cell shared with the parent process (case index, progress counter)."""

    def __init__(self, path, slot):
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 0)
        self.o = 16 * slot
        self.idx = 0

    def case(self, i):
        self.idx = i
        struct.pack_into("<qq", self.m, self.o, i, 0)

    def __call__(self, n):
        struct.pack_into("<q", self.m, self.o + 8, n)


def raises(fn, *a, **k):
    """True if the call raises an ordinary exception (used for 'must be rejected')."""
    try:
        fn(*a, **k)
    except Exception:
        return True
    return False


def key_of(x):
    return json.dumps(x, sort_keys=True)
