"""Controlled scheduler: real threads serialised by a baton, every line of the package's code is a scheduling point.

Stateless depth-first exploration of all schedules within a preemption bound: the choice made at every scheduling point
is recorded, a run is repeated with the last choice that still has an untried alternative changed."""
import concurrent.futures as cf
import sys, threading


class Deadlock(Exception):
    pass


class _T:
    def __init__(self, name, job):
        self.name, self.job, self.sem, self.done, self.started, self.blocked = name, job, threading.Semaphore(0), False, False, None


class Sched:
    """One controlled run. prefix: choices to replay; afterwards the first option (continue the running thread) is taken."""

    def __init__(self, prefix, bound, pkgdir, line=True, limit=20000):
        self.prefix, self.bound, self.pkg, self.line, self.limit = list(prefix), bound, pkgdir, line, limit
        self.trace_log, self.options, self.preempt = [], [], 0
        self.main = _T("main", None)
        self.main.started = True
        self.threads = [self.main]
        self.cur = self.main
        self.free = False  # after the observed call: let the rest run without control
        self.points = 0

    # ---- enabledness
    def enabled(self, t):
        if t.done:
            return False
        if t.blocked is not None and not t.blocked():
            return False
        if t.job is not None and not t.started:
            ex = t.job[0]
            before = [u for u in self.threads if u.job is not None and u.job[0] is ex and not u.done and u is not t and u.job[4] < t.job[4]]
            return len(before) < ex._max
        return True

    def choose(self, opts, cost):
        """opts[0] is the default. Records how many alternatives are affordable."""
        i = len(self.options)
        n = len(opts) if (not cost or self.preempt < self.bound) else 1
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            c = 0
        self.options.append(n)
        self.trace_log.append(c)
        if cost and c:
            self.preempt += 1
        return opts[c]

    def point(self, me, must_leave=False):
        if self.free:
            return
        self.points += 1
        if self.points > self.limit:
            raise Deadlock("too many scheduling points")
        en = [t for t in self.threads if self.enabled(t)]
        if must_leave:
            if not en:
                if me.done:
                    return
                raise Deadlock("no thread can run: " + ", ".join(t.name for t in self.threads if not t.done))
            nxt = self.choose(en, False)
        else:
            others = [t for t in en if t is not me]
            if not others:
                return
            nxt = self.choose([me] + others, True)
        if nxt is not me:
            self.switch(me, nxt)

    def switch(self, me, nxt):
        self.cur = nxt
        nxt.blocked = None
        if not nxt.started:
            nxt.started = True
            th = threading.Thread(target=self.body, args=(nxt,), daemon=True)
            nxt.thread = th
            th.start()
        else:
            nxt.sem.release()
        if not me.done:
            me.sem.acquire()

    def block(self, cond):
        me = self.cur
        if self.free:
            return
        while not cond():
            me.blocked = cond
            self.point(me, must_leave=True)
            me.blocked = None

    def body(self, t):
        sys.settrace(self.tracer)
        ex, fn, a, k, _, fut = t.job
        try:
            if fut.set_running_or_notify_cancel():
                try:
                    r = fn(*a, **k)
                except BaseException as e:
                    fut.set_exception(e)
                else:
                    fut.set_result(r)
        finally:
            sys.settrace(None)
            t.done = True
            if not self.free:
                try:
                    self.point(t, must_leave=True)
                except Deadlock:
                    pass

    def tracer(self, frame, event, arg):
        if self.free or not frame.f_code.co_filename.startswith(self.pkg):
            return None
        if self.line:
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line" and not self.free:
            self.point(self.cur)
        return self.local

    # ---- running
    def run(self, fn):
        """Runs fn() in the calling thread under control; returns its result as soon as it returns."""
        if self.line:
            sys.settrace(self.tracer)
        try:
            return fn()
        finally:
            sys.settrace(None)

    def drain(self):
        """Lets all unfinished jobs complete (after the result has been looked at)."""
        left = [t for t in self.threads if t is not self.main and not t.done]
        self.free = True
        for t in left:
            if not t.started:
                t.started = True
                threading.Thread(target=self.body, args=(t,), daemon=True).start()
            else:
                t.sem.release()
            for _ in range(20000):
                if t.done:
                    break
                threading.Event().wait(0.0005)
        return len(left)


class Future(cf.Future):
    def __init__(self, s):
        super().__init__()
        self._s = s

    def result(self, timeout=None):
        self._s().block(self.done)
        return super().result(timeout)

    def exception(self, timeout=None):
        self._s().block(self.done)
        return super().exception(timeout)


class Executor(cf.Executor):
    sched = None

    def __init__(self, max_workers=None, *a, **k):
        self._max, self._n, self._fs, self._down = max_workers or 4, 0, [], False

    def submit(self, fn, /, *args, **kwargs):
        if self._down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        s = Executor.sched
        f = Future(lambda: Executor.sched)
        self._n += 1
        t = _T(f"job{self._n}", (self, fn, args, kwargs, self._n, f))
        self._fs.append(f)
        s.threads.append(t)
        s.point(s.cur)
        return f

    def map(self, fn, *its, timeout=None, chunksize=1, **kw):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._down = True
        if cancel_futures:
            for f in self._fs:
                f.cancel()
        if wait and Executor.sched is not None:
            Executor.sched.block(lambda: all(f.done() for f in self._fs))


def _wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)
    if timeout is None and fs:
        if return_when == cf.FIRST_COMPLETED:
            Executor.sched.block(lambda: any(f.done() for f in fs))
        elif return_when == cf.FIRST_EXCEPTION:
            Executor.sched.block(lambda: all(f.done() for f in fs) or any(f.done() and not f.cancelled() and cf.Future.exception(f) is not None for f in fs))
        else:
            Executor.sched.block(lambda: all(f.done() for f in fs))
    d = {f for f in fs if f.done()}
    return cf._base.DoneAndNotDoneFutures(d, fs - d)


def _as_completed(fs, timeout=None):
    left = list(fs)
    while left:
        Executor.sched.block(lambda: any(f.done() for f in left))
        f = next(f for f in left if f.done())
        left.remove(f)
        yield f


class patched:
    """Replaces the thread pool of concurrent.futures (also names already imported into the given modules)."""

    def __init__(self, *mods):
        self.mods = mods

    def __enter__(self):
        import concurrent.futures.thread as cft
        rep = {cf.ThreadPoolExecutor: Executor, cf.wait: _wait, cf.as_completed: _as_completed}
        self.saved = []
        for m in (cf, cft, cf._base) + self.mods:
            for k, v in list(vars(m).items()):
                try:
                    r = rep.get(v)
                except TypeError:
                    continue
                if r is not None:
                    self.saved.append((m, k, v))
                    setattr(m, k, r)
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)


def explore(make, observe, bound, pkgdir, line=True, max_runs=10 ** 7, prefix=()):
    """All schedules of one operation. make(): fresh object under test (built under the given scheduler);
    observe(obj, sched): performs the operation(s) and returns the observation. Yields (observation, sched)."""
    prefix = list(prefix)
    runs = 0
    while True:
        s = Sched(prefix, bound, pkgdir, line)
        Executor.sched = s
        obj = make()
        try:
            ob = s.run(lambda: observe(obj, s))
        finally:
            s.drain()
        yield ob, s
        runs += 1
        if runs >= max_runs:
            return
        tr, op = s.trace_log, s.options
        i = len(tr) - 1
        while i >= 0 and tr[i] + 1 >= op[i]:
            i -= 1
        if i < 0:
            return
        prefix = tr[:i] + [tr[i] + 1]
