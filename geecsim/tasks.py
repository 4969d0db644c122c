"""Tasks of thread pools, run one at a time in a seeded order.

geec has no pool today; code that gets one is still run deterministically."""
import concurrent.futures as cf
import concurrent.futures.thread  # noqa
import itertools
import random

_r = random.Random(0)
Real = cf.Future


def seed(x):
    global _r
    _r = random.Random(x)


class Future(Real):
    pool = None
    count = itertools.count()

    def __init__(self):
        super().__init__()
        self.n = next(self.count)

    def result(self, timeout=None):
        self._drive()
        return super().result(timeout)

    def exception(self, timeout=None):
        self._drive()
        return super().exception(timeout)

    def _drive(self):
        while not self.done() and self.pool and self.pool.queue:
            self.pool.step()


class Pool(cf.Executor):
    """instead of ThreadPoolExecutor: what is submitted runs later, in any order, in one thread"""

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.queue, self.down = [], False
        self.max = max_workers or 8
        if initializer:
            initializer(*initargs)

    def submit(self, fn, /, *args, **kwargs):
        if self.down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = Future()
        f.pool = self
        self.queue.append((f, fn, args, kwargs))
        while self.queue and _r.random() < 0.3:
            self.step()
        return f

    def step(self):
        # a worker takes the first of the queue, but any of those taken may be the first to end
        f, fn, a, k = self.queue.pop(_r.randrange(min(self.max, len(self.queue))))
        if not f.set_running_or_notify_cancel():
            return
        try:
            v = fn(*a, **k)
        except BaseException as e:
            f.set_exception(e)
            if not isinstance(e, Exception):
                raise
        else:
            f.set_result(v)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.down = True
        if cancel_futures:
            for f, *_ in self.queue:
                f.cancel()
        while self.queue:
            self.step()


def as_completed(fs, timeout=None):
    order = set(fs)
    if any(not isinstance(f, Future) for f in order):
        yield from _as_completed(order, timeout)
        return
    order = sorted(order, key=lambda f: f.n)
    done = [f for f in order if f.done()]
    _r.shuffle(done)
    seen = set()
    while True:
        for f in done:
            seen.add(f)
            yield f
        todo = [f for f in order if f not in seen]
        if not todo:
            return
        done = [f for f in todo if f.done()]
        _r.shuffle(done)
        if not done:
            if not todo[0].pool.queue:
                todo[0].result(timeout or 60)
            else:
                todo[0].pool.step()


def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    for f in list(fs):
        if isinstance(f, Future):
            f._drive()
    return _wait(fs, timeout, return_when)


_as_completed, _wait = cf.as_completed, cf.wait


def patch():
    cf.ThreadPoolExecutor = cf.thread.ThreadPoolExecutor = Pool
    cf.as_completed = cf._base.as_completed = as_completed
    cf.wait = cf._base.wait = wait
