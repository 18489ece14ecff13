"""Stand-in process pools: tasks run in this process on pickled copies, and are recorded.

Pickling gives the tasks the isolation real workers have (no shared arrays), while making
schedules deterministic: `order` may permute the execution order of the tasks.
"""
import concurrent.futures
import concurrent.futures.process
import contextlib
import functools
import multiprocessing
import multiprocessing.pool
import os
import pickle
import sys


class FakePool:
    def __init__(self, log, order, processes=None, *a, **k):
        self._processes = processes
        self.rec = {"processes": processes, "tasks": 0}
        self.order = order
        log.append(self.rec)

    def _run(self, f, items, star):
        blobs = [pickle.dumps((f, x)) for x in items]
        self.rec["tasks"] += len(blobs)
        idx = list(range(len(blobs)))
        if self.order is not None:
            self.order.shuffle(idx)
        out = [None] * len(blobs)
        for i in idx:
            g, x = pickle.loads(blobs[i])
            r = g(*x) if star else g(x)
            out[i] = pickle.loads(pickle.dumps(r))
        return out

    def starmap(self, f, it, chunksize=None):
        return self._run(f, list(it), True)

    def map(self, f, it, chunksize=None):
        return self._run(f, list(it), False)

    def imap(self, f, it, chunksize=None):
        return iter(self._run(f, list(it), False))

    def starmap_async(self, f, it, *a, **k):
        return _Done(self._run(f, list(it), True))

    def map_async(self, f, it, *a, **k):
        return _Done(self._run(f, list(it), False))

    def apply(self, f, args=(), kwds=None):
        return self._run(f, [args], True)[0]

    def apply_async(self, f, args=(), kwds=None, *a):
        return _Done(self._run(f, [args], True)[0])

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Done:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass


class _Ctx:
    def __init__(self, real, log, order):
        self._real, self._log, self._order = real, log, order

    def Pool(self, processes=None, *a, **k):
        return FakePool(self._log, self._order, processes)

    def __getattr__(self, n):
        return getattr(self._real, n)


class FakeExecutor(FakePool):
    def __init__(self, log, order, max_workers=None):
        super().__init__(log, order, max_workers)
        self._max_workers = max_workers

    def submit(self, fn, /, *args, **kwargs):
        f = concurrent.futures.Future()
        try:
            f.set_result(self._run(functools.partial(fn, **kwargs), [args], True)[0])
        except Exception as e:
            f.set_exception(e)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1, **k):
        return iter(self._run(fn, list(zip(*iterables)), True))

    def shutdown(self, wait=True, **k):
        pass


@contextlib.contextmanager
def recording(cores, order=None):
    log = []
    real_ctx = multiprocessing.get_context
    pool = lambda processes=None, *a, **k: FakePool(log, order, processes)
    executor = lambda max_workers=None, *a, **k: FakeExecutor(log, order, max_workers)
    swaps = [
        (multiprocessing.get_context, lambda method=None: _Ctx(real_ctx(method), log, order)),
        (multiprocessing.Pool, pool), (multiprocessing.pool.Pool, pool),
        (concurrent.futures.ProcessPoolExecutor, executor),
        (os.cpu_count, lambda: cores),
    ]
    mods = [multiprocessing, multiprocessing.pool, concurrent.futures, concurrent.futures.process, os]
    mods += [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "stcal" and m is not None]
    undo = []
    try:
        for m in mods:
            for k, v in list(vars(m).items()):
                for real, fake in swaps:
                    if v is real or (v == real and callable(v) and type(v) is type(real) and getattr(v, "__name__", 0) == getattr(real, "__name__", 1)):
                        undo.append((m, k, v))
                        setattr(m, k, fake)
                        break
        yield log
    finally:
        for m, k, v in undo:
            setattr(m, k, v)
