"""
A process pool under a controlled scheduler.

ControlledPool has the interface of multiprocessing.pool.Pool. Its workers are
real forked processes that receive pickled chunks, but the scheduler decides
how tasks are grouped into chunks, which worker runs which chunk and in what
order chunks are run and completed. Every call's chunk count is recorded.
"""
import contextlib
import itertools
import multiprocessing.pool
import os
import pickle
import signal
import struct

import numpy as np


class Schedule:
    """chunks: number of chunks; assign[i]: worker of chunk i; order: run order."""

    def __init__(self, chunks, assign, order, seed=0):
        self.chunks, self.assign, self.order, self.seed = chunks, list(assign), list(order), seed

    def fit(self, n):
        """Boundaries of at most self.chunks chunks of n tasks, with worker and order."""
        k = max(1, min(self.chunks, n)) if n else 0
        cuts = [round(i * n / k) for i in range(k + 1)] if k else [0]
        order = [i for i in self.order if i < k]
        return cuts, [self.assign[i] for i in range(k)], order


def schedules(k, workers):
    """All (assignment up to worker symmetry, run order) for k chunks."""
    def rgs(i, top):
        if i == k:
            yield ()
            return
        for w in range(min(top + 1, workers - 1) + 1):
            for rest in rgs(i + 1, max(top, w)):
                yield (w,) + rest
    for a in rgs(0, -1):
        for o in itertools.permutations(range(k)):
            yield a, o


def _read(fd, n):
    buf = b''
    while len(buf) < n:
        b = os.read(fd, n - len(buf))
        if not b:
            raise EOFError()
        buf += b
    return buf


def send(fd, obj):
    data = obj if isinstance(obj, bytes) else pickle.dumps(obj)
    data = struct.pack('<Q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def recv(fd):
    n, = struct.unpack('<Q', _read(fd, 8))
    return pickle.loads(_read(fd, n))


class Worker:
    live = []

    def __init__(self, seed, initializer, initargs):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(0)
                os.close(w1)
                os.close(r2)
                for w in Worker.live:
                    for fd in (w.out, w.inp):
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                np.random.seed(seed)
                if initializer:
                    initializer(*initargs)
                while True:
                    star, f, chunk = recv(r1)
                    res = []
                    try:
                        for a in chunk:
                            res.append(f(*a) if star == 1 else f(a) if star == 0 else f(*a[0], **a[1]))
                        out = (True, res)
                    except Exception as e:
                        out = (False, e)
                    try:
                        send(w2, out)
                    except Exception as e:
                        send(w2, (False, RuntimeError('unpicklable result: %r' % e)))
            except BaseException:
                pass
            os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.out, self.inp = pid, w1, r2
        Worker.live.append(self)

    def call(self, star, f, chunk):
        send(self.out, pickle.dumps((star, f, chunk)))
        return recv(self.inp)

    def stop(self):
        if self in Worker.live:
            Worker.live.remove(self)
            for fd in (self.out, self.inp):
                os.close(fd)
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except OSError:
                pass


class Result:
    def __init__(self, ok, val):
        self.ok, self.val = ok, val

    def get(self, timeout=None):
        if not self.ok:
            raise self.val
        return self.val

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.ok


class ControlledPool:
    schedule = None
    log = None

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.n = processes or os.cpu_count() or 1
        if self.n < 1:
            raise ValueError('Number of processes must be at least 1')
        self.init = (initializer, initargs)
        self.workers = {}
        self.closed = False

    def _worker(self, i):
        i = i % self.n
        if i not in self.workers:
            self.workers[i] = Worker(self.schedule.seed + 97 * i + 1, *self.init)
        return self.workers[i]

    def _run(self, star, f, items):
        if self.closed:
            raise ValueError('Pool not running')
        items = list(items)
        cuts, assign, order = self.schedule.fit(len(items))
        self.log.append((len(items), len(assign)))
        results = [None] * len(items)
        done = []
        err = None
        for c in order:
            lo, hi = cuts[c], cuts[c + 1]
            ok, val = self._worker(assign[c]).call(star, f, items[lo:hi])
            if not ok:
                err = err or val
                continue
            results[lo:hi] = val
            done += list(range(lo, hi))
        return err, results, done

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        err, res, _ = self._run(1, func, [tuple(a) for a in iterable])
        return Result(err is None, err or res)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        err, res, _ = self._run(0, func, iterable)
        return Result(err is None, err or res)

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    def imap_unordered(self, func, iterable, chunksize=1):
        err, res, done = self._run(0, func, iterable)
        if err:
            raise err
        return iter([res[i] for i in done])

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        err, res, _ = self._run(2, func, [(tuple(args), dict(kwds))])
        if err is None and callback:
            callback(res[0])
        return Result(err is None, err or res[0])

    def close(self):
        self.closed = True

    def join(self):
        pass

    def terminate(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


@contextlib.contextmanager
def controlled(schedule):
    orig = multiprocessing.pool.Pool
    log = []
    cls = type('Pool', (ControlledPool,), dict(schedule=schedule, log=log))
    multiprocessing.pool.Pool = cls
    try:
        yield log
    finally:
        multiprocessing.pool.Pool = orig
        for w in list(Worker.live):
            w.stop()
