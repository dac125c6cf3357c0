"""
A controlled stand-in for multiprocessing pools: the check decides the order in which tasks complete.

A task runs on pickled copies of its function and arguments (process isolation), in its place in the completion order,
and its result is pickled back.  imap_unordered yields in completion order; map, starmap and imap return in submission
order; callbacks of the asynchronous calls run in completion order.  Every order of n tasks is enumerated by the caller
through `orders`.
"""
import contextlib
import itertools
import logging
import multiprocessing
import multiprocessing.pool
import pickle
import queue
import sys
import threading


def orders(n):
    return itertools.permutations(range(n))


class Log:
    def __init__(self):
        self.pools = 0
        self.tasks = 0
        self.batches = []          # number of tasks of each parallel call
        self.calls = []


class _Result:
    def __init__(self, pool, k):
        self.pool, self.k = pool, k

    def get(self, timeout=None):
        self.pool._drain()
        ok, v = self.pool.done[self.k]
        if not ok:
            raise v
        return v

    def wait(self, timeout=None):
        self.pool._drain()

    def ready(self):
        return self.k in self.pool.done

    def successful(self):
        self.pool._drain()
        return self.pool.done[self.k][0]


class FakePool:
    order = None          # callable(number of tasks, index of the parallel call) -> permutation
    log = None
    fault = None

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, **kw):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        type(self).log.pools += 1
        self.pending, self.done, self.results = [], {}, {}
        self.n = 0
        self.closed = False
        if initializer:
            initializer(*initargs)

    # -- one task -------------------------------------------------------------------------------------------------
    def _execute(self, fn, args, kwds):
        blob = pickle.dumps((fn, args, kwds))
        root = logging.getLogger()
        handlers, level, disabled = list(root.handlers), root.level, root.manager.disable
        try:
            f, a, k = pickle.loads(blob)
            out = f(*a, **(k or {}))
            return True, pickle.loads(pickle.dumps(out))
        except Exception as e:
            return False, e
        finally:
            root.handlers, root.manager.disable = handlers, disabled
            root.setLevel(level)
            type(self).log.tasks += 1

    def _perm(self, n):
        cls = type(self)
        k = len(cls.log.batches)
        cls.log.batches.append(n)
        p = list(cls.order(n, k)) if cls.order else list(range(n))
        assert sorted(p) == list(range(n))
        return p

    def _batch(self, fn, argses):
        """yield (submission index, ok, value) in completion order"""
        if self.closed:
            raise ValueError("Pool not running")
        argses = list(argses)
        for i in self._perm(len(argses)):
            ok, v = self._execute(fn, argses[i], None)
            yield i, ok, v

    def _all(self, fn, argses):
        out = {}
        for i, ok, v in self._batch(fn, argses):
            if not ok:
                raise v
            out[i] = v
        return [out[i] for i in sorted(out)]

    # -- the interface of multiprocessing.Pool --------------------------------------------------------------------
    def map(self, func, iterable, chunksize=None):
        return self._all(func, [(a,) for a in iterable])

    def starmap(self, func, iterable, chunksize=None):
        return self._all(func, [tuple(a) for a in iterable])

    def imap(self, func, iterable, chunksize=1):
        return iter(self._all(func, [(a,) for a in iterable]))

    def imap_unordered(self, func, iterable, chunksize=1):
        def gen():
            for i, ok, v in self._batch(func, [(a,) for a in iterable]):
                if not ok:
                    raise v
                yield v
        return gen()

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        if self.closed:
            raise ValueError("Pool not running")
        k = self.n
        self.n += 1
        # arguments are serialised when the task is submitted
        self.pending.append((k, func, pickle.loads(pickle.dumps((tuple(args), kwds)))
                             , callback, error_callback))
        return _Result(self, k)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(func, [(a,) for a in iterable], callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(func, [tuple(a) for a in iterable], callback, error_callback)

    def _async(self, func, argses, callback, error_callback):
        k = self.n
        self.n += 1
        try:
            self.done[k] = (True, self._all(func, argses))
            if callback:
                callback(self.done[k][1])
        except Exception as e:
            self.done[k] = (False, e)
            if error_callback:
                error_callback(e)
        return _Result(self, k)

    def _drain(self):
        if not self.pending:
            return
        todo, self.pending = self.pending, []
        for i in self._perm(len(todo)):
            k, fn, (a, kw), cb, ecb = todo[i]
            ok, v = self._execute(fn, a, kw)
            self.done[k] = (ok, v)
            if ok and cb:
                cb(v)
            if not ok and ecb:
                ecb(v)

    def close(self):
        self.closed = True

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        self._drain()

    def terminate(self):
        self.pending = []
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class _Queue(queue.Queue):
    def __reduce__(self):          # a proxy of a manager refers to the same queue in every process
        return _find, (id(self),)


_queues = {}


def _find(i):
    return _queues[i]


class FakeManager:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        _queues.clear()
        return False

    def Queue(self, maxsize=0):
        q = _Queue(maxsize)
        _queues[id(q)] = q
        return q

    JoinableQueue = Queue

    def list(self, x=()):
        return list(x)

    def dict(self, *a, **k):
        return dict(*a, **k)

    def Lock(self):
        return threading.Lock()

    def shutdown(self):
        pass

    def start(self, *a, **k):
        pass


class _Context:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        if name == "Pool":
            return FakePool
        if name == "Manager":
            return FakeManager
        return getattr(self._real, name)


@contextlib.contextmanager
def controlled(order=None):
    """inside, every pool of the code under test completes its tasks in the order given"""
    real_pool, real_manager, real_ctx = multiprocessing.Pool, multiprocessing.Manager, multiprocessing.get_context
    real_pp = multiprocessing.pool.Pool
    log = Log()
    FakePool.order = staticmethod(order) if order else None
    FakePool.log = log
    swapped = []
    for name, mod in list(sys.modules.items()):
        if mod is not None and (name.startswith("esat") or name.startswith("eval")):
            for attr, val in list(vars(mod).items()):
                if val in (real_pool, real_pp) if callable(val) else False:
                    swapped.append((mod, attr, val))
                    setattr(mod, attr, FakePool)
                elif callable(val) and val == real_manager:
                    swapped.append((mod, attr, val))
                    setattr(mod, attr, FakeManager)
    multiprocessing.Pool, multiprocessing.Manager = FakePool, FakeManager
    multiprocessing.get_context = lambda method=None: _Context(real_ctx(method))
    multiprocessing.pool.Pool = FakePool
    try:
        yield log
    finally:
        multiprocessing.Pool, multiprocessing.Manager, multiprocessing.get_context = real_pool, real_manager, real_ctx
        multiprocessing.pool.Pool = real_pp
        for mod, attr, val in swapped:
            setattr(mod, attr, val)


class Choices:
    """
    Depth-first enumeration of the answers of an environment: run(body) calls body(choose) once for every sequence of
    answers; choose(k) returns one of 0..k-1.
    """
    def __init__(self, limit=None):
        self.limit = limit
        self.runs = 0

    def run(self, body):
        stack = [[]]
        while stack:
            prefix = stack.pop()
            trace, sizes = [], []

            def choose(k):
                i = len(trace)
                c = prefix[i] if i < len(prefix) else 0
                if c >= k:
                    raise RuntimeError("the execution diverged from its prefix")
                trace.append(c)
                sizes.append(k)
                return c
            body(choose, trace)
            self.runs += 1
            for i in range(len(trace) - 1, len(prefix) - 1, -1):
                for alt in range(1, sizes[i]):
                    stack.append(trace[:i] + [alt])
