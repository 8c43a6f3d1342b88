"""multiprocessing.Pool and Manager under a controlled scheduler.

Workers are real forked processes; every operation on a shared object and
every hand-out of a chunk of tasks waits for the scheduler, which explores
the orders one after the other (depth first over the recorded choices).
"""
import itertools
import multiprocessing as mp
import os
import pickle
import traceback
from multiprocessing.reduction import ForkingPickler

_OBJECTS = {}
_IDS = itertools.count()
_CONN = None     # set in workers
SCHEDULE = None  # the Schedule in charge


def dumps(x):
    return bytes(ForkingPickler.dumps(x))


class NoSuchBranch(Exception):
    """the choices asked for at the start do not exist"""


class Schedule:
    """replays `prefix`, then takes the first enabled action; no more than
    `preemptions` switches away from a worker that could go on"""

    def __init__(self, prefix=(), preemptions=None, first=0):
        self.prefix = list(prefix)
        self.first = first
        self.preemptions = preemptions
        self.used = 0
        self.choices = []  # (index taken, number of options)
        self.trace = []
        self.last = None

    def choose(self, options):
        """options: list of (worker, what)"""
        if self.preemptions is not None and self.used >= self.preemptions:
            same = [o for o in options if o[0] == self.last]
            options = same or options[:1]
        i = len(self.choices)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= len(options):
            if i < self.first:
                raise NoSuchBranch()
            raise RuntimeError("schedule is not reproducible")
        o = options[k]
        if o[0] != self.last and any(x[0] == self.last for x in options):
            self.used += 1
        self.last = o[0]
        self.choices.append((k, len(options)))
        self.trace.append(o)
        return o

    def next_prefix(self):
        """the next one in depth first order, or None"""
        c = list(self.choices)
        while c:
            k, n = c.pop()
            if k + 1 < n:
                return [x for x, _ in c] + [k + 1]
        return None


class Shared:
    def __init__(self, kind):
        self.key = next(_IDS)
        self.pid = os.getpid()
        _OBJECTS[self.key] = kind()

    def __reduce__(self):
        return _lookup, (type(self), self.key, self.pid)

    def _call(self, name, *args):
        if os.getpid() == self.pid:
            return getattr(_OBJECTS[self.key], name)(*args)
        _CONN.send(("op", self.key, name, dumps(args)))
        ok, value = pickle.loads(_CONN.recv())
        if not ok:
            raise value
        return value


def _lookup(cls, key, pid):
    o = cls.__new__(cls)
    o.key, o.pid = key, pid
    return o


def _proxy(name):
    def f(self, *args):
        r = self._call(name, *args)
        return list(r) if name in ("keys", "values", "items") else r
    f.__name__ = name
    return f


class SharedDict(Shared):
    def __init__(self, *a, **k):
        super().__init__(lambda: dict(*a, **k))

    def __iter__(self):
        return iter(self.keys())


class SharedList(Shared):
    def __init__(self, *a):
        super().__init__(lambda: list(*a))

    def __iter__(self):
        return iter(self[:])


for _n in ("__setitem__", "__getitem__", "__delitem__", "__contains__",
           "__len__", "keys", "values", "items", "get", "pop", "update",
           "setdefault", "clear", "copy", "popitem"):
    setattr(SharedDict, _n, _proxy(_n))
for _n in ("__setitem__", "__getitem__", "__delitem__", "__contains__",
           "__len__", "append", "extend", "pop", "insert", "remove", "sort",
           "reverse", "index", "count"):
    setattr(SharedList, _n, _proxy(_n))


class Manager:
    def dict(self, *a, **k):
        return SharedDict(*a, **k)

    def list(self, *a):
        return SharedList(*a)

    def __enter__(self):
        return self

    def __exit__(self, *e):
        pass

    def shutdown(self):
        pass


def _work(conn, initializer, initargs):
    global _CONN
    _CONN = conn
    try:
        if initializer:
            initializer(*initargs)
        while True:
            job = conn.recv()
            if job is None:
                break
            try:
                func, star, args = pickle.loads(job)
                out = [func(*a) if star else func(a) for a in args]
                conn.send(("done", dumps((True, out))))
            except Exception as e:
                e.worker_traceback = traceback.format_exc()
                try:
                    msg = dumps((False, e))
                except Exception:
                    msg = dumps((False, RuntimeError(repr(e))))
                conn.send(("done", msg))
    except (EOFError, OSError):
        pass
    finally:
        os._exit(0)


class Result:
    def __init__(self, value):
        self.value = value

    def get(self, timeout=None):
        return self.value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class Pool:
    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None):
        self.n = processes or os.cpu_count()
        ctx = mp.get_context("fork")
        self.conns, self.procs = [], []
        for _ in range(self.n):
            a, b = ctx.Pipe()
            p = ctx.Process(target=_work, args=(b, initializer, initargs))
            p.daemon = False
            p.start()
            b.close()
            self.conns.append(a)
            self.procs.append(p)

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self.terminate()

    def close(self):
        pass

    def join(self):
        self.terminate()

    def terminate(self):
        for p in self.procs:
            p.kill()
        for p in self.procs:
            p.join()
        for c in self.conns:
            c.close()
        self.conns, self.procs = [], []

    def _run(self, func, items, chunksize, star=False, ordered=True):
        items = list(items)
        if not items:
            return []
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            if extra:
                chunksize += 1
        chunks = [items[i:i + chunksize]
                  for i in range(0, len(items), chunksize)]
        jobs = [dumps((func, star, c)) for c in chunks]
        out = {}
        order = []
        todo = list(range(len(jobs)))
        busy = {}     # worker -> chunk
        blocked = {}  # worker -> message waiting for the scheduler
        fresh = set(range(self.n))
        error = None
        while todo or busy:
            # every busy worker runs until it needs the scheduler
            for w in list(busy):
                if w not in blocked:
                    try:
                        blocked[w] = self.conns[w].recv()
                    except EOFError:
                        raise RuntimeError("a worker died")
            options = [(w, "go") for w in sorted(blocked)]
            if todo:
                idle = [w for w in range(self.n) if w not in busy]
                first = [w for w in idle if w in fresh][:1]
                options += [(w, "take") for w in idle
                            if w not in fresh or w in first]
            # a worker that goes on comes first
            last = SCHEDULE.last
            options.sort(key=lambda o: (o[0] != last, o))
            w, what = SCHEDULE.choose(options)
            if what == "take":
                fresh.discard(w)
                busy[w] = todo.pop(0)
                self.conns[w].send(jobs[busy[w]])
                continue
            msg = blocked.pop(w)
            if msg[0] == "done":
                ok, value = pickle.loads(msg[1])
                i = busy.pop(w)
                if ok:
                    out[i] = value
                    order.append(i)
                else:
                    error = error or value
            else:
                _, key, name, args = msg
                try:
                    r = getattr(_OBJECTS[key], name)(*pickle.loads(args))
                    if name in ("keys", "values", "items"):
                        r = list(r)
                    reply = dumps((True, r))
                except Exception as e:
                    reply = dumps((False, e))
                self.conns[w].send(reply)
        if error is not None:
            raise error
        seq = sorted(out) if ordered else order
        return [v for i in seq for v in out[i]]

    def map(self, func, iterable, chunksize=None):
        return self._run(func, iterable, chunksize)

    def starmap(self, func, iterable, chunksize=None):
        return self._run(func, iterable, chunksize, star=True)

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        r = self._run(func, iterable, chunksize)
        if callback:
            callback(r)
        return Result(r)

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        r = self._run(func, iterable, chunksize, star=True)
        if callback:
            callback(r)
        return Result(r)

    def imap(self, func, iterable, chunksize=1):
        return iter(self._run(func, iterable, chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        return iter(self._run(func, iterable, chunksize, ordered=False))

    def apply(self, func, args=(), kwds=None):
        assert not kwds
        return self._run(func, [tuple(args)], 1, star=True)[0]

    def apply_async(self, func, args=(), kwds=None, callback=None,
                    error_callback=None):
        r = self.apply(func, args, kwds)
        if callback:
            callback(r)
        return Result(r)


def explore(run, preemptions=None, first=()):
    """run() once for each schedule whose first choices are `first`; yields
    the Schedule after each"""
    global SCHEDULE
    prefix = list(first)
    while prefix is not None and prefix[:len(first)] == list(first):
        SCHEDULE = Schedule(prefix, preemptions, len(first))
        _OBJECTS.clear()
        run(SCHEDULE)
        yield SCHEDULE
        prefix = SCHEDULE.next_prefix()
