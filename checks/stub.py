"""Replacing what the code under test uses, however it refers to it: as an
attribute of a module, by a name imported from it, or imported where it is
needed."""
import contextlib
import sys


def modules(prefix="daisy", without=()):
    without = tuple(without)
    out = []
    for n, m in list(sys.modules.items()):
        if m is not None and belongs(n, (prefix,)) and not belongs(n, without):
            out.append(m)
    return out


def belongs(name, prefixes):
    return any(name == p or name.startswith(p + ".") for p in prefixes)


def caller(prefix, without, depth=2):
    frame = sys._getframe(depth)
    while frame.f_globals is globals() and frame.f_code.co_name in ("dispatch", "__call__"):
        frame = frame.f_back  # stubs may be nested
    name = frame.f_globals.get("__name__", "")
    return belongs(name, (prefix,)) and not belongs(name, without)


class Stubs:
    """with Stubs() as s: s.replace(...)"""

    def __init__(self, prefix="daisy", without=()):
        self.prefix, self.without = prefix, tuple(without)
        self.saved = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for obj, k, had, v in reversed(self.saved):
            if had:
                setattr(obj, k, v)
            else:
                delattr(obj, k)
        self.saved.clear()
        return False

    def put(self, obj, k, v):
        self.saved.append((obj, k, k in vars(obj), vars(obj).get(k)))
        setattr(obj, k, v)

    def names(self, real, fake):
        """names in the code under test that refer to something"""
        for m in modules(self.prefix, self.without):
            for k, v in list(vars(m).items()):
                if v is real and k != "__builtins__":
                    self.put(m, k, fake)

    def own(self, real, fake):
        """something that is itself part of the code under test"""
        for m in modules("daisy"):
            for k, v in list(vars(m).items()):
                if v is real:
                    self.put(m, k, fake)

    def function(self, module, name, fake):
        """a function of some library, when called by the code under test"""
        real = getattr(module, name)
        prefix, without = self.prefix, self.without

        def dispatch(*a, **kw):
            return (fake if caller(prefix, without) else real)(*a, **kw)

        self.names(real, fake)
        self.put(module, name, dispatch)

    def klass(self, module, name, fake):
        """a class of some library, when called by the code under test"""
        real = getattr(module, name)
        prefix, without = self.prefix, self.without

        class Meta(type(real)):
            def __call__(cls, *a, **kw):
                if cls is not Dispatch:
                    return super().__call__(*a, **kw)
                return (fake if caller(prefix, without) else real)(*a, **kw)

            def __instancecheck__(cls, x):
                return isinstance(x, real) or isinstance(fake, type) and isinstance(x, fake)

            def __subclasscheck__(cls, c):
                return issubclass(c, real) or isinstance(fake, type) and issubclass(c, fake)

        Dispatch = Meta(name, (real,), {})
        self.names(real, fake)
        self.put(module, name, Dispatch)


def thread_stubs(stubs, job):
    """threads and pools of threads, as the code under test may use them, run jobs:
    job(f) starts one, .get() waits for it and gives (value, None) or (None, exception), .ready() tells if it is over,
    .late() (optional) tells if it is not over within some time"""
    import concurrent.futures
    import concurrent.futures.thread
    import multiprocessing.pool
    import threading

    def late(j, timeout):
        return timeout is not None and not j.ready() and (timeout <= 0 or hasattr(j, "late") and j.late())

    class Result:
        # what is raised if it takes too long
        error = multiprocessing.TimeoutError

        def __init__(self, f, callback=None, error_callback=None):
            self.job = job(f)
            self.callbacks = callback, error_callback

        def get(self, timeout=None):
            if late(self.job, timeout):
                raise self.error()
            value, exc = self.job.get()
            if exc is not None:
                raise exc
            return value

        result = get

        def wait(self, timeout=None):
            if not late(self.job, timeout):
                self.job.get()

        def ready(self):
            return self.job.ready()

        done = ready

        def running(self):
            return not self.job.ready()

        def successful(self):
            return self.job.get()[1] is None

        def exception(self, timeout=None):
            if late(self.job, timeout):
                raise self.error()
            return self.job.get()[1]

        def cancel(self):
            return False

        def cancelled(self):
            return False

        def add_done_callback(self, f):
            self.job.get()
            f(self)

    class Future(Result):
        error = concurrent.futures.TimeoutError

    class Pool:
        def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
            if processes is not None and processes < 1:
                raise ValueError("Number of processes must be at least 1")
            if initializer is not None:
                initializer(*initargs)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def apply_async(self, func, args=(), kwds=None, *a, **k):
            return Result(lambda: func(*args, **(kwds or {})))

        def apply(self, func, args=(), kwds=None):
            return self.apply_async(func, args, kwds).get()

        def map(self, func, iterable, chunksize=None):
            return [self.apply(func, (x,)) for x in iterable]

        def close(self):
            pass

        join = terminate = close

    class Executor:
        def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
            if max_workers is not None and max_workers < 1:
                raise ValueError("max_workers must be greater than 0")
            self.results = []
            if initializer is not None:
                initializer(*initargs)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.shutdown()
            return False

        def submit(self, fn, /, *args, **kwargs):
            self.results.append(Future(lambda: fn(*args, **kwargs)))
            return self.results[-1]

        def map(self, fn, *its, timeout=None, chunksize=1):
            return [self.submit(fn, *x).result() for x in zip(*its)]

        def shutdown(self, wait=True, *, cancel_futures=False):
            if wait:
                for r in self.results:
                    r.job.get()

    class Thread:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            self.f = target, args, kwargs or {}
            self.name, self.daemon, self.ident = name or "Thread-1", bool(daemon), None
            self.job = None

        def run(self):
            f, args, kwargs = self.f
            if f is not None:
                f(*args, **kwargs)

        def start(self):
            self.ident = 1
            self.job = job(self.run)

        def join(self, timeout=None):
            if not late(self.job, timeout):
                self.job.get()

        def is_alive(self):
            return self.job is not None and not self.job.ready()

    stubs.klass(multiprocessing.pool, "ThreadPool", Pool)
    real = concurrent.futures.ThreadPoolExecutor
    stubs.names(real, Executor)
    stubs.klass(concurrent.futures.thread, "ThreadPoolExecutor", Executor)
    stubs.put(concurrent.futures, "ThreadPoolExecutor", concurrent.futures.thread.ThreadPoolExecutor)
    stubs.klass(threading, "Thread", Thread)
