"""C30: runs in the same process do not influence each other"""
import contextlib
import inspect
import io

from symx import env
from symx.runner import Case
from . import full
from .drive import TOPOLOGIES, build, key
from .geom import Spec

ASSUMPTIONS = ["runs with the same inputs behave alike in a new process (the code is deterministic; checked by replays)"]
OUTSIDE = "more than two runs, larger tasks than stated; runs at the same time in several threads (only their schedulers are interleaved)"
STUBS = full.STUBS + ["'alone' means: module and class level state of daisy as after import"]


class Inputs:
    """inputs of a run, the same ones each time it is repeated"""

    def __init__(self, E, name):
        self.E, self.name, self.memo = E, name, {}

    def _get(self, kind, name, *args, **kw):
        if name not in self.memo:
            self.memo[name] = getattr(self.E, kind)(self.name + "." + name, *args, **kw)
        return self.memo[name]

    def int(self, name, *a, **kw):
        return self._get("int", name, *a, **kw)

    def cint(self, name, *a):
        return self._get("cint", name, *a)

    def choice(self, name, n):
        return self._get("choice", name, n)

    def flag(self, name):
        return self._get("flag", name)

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def __getattr__(self, a):
        return getattr(self.E, a)


def same(E, a, b, what):
    """equal observations (nested lists of numbers and texts)"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        E.check(len(a) == len(b), "%s: %d instead of %d" % (what, len(b), len(a)))
        for x, y in zip(a, b):
            same(E, x, y, what)
        return
    E.check(a == b, what)


# --- kinds of runs: generators that yield after each step and record in log


class Run:
    def __init__(self, I, tasks=None):
        self.I, self.log = I, []
        self.tasks = tasks
        self.given = None

    def go(self):
        for _ in self.steps():
            pass
        return self


def region(roi):
    return [list(roi.begin), list(roi.end)]


class Graph(Run):
    """blocks and dependencies of tasks with symbolic geometry"""

    def __init__(self, I, dims, wmax, cmax, nmax, two, fits=("valid", "overhang", "shrink"), tasks=None):
        super().__init__(I, tasks)
        self.args = dims, wmax, cmax, nmax, two
        self.fits = fits

    def make(self):
        dims, wmax, cmax, nmax, two = self.args
        I = self.I
        fit = I.pick("fit", self.fits)
        conflict = I.flag("conflict")
        a = Spec(I, "a", dims, wmax, cmax, nmax, fit, conflict)
        tasks = [a.task]
        if two:
            b = Spec(I, "b", dims, wmax, cmax, nmax, fit, False, upstream=[a.task])
            tasks.append(b.task)
        return tasks

    def steps(self):
        from daisy.dependency_graph import DependencyGraph

        if self.tasks is None:
            self.tasks = self.make()
        g = DependencyGraph(self.tasks)
        yield
        for t in self.tasks:
            self.log.append(["number of blocks", g.num_blocks(t.task_id)])
            for b, _ in g.task_dependency_graphs[t.task_id].enumerate_all_dependencies():
                self.log.append([list(b.block_id), region(b.read_roi), region(b.write_roi),
                                 sorted(key(x) for x in g.upstream(b)), sorted(key(x) for x in g.downstream(b))])
                yield
        for t, (n, gen) in g.roots().items():
            self.log.append(["roots of " + t, n, [key(b) for b in gen]])


SHAPES = ("chain2", "pair", "free2", "cross")


class Schedule(Run):
    """a scheduler; blocks are processed in a fixed order, any may fail"""

    def __init__(self, I, shapes=SHAPES, rmax=1, fails=1, check=False, tasks=None, stop=False):
        super().__init__(I, tasks)
        self.shapes, self.rmax, self.fails, self.check, self.stop = shapes, rmax, fails, check, stop

    def make(self):
        I = self.I
        spec = TOPOLOGIES[I.pick("topology", self.shapes)]
        check = {d["name"]: self.check_function for d in spec} if self.check else None
        return build(spec, I.choice("retries", self.rmax + 1), check, process=self.process)

    def check_function(self, block):
        self.log.append(["check", key(block)])
        return self.I.flag("done.%s%d" % key(block))

    def process(self, block):
        pass

    def steps(self):
        from daisy import BlockStatus
        from daisy.scheduler import Scheduler

        if self.tasks is None:
            self.tasks = self.make()
        s = Scheduler(self.tasks)
        fails = self.fails
        n = 0
        yield
        while True:
            ready = sorted(t.task_id for t in s.get_ready_tasks())
            self.log.append(["ready", ready])
            blocks = [b for b in (s.acquire_block(t) for t in ready) if b is not None]
            if not blocks and not ready:
                break
            yield
            for b in blocks:
                ok = not (fails > 0 and self.I.flag("fail%d" % n))
                n += 1
                fails -= not ok
                self.log.append([key(b), str(b.status), ok])
                if self.stop and self.I.flag("stop%d" % n):
                    return
                b.status = BlockStatus.SUCCESS if ok else BlockStatus.FAILED
                s.release_block(b)
                yield
        for t, st in s.task_states.items():
            self.log.append([t, str(st)])


class Serial(Schedule):
    """run_blockwise(multiprocessing=False); user code may mark a block as
    failed or raise"""

    def __init__(self, I, outcomes=("ok", "failed"), **kw):
        super().__init__(I, **kw)
        self.outcomes = outcomes

    def process(self, block):
        from daisy import BlockStatus

        n = len(self.log)
        o = self.I.pick("outcome%d" % n, self.outcomes) if self.left > 0 else "ok"
        self.log.append([key(block), o])
        if o != "ok":
            self.left -= 1
        if o == "failed":
            block.status = BlockStatus.FAILED
        elif o == "raise":
            raise ValueError("process function")

    def steps(self):
        import daisy

        self.left = self.fails
        if self.tasks is None:
            self.tasks = self.make()
        self.given = list(self.tasks[-1:])  # the others are found
        want = [t.task_id for t in self.given], [(t.task_id, [u.task_id for u in t.upstream_tasks]) for t in self.tasks]
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                states = daisy.run_blockwise(self.given, multiprocessing=False)
                self.log.append([[t, str(s)] for t, s in sorted(states.items())])
            except ValueError:
                self.log.append("raised")
        self.log.append(out.getvalue())
        got = [t.task_id for t in self.given], [(t.task_id, [u.task_id for u in t.upstream_tasks]) for t in self.tasks]
        self.I.check(got == want, "the tasks given to run_blockwise were changed: %s" % (got,))
        yield


class Once(full.Stack):
    """a whole multiprocessing run; whose turn it is is fixed"""

    def __init__(self, I, run, topo, rmax, fails, stop):
        self.run_ = run
        self.may_stop = stop
        super().__init__(Fixed(I), topo=topo, workers=1, rmax=rmax, fails=fails, idle=0)

    def idle(self, timeout):
        if self.may_stop and not self.event.is_set() and self.E.flag("stop%d" % self.n):
            # the run is interrupted
            self.event.set()
            self.may_stop = False
        super().idle(timeout)

    def end(self, states):
        log = self.run_.log
        log.append([[list(a.bid), a.result] for a in self.attempts])
        log.append([[t, str(s)] for t, s in sorted(states.items())])
        log.append([[list(k), repr(e)] for k, e, w in self.failures])
        log.append([[p.task, p.worker.context.get("task_id")] for p in self.procs])
        ids = [p.worker.worker_id for p in self.procs]
        self.E.check(len(set(ids)) == len(ids), "worker ids are not unique")


class Fixed:
    """the first of the possible turns"""

    def __init__(self, I):
        self.I = I

    def pick(self, name, seq):
        if name.startswith("turn"):
            return seq[0]
        return self.I.pick(name, seq)

    def reach(self, label):
        pass

    def observe(self, *x):
        pass

    def __getattr__(self, a):
        return getattr(self.I, a)


class Multi(Run):
    def __init__(self, I, shapes, rmax=1, fails=1, stop=False):
        super().__init__(I)
        self.args = shapes, rmax, fails, stop

    def steps(self):
        shapes, rmax, fails, stop = self.args
        Once(self.I, self, self.I.pick("topology", shapes), rmax, fails, stop)
        yield


KINDS = dict(Graph=Graph, Schedule=Schedule, Serial=Serial, Multi=Multi)


def after(E, first, second, a, b):
    """a run, alone and after another one"""
    X, Y = Inputs(E, "first"), Inputs(E, "second")
    env.reset()
    alone = KINDS[second](Y, **b).go().log
    env.reset()
    one = KINDS[first](X, **a).go()
    two = KINDS[second](Y, **b).go()
    same(E, alone, two.log, "a run after another one")
    E.reach("compared")
    E.observe(len(one.log), len(alone))


def again(E, kind, a):
    """the same tasks are run again, with other outcomes"""
    X, Y = Inputs(E, "first"), Inputs(E, "second")
    one = KINDS[kind](X, **a)
    runs = [one]

    class Shared(Inputs):
        """inputs that determine the tasks come from the first run"""

        def _get(self, k, name, *args, **kw):
            if name in X.memo and (name == "topology" or name == "retries"):
                return X.memo[name]
            return super()._get(k, name, *args, **kw)

    Y = Shared(E, "second")
    # the tasks of the first run call what is active
    env.reset()
    one.process, one.check_function = _forward(runs, "process", one), _forward(runs, "check_function", one)
    one.go()
    two = KINDS[kind](Y, tasks=one.tasks, **a)
    runs[0] = two
    two.go()
    env.reset()
    alone = KINDS[kind](Y, **a).go()
    same(E, alone.log, two.log, "the same tasks run a second time")
    E.reach("compared")
    E.observe(len(one.log), len(alone.log))


def _forward(runs, name, one):
    own = getattr(type(one), name)

    def call(block):
        return own(runs[0], block)

    return call


def interleaved(E, a, b, steps):
    """two schedulers at the same time"""
    X, Y = Inputs(E, "first"), Inputs(E, "second")
    env.reset()
    alone = [Schedule(I, **k).go().log for I, k in ((X, a), (Y, b))]
    env.reset()
    runs = [Schedule(X, **a), Schedule(Y, **b)]
    gens = [r.steps() for r in runs]
    left = [0, 1]
    n = 0
    while left:
        i = left[0] if len(left) == 1 or n >= steps else E.choice("who%d" % n, 2)
        n += 1
        try:
            next(gens[i])
        except StopIteration:
            left.remove(i)
    for i in range(2):
        same(E, alone[i], runs[i].log, "a run at the same time as another one")
    E.reach("compared")
    E.observe(len(alone[0]), len(alone[1]))


def handlers(E, n, runs):
    """log messages are shown in the same way after every run"""
    import logging
    from daisy.cl_monitor import CLMonitor
    from daisy.server_observer import ServerObservee
    from .stub import Stubs
    import tqdm

    log = []

    class Stream(io.StringIO):
        def __init__(self, tty):
            super().__init__()
            self.tty = tty

        def isatty(self):
            return self.tty

        def write(self, text):
            if text.strip():
                log.append((self, text.strip()))
            return len(text)

    class Handler(logging.StreamHandler):
        @property
        def stream(self):
            depths.append(len(inspect.stack(0)))
            return self.to

        @stream.setter
        def stream(self, x):
            self.to = x

    def write(cls, text, file=None, end="\n", nolock=False):
        file.write(text + end)

    depths, first = [], None
    saved = list(logging.root.handlers)
    kinds = [E.pick("handler%d" % i, ("terminal", "file", "other")) for i in range(n)]
    hs = [Handler(Stream(k == "terminal")) if k != "other" else logging.NullHandler() for k in kinds]
    try:
        logging.root.handlers[:] = hs
        with Stubs() as stubs:
            stubs.put(tqdm.std.tqdm, "write", classmethod(write))
            for r in range(runs):
                server = ServerObservee()
                with contextlib.redirect_stdout(io.StringIO()):
                    CLMonitor(server)
                    server.notify_server_exit()
                E.check(len(logging.root.handlers) == n, "number of logging handlers")
                log.clear()
                depths.clear()
                for h in list(logging.root.handlers):
                    h.handle(logging.LogRecord("x", logging.ERROR, "f", 1, "message %d", (r,), None))
                want = [(h.to, "message %d" % r) for h in hs if isinstance(h, Handler)]
                E.check(log == want, "after run %d, %d messages are shown, %d expected" % (r + 1, len(log), len(want)))
                d = max(depths, default=0)
                if first is None:
                    first = d
                E.check(d <= first, "logging takes more and more effort with every run")
                E.reach("compared")
    finally:
        logging.root.handlers[:] = saved
    E.observe(len(log))


def cases(tier):
    q = tier == "quick"
    out = []

    def add(fn, bounds, **kw):
        out.append(Case(fn, reach=["compared"], module="checks.c30", bounds=bounds, **kw))

    g1 = dict(dims=1, wmax=2, cmax=1, nmax=2, two=False)
    g2 = dict(dims=1, wmax=2, cmax=1, nmax=2, two=True)
    small = dict(dims=1, wmax=1, cmax=1, nmax=2, two=False)
    add("after", "two tasks of the same name, 1-D, any offsets, write shapes 1..2, contexts 0..1, up to 2 blocks",
        first="Graph", second="Graph", a=g1, b=g1)
    add("after", "pairs of tasks of the same names, 1-D, any offsets, contexts 0..1, up to 2 blocks",
        first="Graph", second="Graph", a=dict(small, fits=("valid", "shrink")), b=dict(g2, wmax=1, fits=("shrink",)))
    add("after", "schedulers of two of the topologies %s, one failure each, retries 0..1" % (SHAPES,),
        first="Schedule", second="Schedule", a=dict(stop=True), b={})
    add("after", "serial runs of two of the topologies, one failure or exception each, skipped blocks",
        first="Serial", second="Serial", a=dict(outcomes=("ok", "failed", "raise")), b=dict(check=True, shapes=("chain2", "pair")))
    add("after", "multiprocessing runs of two of the topologies, one failure each; the first may be interrupted",
        first="Multi", second="Multi", a=dict(shapes=("chain2", "pair"), stop=True), b=dict(shapes=("chain2", "pair", "free2")))
    add("after", "a serial run after a multiprocessing run", first="Multi", second="Serial", a=dict(shapes=("chain2", "pair")), b={})
    add("again", "the same tasks scheduled twice", kind="Schedule", a=dict(check=True, shapes=("chain2", "pair")))
    add("again", "the same tasks run serially twice", kind="Serial", a=dict(check=True, shapes=("chain2", "pair")))
    add("interleaved", "two schedulers of the topologies, alternating in all ways for 6 steps",
        a=dict(shapes=("chain2", "pair"), fails=1, rmax=0), b=dict(shapes=("chain2", "pair"), fails=1, rmax=1), steps=6)
    add("handlers", "up to 2 (thorough 3) logging handlers of any kind, 3 runs", n=2 if q else 3, runs=3)
    if not q:
        add("after", "pairs of tasks of the same names, 1-D, up to 2 blocks", first="Graph", second="Graph", a=g2, b=g2)
        add("after", "tasks of the same name, 2-D", first="Graph", second="Graph", a=small, b=dict(g1, dims=2, wmax=1))
        more = SHAPES + ("conflict2", "fork", "merge", "chain3", "beyond")
        add("after", "schedulers of two of the topologies %s" % (more,), first="Schedule", second="Schedule",
            a=dict(shapes=more, stop=True, check=True), b=dict(shapes=more))
        add("after", "serial runs of two of the topologies", first="Serial", second="Serial",
            a=dict(shapes=more, fails=2), b=dict(shapes=more, fails=1))
        add("after", "multiprocessing runs of two of the topologies", first="Multi", second="Multi",
            a=dict(shapes=more, stop=True), b=dict(shapes=more))
        add("interleaved", "two schedulers alternating in all ways for 10 steps",
            a=dict(shapes=SHAPES, fails=1, rmax=1), b=dict(shapes=SHAPES, fails=1, rmax=1), steps=10)
        add("again", "the same tasks scheduled twice", kind="Schedule", a=dict(check=True, shapes=more))
        add("again", "the same tasks run serially twice", kind="Serial", a=dict(check=True, shapes=more))
    return out
