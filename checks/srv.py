"""The real Server, Scheduler, BlockBookkeeper, TaskWorkerPools, WorkerPool and
Worker against symbolic worker processes: which worker does what and when,
outcomes, crashes and lost connections are symbolic.  Shared by C13, C14, C15
and C23; every assertion names the properties it belongs to."""
import contextlib
import multiprocessing
import multiprocessing.context
import multiprocessing.process
import pickle
import queue
import sys
import threading
import time as real_time
import types

from .stub import Stubs
from .drive import (DONE, FAILED, ORPHAN, READY, RUNNING, SKIPPED, TOPOLOGIES, WAITING, Reference, build, key)

ASSUMPTIONS = [
    "workers follow the protocol of daisy.Client (decided by C16): a request, then one final report per block, in order",
    "connections deliver messages in order and unchanged (C17); a closed connection is eventually noticed",
    "a worker process that ends while blocks are left to process ends abnormally (exit code not 0), as workers that exit "
    "normally are not replaced by design",
    "the dependency graph is as reported by DependencyGraph.upstream (decided by C04 - C06)",
]
OUTSIDE = ("more tasks, blocks, workers, crashes or retries than stated; threads inside tornado; real processes, sockets and "
           "clocks")
STUBS = [
    "TCPServer and streams: deliver messages, close and time out as the symbolic schedule says",
    "multiprocessing.Process: symbolic worker following the client protocol; multiprocessing.Queue: queue.Queue",
    "time.time: advances by the time-out given to get_message",
]


def worker_main():
    pass


class Clock:
    def __init__(self):
        self.now = 1000.0

    def __call__(self):
        return self.now


@contextlib.contextmanager
def patched(**names):
    """replace what the modules under test use: clock, process, mpqueue, tcp_server"""
    # daisy.tcp has its own clock and threads, see net.py
    with Stubs(without=["daisy.tcp"]) as stubs:
        if "clock" in names:
            for c in ("time", "monotonic", "perf_counter"):
                stubs.function(real_time, c, names["clock"])
            for c in ("time_ns", "monotonic_ns", "perf_counter_ns"):
                stubs.function(real_time, c, lambda: int(names["clock"]() * 10**9))
            stubs.function(real_time, "sleep", lambda s: None)
        if "tcp_server" in names:
            stubs.own(sys.modules["daisy.tcp.tcp_server"].TCPServer, names["tcp_server"])
        contexts = [multiprocessing.context.BaseContext] + multiprocessing.context.BaseContext.__subclasses__()
        if "process" in names:
            stubs.names(multiprocessing.Process, names["process"])
            stubs.put(multiprocessing, "Process", names["process"])
            for c in contexts:
                if "Process" in vars(c):
                    stubs.put(c, "Process", staticmethod(names["process"]))
            subclasses(stubs, names["process"])
        if "mpqueue" in names:
            stubs.names(multiprocessing.Queue, names["mpqueue"])
            stubs.put(multiprocessing, "Queue", names["mpqueue"])
            for c in contexts:
                if "Queue" in vars(c):
                    stubs.put(c, "Queue", lambda self, *a, **kw: names["mpqueue"](*a, **kw))
        yield


def subclasses(stubs, process):
    """instances of subclasses of Process are represented by stand-ins"""
    base = multiprocessing.process.BaseProcess
    real = dict(vars(base))

    def start(self):
        self._stand_in = process(target=self.run, args=(), kwargs={})
        self._stand_in.start()

    def method(k):
        def f(self, *a, **kw):
            p = self.__dict__.get("_stand_in")
            return real[k](self, *a, **kw) if p is None else getattr(p, k)(*a, **kw)

        return f

    def attribute(k):
        def get(self):
            p = self.__dict__.get("_stand_in")
            return real[k].fget(self) if p is None else getattr(p, k)

        return property(get)

    stubs.put(base, "start", start)
    for k in ("is_alive", "terminate", "kill", "join"):
        stubs.put(base, k, method(k))
    for k in ("exitcode", "pid", "ident"):
        stubs.put(base, k, attribute("pid" if k == "ident" else k))
    stubs.put(base, "close", lambda self: None)


def worker_of(target, args=(), kwargs=None):
    """the Worker object a process is started for"""
    seen = []

    def look(x, depth):
        if depth > 3 or any(x is y for y in seen):
            return None
        seen.append(x)
        if hasattr(x, "context") and hasattr(x, "worker_id"):
            return x
        more = [getattr(x, "__self__", None), getattr(x, "func", None), *(getattr(x, "args", None) or ())]
        if isinstance(x, multiprocessing.process.BaseProcess):
            more += list(vars(x).values())
        more += [c.cell_contents for c in getattr(x, "__closure__", None) or ()]
        more += list(getattr(x, "__defaults__", None) or ())
        for y in more:
            if y is not None:
                w = look(y, depth + 1)
                if w is not None:
                    return w

    for x in (target, *args, *(kwargs or {}).values()):
        w = look(x, 0)
        if w is not None:
            return w
    raise AttributeError("no worker found for process %r" % (target,))


class Stream:
    def __init__(self, world, worker):
        self.world = world
        self.worker = worker
        self.is_closed = False

    def closed(self):
        return self.is_closed

    def close(self):
        self.is_closed = True

    def send_message(self, message):
        from daisy.tcp import StreamClosedError

        if not self.is_closed:
            self.world.maybe_crash(self.worker, "send")
        elif type(message).__name__ == "SendBlock":
            self.world.chk("C14", False, "a worker that is gone gets a block")
        if self.is_closed:
            self.world.lost_reply(self.worker)
            raise StreamClosedError("worker", 0)
        if not self.worker.alive:
            self.world.lost_reply(self.worker)
            return  # sent, but never received
        self.world.to_client(self.worker, message)

    def __repr__(self):
        return "stream of %s" % self.worker.name


class WorkerProc:
    """stand-in for multiprocessing.Process: one symbolic worker"""

    def __init__(self, world, worker):
        self.world = world
        self.started = False
        self.alive = False
        self.exitcode = None
        self.pid = 1
        self.stream = None
        self.state = "new"  # new, waiting, holding, left, dead
        self.outbox = []
        self.block = None
        ctx = worker.context
        self.task = ctx["task_id"]
        self.context = ctx
        self.name = "%s%d" % (self.task, sum(1 for w in world.workers if w.task == self.task))

    def start(self):
        self.started = self.alive = True
        self.world.on_start(self)

    def is_alive(self):
        return self.alive

    def terminate(self):
        self.world.terminated(self)

    kill = terminate

    def join(self, timeout=None):
        self.world.chk("C15 C27", not self.alive, "waits for a worker that was not terminated", hard=True)

    def __repr__(self):
        return self.name


class World:
    main_function = staticmethod(worker_main)

    def __init__(self, E, prop, topo, workers=1, rmax=0, crashes=0, rogue=0, stop=False, order=0, check=(), idle=1,
                 fails=99, late_close=False, in_flight=False, tick=None, pace=0.05, burst=False):
        from daisy.scheduler import Scheduler
        from daisy.server_observer import ServerObserver
        from daisy.server import Server

        self.E, self.prop = E, prop
        self.crash_budget, self.rogue_budget, self.may_stop = crashes, rogue, stop
        self.fail_budget = fails
        self.idle_max = idle
        self.late_close = late_close
        self.in_flight = in_flight
        self.tick = tick
        self.pace = pace  # seconds between two messages
        self.burst = burst  # all workers that can ask for a block do so first
        self.known = False
        self.workers = []
        self.nstep = 0
        self.stuck = 0
        self.idle = 0
        self.stopped = False
        self.returned = False
        self.clock = Clock()
        self.log = []
        self.closed_pending = []  # exceptions of closed streams the server was not yet told about
        self.holder = {}  # block key -> worker the server gave it to, until the result was accepted or it was lost
        self.expect = None  # result that must reach the scheduler
        self.started_tasks, self.done_tasks, self.init_called = [], [], []
        spec = TOPOLOGIES[topo]
        self.retries = {d["name"]: E.int("retries." + d["name"], 0, rmax) for d in spec}
        self.answers = {}
        chk = {name: self.check_function for name in check}
        self.tasks = build(spec, self.retries, chk, process=self.main_function)
        if order:
            self.tasks = self.tasks[::-1]
        for t in self.tasks:
            t.num_workers = workers
            t.init_callback_fn = self.init_callback(t.task_id)
        self.prepare()
        self.ref = Reference(self.tasks, self.retries)
        world = self

        class Sched(Scheduler):
            def acquire_block(self, task_id):
                b = super().acquire_block(task_id)
                if b is not None:
                    world.acquired(b)
                return b

            def release_block(self, block):
                world.releasing(block)
                return super().release_block(block)

        class TCP:
            def __init__(self, *a, **kw):
                self.address = ("host", 1234)

            def get_message(self, timeout=None):
                return world.get_message(timeout)

            def disconnect(self):
                for w in world.workers:
                    if w.stream is not None:
                        w.stream.close()
                world.disconnected = True

        self.disconnected = False

        class Observer(ServerObserver):
            def on_task_start(self, task_id, task_state):
                world.on_task_start(task_id)

            def on_task_done(self, task_id, task_state):
                world.on_task_done(task_id)

            def on_acquire_block(self, task_id, task_state):
                world.log.append(("acquire", task_id))

            def on_release_block(self, task_id, task_state):
                world.log.append(("release", task_id))

        self.seen = 0
        with patched(clock=self.clock, process=lambda group=None, target=None, name=None, args=(), kwargs=None, **kw:
                     world.make_process(worker_of(target, args, kwargs), lambda: target(*args, **(kwargs or {}))), mpqueue=queue.Queue,
                     tcp_server=TCP):
            event = threading.Event()
            self.event = event
            server = Server(stop_event=event)
            Observer(server)
            self.sch = Sched(self.tasks)
            self.run(server)

    def prepare(self):
        pass

    def run(self, server):
        self.end(server.run_blockwise(self.tasks, scheduler=self.sch))

    def chk(self, props, cond, msg, hard=False):
        """assertion belonging to the given properties; for the others the
        path ends here if there is no point in going on"""
        if self.prop in props.split():
            self.E.check(cond, msg)
        elif hard and not bool(cond):
            self.E.done()

    # --- what the code under test does
    def check_function(self, block):
        n = self.ref.nodes[key(block)]
        # the answer is a property of the block
        if n.bid not in self.answers:
            self.answers[n.bid] = self.E.flag("done.%s%d" % n.bid)
        if self.answers[n.bid]:
            self.ref.succeed(n, SKIPPED)
            self.E.reach("skipped")
        return self.answers[n.bid]

    def init_callback(self, task_id):
        def f(context):
            self.chk("C23", task_id not in self.init_called, "initialization callback of %s called twice" % task_id)
            self.chk("C23", not any(w.task == task_id for w in self.workers), "workers started before initialization")
            self.init_called.append(task_id)

        return f

    def make_process(self, worker, main=None):
        w = WorkerProc(self, worker)
        w.main = main
        self.workers.append(w)
        return w

    def on_start(self, w):
        self.chk("C23", w.task in self.started_tasks and w.task in self.init_called,
                 "worker of task %s started before the task" % w.task)
        w.stream = Stream(self, w)

    def on_task_start(self, t):
        self.chk("C23", t not in self.started_tasks, "start of task %s announced twice" % t)
        self.chk("C23", t not in self.done_tasks, "start of task %s announced after it was done" % t)
        self.chk("C23", self.ref.count(t, READY, RUNNING) > 0, "start of task %s announced without blocks to process" % t)
        self.started_tasks.append(t)

    def on_task_done(self, t):
        self.chk("C23", t not in self.done_tasks, "task %s announced as done twice" % t)
        self.chk("C23 C15", not self.ref.count(t, READY, RUNNING, WAITING), "task %s announced as done too early" % t)
        self.done_tasks.append(t)

    def acquired(self, b):
        n = self.ref.nodes[key(b)]
        self.chk("C23", n.task not in self.done_tasks, "block handed out after its task was done")
        self.chk("C13 C14", n.state == READY, "the scheduler hands out a block that is %s" % n.state, hard=True)
        n.state = RUNNING
        self.out = n
        self.log.append(("want acquire", n.task))

    def releasing(self, block):
        """the server returns a block to the scheduler"""
        from daisy import BlockStatus

        k = key(block)
        n = self.ref.nodes[k]
        self.chk("C23", n.task not in self.done_tasks, "block returned after its task was done")
        w = self.holder.get(k)
        self.chk("C13 C14", w is not None, "block %s is returned although nobody holds it" % (k,), hard=True)
        if self.expect is not None and self.expect[0] == k:
            k, ok, late = self.expect
            self.expect = None
            if late and block.status == BlockStatus.FAILED:
                ok = False
            self.chk("C13", (block.status == BlockStatus.SUCCESS) == ok
                     and block.status in (BlockStatus.SUCCESS, BlockStatus.FAILED), "result was changed")
            ref = self.sent[k]
            self.chk("C13", block.read_roi == ref.read_roi and block.write_roi == ref.write_roi, "block was changed")
        else:
            # taken back
            self.chk("C13 C14", w.stream.closed(), "block %s taken back although %s is connected" % (k, w), hard=True)
            self.chk("C14", block.status == BlockStatus.FAILED, "lost block returned as %s" % block.status)
            ok = False
            self.E.reach("taken back")
        del self.holder[k]
        if ok:
            self.ref.succeed(n, DONE)
        else:
            self.ref.fail(n)
        self.log.append(("want release", n.task))
        self.recruit = True

    recruit = False
    sent = None
    extra = {}  # further events

    def to_client(self, w, message):
        """a message of the server arrives at a connected worker"""
        from daisy.messages import RequestShutdown, SendBlock

        self.chk("C15", w.state == "waiting", "message to a worker that requested nothing", hard=True)
        if isinstance(message, SendBlock):
            b = pickle.loads(pickle.dumps(message.block))
            k = key(b)
            self.chk("C15 C13", b.task_id == w.task, "worker got a block of another task")
            o = next((x for x in self.workers if x.block is not None and key(x.block) == k
                      and x.stream is not None and not x.stream.closed()), None)
            self.chk("C13", o is None, "block %s given to %s although %s holds it" % (k, w, o), hard=True)
            n = self.ref.nodes[k]
            self.chk("C13 C15", n.state == RUNNING, "worker got a block that is %s" % n.state, hard=True)
            self.give(k, w, b)
            w.block = b
            w.state = "holding"
        elif isinstance(message, RequestShutdown):
            self.chk("C15", not self.ref.count(w.task, WAITING),
                     "shutdown of a worker of %s although blocks are waiting" % w.task)
            self.chk("C15", not self.ref.count(w.task, READY),
                     "shutdown of a worker of %s although blocks are ready" % w.task)
            if any(self.holder.get(k) in self.half_open(w.task) for k in self.holder):
                self.known = True
            w.state = "left"
            w.alive = False
            w.exitcode = 0
            w.stream.is_closed = True
            self.E.reach("shutdown")
        else:
            self.chk("C15", False, "unexpected message %r" % message, hard=True)

    def give(self, k, w, b):
        if self.sent is None:
            self.sent = {}
        self.sent[k] = b
        self.holder[k] = w

    def terminated(self, w):
        w.alive = False
        w.exitcode = -15
        if w.stream is not None and not w.stream.closed():
            w.stream.is_closed = True
        w.state = "dead"

    # --- what the environment does
    def maybe_crash(self, w, where):
        """a crash in the middle of what the server does"""
        if self.crash_budget > 0 and w.alive and self.E.flag("crash.%s%d" % (where, self.nstep)):
            self.nstep += 1
            self.crash_budget -= 1
            w.alive = False
            w.exitcode = -9
            w.state = "dead"
            w.block = None
            # the server notices a closed stream only later
            if self.E.flag("closed%d" % self.nstep):
                w.stream.is_closed = True
                self.closed_pending.append(w)
            self.E.reach("crash while sending")
        self.nstep += 1

    def lost_reply(self, w):
        """the block in the reply that never arrives is held by w"""
        n = getattr(self, "out", None)
        if n is not None and n.state == RUNNING and n.bid not in self.holder:
            self.give(n.bid, w, None)

    def events(self):
        ev = []
        fresh = set()
        for w in self.workers:
            if not w.started:
                continue
            if w.alive and w.state == "new":
                # unconnected workers of a task are interchangeable
                if w.task in fresh:
                    continue
                fresh.add(w.task)
            if w.alive or w.outbox:
                if w.outbox:
                    ev.append(("deliver", w))
                elif w.state == "new":
                    # connections of dead processes are closed before their replacements connect
                    if self.late_close or not self.half_open(w.task):
                        ev.append(("request", w))
                elif w.state == "holding":
                    ev.append(("succeed", w))
                    if self.fail_budget > 0:
                        ev.append(("fail", w))
            if w.alive and self.crash_budget > 0 and w.state in ("new", "waiting", "holding"):
                ev.append(("crash", w))
                if self.in_flight and w.state == "holding":
                    # dies after its result was sent, but before it is handled
                    ev.append(("crash after success", w))
                    if self.fail_budget > 0:
                        ev.append(("crash after failure", w))
            if not w.alive and w.state == "dead" and not w.stream.closed():
                ev.append(("close", w))
            if self.rogue_budget > 0 and w.alive and w.state == "holding":
                for o in self.workers:
                    if o is not w and o.block is not None and o.state == "holding" and o.task == w.task:
                        ev.append(("misdirect", (w, o.block)))
                if getattr(w, "last", None) is not None:
                    ev.append(("repeat", (w, w.last)))
        if self.may_stop:
            ev.append(("stop", None))
        return ev

    def also_closed(self, w):
        for o in self.workers:
            if o is not w and o.started and not o.alive and o.state == "dead" and not o.stream.closed():
                if self.E.flag("closed%d" % self.nstep):
                    o.stream.is_closed = True
                    self.closed_pending.append(o)
                    self.E.reach("two connections closed at once")
                self.nstep += 1

    def half_open(self, task):
        return [w for w in self.workers if w.task == task and w.state == "dead" and not w.stream.closed()]

    def get_message(self, timeout):
        from daisy.tcp import StreamClosedError

        # results of workers whose connection is closed may be ignored (and the block be taken back)
        self.chk("C13", self.expect is None or self.expect[2], "an accepted result did not reach the scheduler")
        self.expect = None
        self.observed()
        if self.recruit and not self.event.is_set():
            # blocks that became ready by a result do not wait for workers
            self.recruit = False
            for t in self.ref.task_ids:
                if self.ref.count(t, READY):
                    self.chk("C15", any(w.task == t and w.started for w in self.workers),
                             "blocks of %s are ready, but its workers were not started" % t)
        if self.event.is_set():
            # the server has been told to stop but still waits for messages
            self.stuck += 1
        if self.closed_pending:
            self.closed_pending.pop(0)
            raise StreamClosedError("worker", 0)
        must = [e for e in self.events() if not e[0].startswith("crash") and e[0] not in ("stop", "misdirect", "repeat")
                and e[0] not in self.extra]
        ev = self.events()
        if not must and not ev:
            self.stuck += 1
            if self.stuck > 40:
                self.hang()
            self.clock.now += self.tick or timeout or 0.1
            return None
        self.stuck = 0
        waiting = any(w.state == "waiting" and w.alive and not w.outbox for w in self.workers)
        opts = list(ev)
        if (waiting and self.idle < self.idle_max) or not must:
            opts.append(("idle", None))
        eager = [e for e in ev if e[0] in ("request", "deliver")] if self.burst else []
        what, w = eager[0] if eager else self.E.pick("event%d" % self.nstep, opts)
        self.nstep += 1
        self.clock.now += self.pace
        if what in self.extra:
            self.idle = 0
            return self.extra[what](w)
        if what == "idle":
            self.idle += 1
            self.clock.now += self.tick or timeout or 0.1
            if not must and self.idle > self.idle_max + 40:
                self.hang()
            return None
        self.idle = 0
        if what == "stop":
            self.may_stop = False
            self.stopped = True
            self.tell_to_stop()
            self.E.reach("told to stop")
            return None
        if what.startswith("crash"):
            self.crash_budget -= 1
            if what == "crash after success":
                w.outbox = [("release", w.block, True), ("acquire",)]
            elif what == "crash after failure":
                self.fail_budget -= 1
                w.outbox = [("failed", w.block, False), ("release", w.block, False), ("acquire",)]
            if w.state == "holding":
                self.E.reach("crash while holding a block")
            elif w.state == "waiting":
                self.E.reach("crash while waiting for a block")
            w.alive = False
            w.exitcode = -9
            w.state = "dead"
            w.block = None
            return None
        if what == "close":
            w.stream.is_closed = True
            self.closed_pending.append(w)
            # several connections can be closed before the server looks again
            self.also_closed(w)
            return None
        if what == "request":
            w.state = "waiting"
            return self.message(w, "acquire")
        if what in ("succeed", "fail"):
            b = w.block
            if what == "succeed":
                w.outbox = [("release", b, True), ("acquire",)]
            else:
                self.fail_budget -= 1
                w.outbox = [("failed", b, False), ("release", b, False), ("acquire",)]
                self.E.reach("block failed")
            w.state = "reported"
            return self.deliver(w)
        if what == "misdirect":
            w, b = w
            self.rogue_budget -= 1
            self.E.reach("misdirected")
            return self.message(w, "release", b, True)
        if what == "repeat":
            w, b = w
            self.rogue_budget -= 1
            self.E.reach("repeated")
            return self.message(w, "release", b, True)
        return self.deliver(w)

    def tell_to_stop(self):
        self.event.set()

    def hang(self):
        if self.known:
            self.E.reach("known: shutdown while a dead worker holds a block")
            self.E.done()
        self.chk("C15 C14", False, "hangs: %s, workers %s" % (
            sorted((str(n.bid), n.state) for n in self.ref.nodes.values()), [(w.name, w.state) for w in self.workers]), hard=True)

    def deliver(self, w):
        m = w.outbox.pop(0)
        if m[0] == "acquire" and w.alive:
            w.state = "waiting"
        if m[0] in ("release", "failed"):
            w.last = m[1]
            w.block = None
        return self.message(w, *m)

    def message(self, w, kind, block=None, ok=None):
        from daisy import BlockStatus
        from daisy.messages import AcquireBlock, BlockFailed, ReleaseBlock

        if kind == "acquire":
            m = AcquireBlock(w.task)
            self.out = None
            self.asking = w
        else:
            b = pickle.loads(pickle.dumps(block))
            b.status = BlockStatus.SUCCESS if ok else BlockStatus.FAILED
            m = ReleaseBlock(b) if kind == "release" else BlockFailed(ValueError("x"), b, w.context)
            k = key(b)
            if self.holder.get(k) is w:
                self.expect = (k, ok, w.stream.closed())
            else:
                self.E.reach("late result ignored" if w.stream.closed() else "result ignored")
        m.stream = w.stream
        return m

    def observed(self):
        """observers were told about what happened since the last message"""
        got = [x for x in self.log if not x[0].startswith("want")]
        want = [(x[0][5:], x[1]) for x in self.log if x[0].startswith("want")]
        self.chk("C23", sorted(got) == sorted(want), "observers were told %s, but it was %s" % (got, want))
        self.log = []

    def end(self, states):
        """run_blockwise returned"""
        self.observed()
        if not self.stopped:
            lost = any(n.state == RUNNING and self.holder.get(n.bid) and self.holder[n.bid].stream.closed()
                       for n in self.ref.nodes.values())
            self.chk("C15 C14" if lost else "C15", self.ref.finished(), "returned although blocks are left: %s" % sorted(
                (str(n.bid), n.state) for n in self.ref.nodes.values() if n.state in (WAITING, READY, RUNNING)))
            self.chk("C23", sorted(self.done_tasks) == sorted(self.ref.task_ids), "tasks announced as done: %s" % self.done_tasks)
            self.E.reach("finished")
        self.chk("C15 C27", not any(w.alive for w in self.workers), "workers were not stopped")
        self.chk("C15 C27", self.disconnected and all(w.stream is None or w.stream.closed() for w in self.workers),
                 "connections were not closed")
        for t in self.ref.task_ids:
            s = states[t]
            self.chk("C13 C27", s.completed_count == self.ref.count(t, DONE, SKIPPED), "number of successful blocks of %s" % t)
            self.chk("C13 C14 C27", s.failed_count == self.ref.count(t, FAILED), "number of failed blocks of %s" % t)
        self.E.observe(sorted((str(n.bid), n.state, n.failures) for n in self.ref.nodes.values()), sorted(self.started_tasks),
                       len(self.workers))


def serve(E, prop, **kw):
    World(E, prop, **kw)


from symx.runner import Case  # noqa: E402


def case(prop, topo, reach=(), **kw):
    return Case("serve", prop=prop, topo=topo, reach=list(reach), module="checks.srv",
                bounds="server, topology %s: %s; all interleavings" % (topo, ", ".join("%s=%s" % x for x in sorted(kw.items()))),
                **kw)
