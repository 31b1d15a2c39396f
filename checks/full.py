"""The whole system in one process: the real Server, Scheduler, worker pools,
Workers, Clients and TCP classes.  Workers are threads that take turns with the
server; whose turn it is, crashes and outcomes of user code are symbolic."""
import collections
import contextlib
import os
import queue
import sys
import threading
import types
from multiprocessing.reduction import ForkingPickler

from symx.runner import Case
from . import srv
from .drive import TOPOLOGIES, Reference, build, key
from .net import Net
from .stub import Stubs

ASSUMPTIONS = [
    "tornado and the operating system keep their promises (see C17); a closed connection is noticed at once (late notice: C14)",
    "the dependency graph is as reported by DependencyGraph.upstream (decided by C04 - C06)",
]
OUTSIDE = ("more tasks, blocks, workers, crashes or retries than stated; switches between server and workers other than where they "
           "wait for a message or where user code runs; real processes, sockets and clocks")
STUBS = [
    "multiprocessing.Process: a thread; the server and the workers take turns, switching where they wait for messages and in user "
    "code; killed processes lose their connections and what they do afterwards has no effect",
    "multiprocessing.Queue: pickles what is put, drops what cannot be pickled; queue.Queue in daisy.tcp: waits by switching",
    "tornado IOLoop, IOStream, sockets: as for C17; time.time: advances when the server waits; "
    "daisy.logging.redirect_stdouterr: nothing",
]

STACK = []  # the system under test


class Killed(BaseException):
    pass


class Proc:
    """stand-in for multiprocessing.Process"""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, **kw):
        self.stack = STACK[-1]
        self.f = lambda: target(*args, **(kwargs or {}))
        self.worker = srv.worker_of(target, args, kwargs)
        self.task = self.worker.context["task_id"]
        self.no = len(self.stack.procs)
        self.pid = 1000 + self.no
        self.thread = None
        self.turn = threading.Semaphore(0)
        self.alive = self.killed = self.started = self.over = False
        self.exitcode = None
        self.ready = None  # condition to go on
        self.where = "new"
        self.block = None
        self.links = []

    def start(self):
        self.started = self.alive = True
        self.stack.procs.append(self)
        self.ready = lambda: True

    def is_alive(self):
        return self.alive

    def terminate(self):
        self.stack.kill(self, -15)

    kill = terminate

    def join(self, timeout=None):
        self.stack.E.check(not self.alive, "waits for a worker that was not terminated")

    def close(self):
        pass

    # --- switching
    def main(self):
        self.turn.acquire()
        try:
            if not self.killed:
                self.f()
            code = 0
        except Killed:
            code = self.exitcode
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Exception:
            code = 1
        except BaseException as e:
            if self.stack.abort is None:
                self.stack.abort = e
            code = 1
        if not self.killed:
            self.exitcode = code
        self.alive = False
        self.over = True
        self.stack.mine.release()

    def wait(self, ready, where):
        """called by the process: let others run until ready()"""
        if self.killed:
            raise Killed()
        self.ready, self.where = ready, where
        self.stack.mine.release()
        self.turn.acquire()
        if self.killed:
            raise Killed()
        self.where = "running"

    def go(self):
        """called by the server: let the process run until it waits"""
        if self.over:
            return
        st = self.stack
        if self.thread is None:
            self.thread = threading.Thread(target=self.main, daemon=True)
            self.thread.start()
        st.current = self
        self.turn.release()
        st.mine.acquire()
        st.current = None

    def step(self):
        self.go()
        if self.over:
            self.hang_up()
        if self.stack.abort is not None:
            raise self.stack.abort
        self.stack.net.pump()

    def hang_up(self):
        for end in self.links:
            end.close()

    def __repr__(self):
        return "%s%d" % (self.task, self.no)


class SwitchingQueue:
    """queue.Queue in daisy.tcp"""

    def __init__(self, maxsize=0):
        self.items = collections.deque()

    def put(self, x, block=True, timeout=None):
        self.items.append(x)

    put_nowait = put

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)

    def get_nowait(self):
        return self.get(block=False)

    def get(self, block=True, timeout=None):
        st = STACK[-1]
        if not self.items and block:
            p = st.current
            if p is None:
                st.idle(timeout)
            else:
                p.wait(lambda: bool(self.items) or any(x.is_closed for x in p.links), "waiting")
        if not self.items:
            raise queue.Empty()
        return self.items.popleft()


class PickleQueue:
    """multiprocessing.Queue"""

    def __init__(self, maxsize=0):
        self.items = collections.deque()

    def put(self, x, block=True, timeout=None):
        p = STACK[-1].current
        if p is not None and p.killed:
            return
        try:
            self.items.append(bytes(ForkingPickler.dumps(x)))
        except Exception:
            pass  # the feeder thread only prints it

    put_nowait = put

    def get(self, block=True, timeout=None):
        if not self.items:
            raise queue.Empty()
        return ForkingPickler.loads(self.items.popleft())

    def get_nowait(self):
        return self.get()

    def empty(self):
        return not self.items

    def close(self):
        pass

    join_thread = cancel_join_thread = close


def process(block):
    STACK[-1].process(block)


def check_function(block):
    return STACK[-1].check_function(block)


def outcome_ok(outcome):
    return outcome == "ok"


class Attempt:
    def __init__(self, proc, bid):
        self.proc, self.bid = proc, bid
        self.result = None  # None: running, True, False
        self.sure = True  # False if the worker died after it returned the block


class Stack:
    function = staticmethod(process)

    def __init__(self, E, topo, workers=1, rmax=0, crashes=0, fails=1, check=(), outcomes=("ok", "raise"), idle=1):
        self.E = E
        self.crashes, self.fails, self.outcomes, self.idle_max = crashes, fails, outcomes, idle
        self.procs = []
        self.current = None
        self.mine = threading.Semaphore(0)
        self.abort = None
        self.net = Net(E)
        self.clock = srv.Clock()
        self.stuck = self.idled = self.n = 0
        self.attempts = []
        self.skipped = {}
        self.lost = False
        self.failures = []
        spec = TOPOLOGIES[topo]
        self.retries = {d["name"]: E.choice("retries." + d["name"], rmax + 1) for d in spec}
        self.tasks = build(spec, self.retries, {n: check_function for n in check}, process=self.function)
        for t in self.tasks:
            t.num_workers = workers
        self.ref = Reference(self.tasks, self.retries)
        self.blocks = {}
        STACK.append(self)
        try:
            with self.patched():
                self.run()
        finally:
            self.clean_up()
            STACK.pop()

    @contextlib.contextmanager
    def patched(self):
        log = sys.modules["daisy.logging"]
        tcp_client = sys.modules["daisy.tcp.tcp_client"].TCPClient
        saved = dict(os.environ), log.get_log_basedir()
        accept = self.net.accept

        async def linked(host, port):
            end = await accept(host, port)
            if self.current is not None:
                self.current.links.append(end)
            return end

        self.net.accept = linked
        try:
            if "__del__" in vars(tcp_client):
                # for good: clients of this run may be collected much later
                tcp_client.__del__ = lambda self: None
            with Stubs(prefix="daisy.tcp") as stubs, self.net.patched(), srv.patched(clock=self.clock, process=Proc,
                                                                                    mpqueue=PickleQueue):
                stubs.own(log.redirect_stdouterr, lambda *a, **kw: None)
                stubs.klass(queue, "Queue", SwitchingQueue)
                stubs.klass(queue, "SimpleQueue", SwitchingQueue)
                yield
        finally:
            log.set_log_basedir(saved[1])
            os.environ.clear()
            os.environ.update(saved[0])

    def clean_up(self):
        """end all threads"""
        for p in self.procs:
            p.killed = True
            n = 0
            while p.thread is not None and not p.over and n < 100:
                n += 1
                p.go()

    def run(self):
        from daisy.server import Server
        from daisy.server_observer import ServerObserver

        stack = self

        class Observer(ServerObserver):
            def on_block_failure(self, block, exception, context):
                stack.failures.append((key(block), exception, int(context["worker_id"])))

        self.event = threading.Event()
        server = Server(stop_event=self.event, host="localhost")
        Observer(server)
        states = server.run_blockwise(self.tasks)
        self.net.pump()
        self.end(states)

    # --- what the environment does
    def kill(self, p, code):
        if not p.alive:
            return
        p.killed = True
        p.alive = False
        p.exitcode = code
        p.hang_up()
        for a in self.attempts:
            if a.proc is p:
                if a.result is None:
                    a.result = False
                elif a is [x for x in self.attempts if x.proc is p][-1]:
                    a.sure = False
        while p.thread is not None and not p.over:
            p.go()
        if self.abort is not None:
            raise self.abort

    def idle(self, timeout):
        """the server waits for a message"""
        self.net.pump()
        if self.event.is_set():
            return
        opts, fresh = [], set()
        for p in self.procs:
            if not p.alive:
                continue
            if p.where == "new":
                if p.task in fresh:
                    continue
                fresh.add(p.task)
            if p.ready():
                opts.append(("step", p))
        must = bool(opts)
        if self.crashes > 0:
            opts += [("crash", p) for p in self.procs if p.alive and p.where != "new"]
        if not must or self.idled < self.idle_max and any(p.alive and p.where == "waiting" for p in self.procs):
            opts.append(("idle", None))
        what, p = self.E.pick("turn%d" % self.n, opts)
        self.n += 1
        self.clock.now += 0.05
        if what == "idle":
            self.idled += 1
            self.clock.now += timeout or 0.1
            if not must:
                self.stuck += 1
                self.E.check(self.stuck < 40, "hangs: %s" % [(repr(x), x.where) for x in self.procs if x.alive])
            return
        self.idled = self.stuck = 0
        if what == "crash":
            self.crashes -= 1
            self.E.reach("crash while " + p.where)
            if p.where != "processing":
                # a block on its way to the worker is lost
                self.lost = True
            self.kill(p, -9)
            self.net.pump()
        else:
            p.step()

    # --- user code
    def check_function(self, block):
        k = key(block)
        if k not in self.skipped:
            self.skipped[k] = self.E.flag("skip.%s%d" % k)
        self.E.check(not self.running(k), "check function called for a block that is being processed")
        return self.skipped[k]

    def running(self, k):
        return [a for a in self.attempts if a.bid == k and a.result is None]

    def last(self, k):
        a = [x for x in self.attempts if x.bid == k]
        return a[-1] if a else None

    def success(self, k):
        """the block was processed successfully, as far as its worker knows"""
        a = self.last(k)
        return self.skipped.get(k, False) or (a is not None and a.result is True)

    def process(self, block):
        E, p = self.E, self.current
        k = key(block)
        E.check(k in self.ref.nodes, "unknown block %s" % (k,))
        n = self.ref.nodes[k]
        E.check(n.task == p.task, "worker of task %s got a block of %s" % (p.task, n.task))
        E.check(not self.running(k), "block %s is processed twice at the same time" % (k,))
        E.check(not self.skipped.get(k), "skipped block %s is processed" % (k,))
        prev = [a for a in self.attempts if a.bid == k]
        E.check(not any(a.result and a.sure for a in prev), "block %s is processed again after it succeeded" % (k,))
        E.check(len(prev) <= self.retries[n.task], "block %s is processed %d times" % (k, len(prev) + 1))
        for u in n.up:
            E.check(self.success(u) and not self.running(u), "block %s is processed before block %s" % (k, u))
        a = Attempt(p, k)
        no = len(self.attempts)
        self.attempts.append(a)
        p.block = k
        p.wait(lambda: True, "processing")
        opts = [o for o in self.outcomes if o == "ok" or self.fails > 0]
        o = E.pick("outcome%d" % no, opts)
        a.result = outcome_ok(o)
        a.outcome = o
        p.block = None
        if not a.result:
            self.fails -= 1
            E.reach("failed: " + o)
            self.fail(block, o)

    def fail(self, block, how):
        from daisy import BlockStatus

        if how == "status":
            block.status = BlockStatus.FAILED
            return
        raise ValueError("failed %s" % (key(block),))

    def end(self, states):
        E = self.E
        E.check(not any(p.alive for p in self.procs), "workers were not stopped")
        E.check(all(x.is_closed for p in self.procs for x in p.links), "connections were not closed")
        unsure = self.lost or any(not a.sure for a in self.attempts)
        for t in self.ref.task_ids:
            nodes = [n for n in self.ref.nodes.values() if n.task == t]
            s = states[t]
            E.check(s.total_block_count == len(nodes), "number of blocks of %s" % t)
            E.check(s.completed_count + s.failed_count + s.orphaned_count == len(nodes), "blocks of %s are left: %s" % (t, s))
            done = [n for n in nodes if self.success(n.bid)]
            if not unsure:
                E.check(s.completed_count == len(done), "%d blocks of %s succeeded, reported %d" % (len(done), t, s.completed_count))
                failed = [n for n in nodes if self.last(n.bid) is not None and not self.success(n.bid)]
                E.check(s.failed_count == len(failed), "%d blocks of %s failed, reported %d" % (len(failed), t, s.failed_count))
                for n in failed:
                    k = len([a for a in self.attempts if a.bid == n.bid])
                    E.check(k == self.retries[t] + 1, "block %s given up after %d attempts" % (n.bid, k))
            E.check(s.skipped_count == len([n for n in nodes if self.skipped.get(n.bid)]), "number of skipped blocks of %s" % t)
        self.reports()
        E.reach("finished")
        E.observe(sorted((a.bid, a.result) for a in self.attempts), [(t, states[t].completed_count, states[t].failed_count)
                                                                      for t in self.ref.task_ids])

    def reports(self):
        """failures that were reported"""
        for k, e, w in self.failures:
            self.E.check(any(a.bid == k and a.result is False and a.proc.worker.worker_id == w for a in self.attempts),
                         "failure of %s in worker %d reported: %r" % (k, w, e))


def full(E, **kw):
    Stack(E, **kw)


def case(topo, reach=(), fn="full", module="checks.full", **kw):
    return Case(fn, topo=topo, reach=list(reach), module=module,
                bounds="whole system, topology %s: %s; all orders of turns" % (topo, ", ".join("%s=%s" % x for x in sorted(kw.items()))),
                **kw)
