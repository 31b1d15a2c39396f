"""C28: exceptions of user code, whatever they are, are reported"""
import queue
import sys
import threading

from symx.runner import Case
from . import full
from .full import ASSUMPTIONS, OUTSIDE, STACK, STUBS, Stack  # noqa
from .drive import key


class NeedsTwo(Exception):
    """cannot be restored: pickle calls the class with one argument"""

    def __init__(self, text, code):
        super().__init__("%s with code %d" % (text, code))


class WithAttributes(Exception):
    """can be restored"""

    def __init__(self, text):
        super().__init__(text)
        self.code = 3


class CannotReduce(Exception):
    def __reduce__(self):
        raise RuntimeError("not to be pickled")


def unavailable(text):
    raise ModuleNotFoundError("No module named 'only_known_to_the_worker'")


class Unknown(Exception):
    """of a class that the receiver does not have"""

    def __reduce__(self):
        return unavailable, self.args


class Quiet(Exception):
    """cannot be pickled, neither does it say anything"""

    def __str__(self):
        return ""

    def __reduce__(self):
        raise TypeError("not to be pickled")


def make(kind, text):
    if kind in ("plain", "marked"):
        return ValueError(text)
    if kind == "attributes":
        return WithAttributes(text)
    if kind == "needs two":
        return NeedsTwo(text, 3)
    if kind == "lock":
        e = ValueError(text)
        e.lock = threading.Lock()
        return e
    if kind == "argument":
        return ValueError(text, lambda: 3)
    if kind == "local":
        class Local(Exception):
            pass

        return Local(text)
    if kind == "reduce":
        return CannotReduce(text)
    if kind == "unknown":
        return Unknown(text)
    if kind == "quiet":
        return Quiet(text)
    if kind == "chained":
        e = ValueError(text)
        e.__cause__ = NeedsTwo(text, 4)
        return e
    if kind == "empty":
        return ValueError()
    if kind == "stop":
        return StopIteration(text)
    if kind == "queue":
        return queue.Empty(text)
    if kind == "stream":
        return sys.modules["daisy.tcp"].StreamClosedError(text)
    if kind == "os":
        return ConnectionResetError(104, text)
    raise AssertionError(kind)


KINDS = ("plain", "attributes", "needs two", "lock", "argument", "local", "reduce", "unknown", "quiet", "chained",
         "empty", "stop", "queue", "stream", "os", "marked")
RESTORED = ("plain", "marked", "attributes", "chained", "empty", "stop", "queue", "os")


def tells(E, e, kind, text):
    """the exception, as it arrived, is the one that was raised or tells which"""
    if kind in RESTORED:
        x = make(kind, text)
        E.check(type(e) is type(x) and e.args == x.args, "%r was raised, %r arrived" % (x, e))
        E.check(getattr(e, "code", 3) == 3, "attributes of the exception")
    else:
        E.check(isinstance(e, Exception) and text in repr(e), "the reported exception %r does not tell that %s was raised" % (e, text))


class BlockErrors(Stack):
    """user code raises while it processes a block"""

    def fail(self, block, how):
        no = len(self.raised)
        text = "failure number %d" % no
        p = self.current
        self.raised.append((key(block), how, text, p.worker.worker_id))
        if how == "exit":
            raise SystemExit(1)
        if how == "marked":
            # done, it seemed
            block.status = sys.modules["daisy"].BlockStatus.SUCCESS
        raise make(how, text)

    def run(self):
        self.raised = []
        super().run()

    def reports(self):
        E = self.E
        raised = [x for x in self.raised if x[1] != "exit"]
        E.check(len(self.failures) == len(raised), "%d failures of blocks, %d were reported" % (len(raised), len(self.failures)))
        todo = list(self.failures)
        for k, how, text, w in raised:
            f = [x for x in todo if x[0] == k and x[2] == w]
            E.check(bool(f), "failure of %s in worker %d was not reported" % (k, w))
            todo.remove(f[0])
            tells(E, f[0][1], how, text)
            E.reach("reported: " + how)
        for k, how, text, w in self.raised:
            if how == "exit":
                E.reach("process exited")


def spawn():
    """a worker function that raises outside of a block"""
    import daisy

    st = STACK[-1]
    st.maybe("before connecting")
    client = daisy.Client()
    st.maybe("before the first block")
    while True:
        with client.acquire_block() as block:
            if block is None:
                break
            st.process(block)
        st.maybe("between blocks")
    st.maybe("after the last block")


class WorkerErrors(Stack):
    """the worker function raises outside of a block"""
    function = staticmethod(spawn)

    def __init__(self, E, kinds, errors=1, **kw):
        self.kinds, self.errors = kinds, errors
        self.raised = []
        self.since = 0
        super().__init__(E, **kw)

    def maybe(self, where):
        if self.errors > 0 and self.E.flag("raise%d.%s" % (self.n, where)):
            self.errors -= 1
            kind = self.E.pick("kind%d" % len(self.raised), self.kinds)
            text = "failure number %d" % len(self.raised)
            self.raised.append((kind, text))
            self.E.reach("raised " + where)
            for a in self.attempts[::-1]:
                if a.proc is self.current:
                    a.sure = False  # what it returned might not get out
                    break
            raise make(kind, text)

    def idle(self, timeout):
        if self.raised:
            self.since += 1
            self.E.check(self.since < 20, "the run goes on although a worker raised")
        super().idle(timeout)

    def run(self):
        from daisy.server import Server

        E = self.E
        self.event = threading.Event()
        server = Server(stop_event=self.event, host="localhost")
        try:
            states = server.run_blockwise(self.tasks)
        except Exception as e:
            E.check(bool(self.raised), "raises %r although nothing went wrong" % e)
            f = [x for x in self.raised if x[1] in repr(e) or x[0] == "empty"]
            E.check(bool(f), "raised %r, but %s happened" % (e, self.raised))
            tells(E, e, *f[0])
            E.reach("raised in the caller: " + f[0][0])
            self.net.pump()
            E.check(not any(p.alive for p in self.procs), "workers were not stopped")
            E.check(all(x.is_closed for p in self.procs for x in p.links), "connections were not closed")
            E.observe(str(e))
            return
        E.check(self.since < 2, "the error of a worker was swallowed")
        E.reach("no error")
        self.net.pump()
        self.end(states)


def blocks(E, **kw):
    BlockErrors(E, **kw)


def workers(E, **kw):
    WorkerErrors(E, **kw)


def serial(E, topo, kinds):
    """in a serial run, the caller gets the exception itself"""
    from daisy.serial_server import SerialServer
    from .drive import TOPOLOGIES, build

    raised = []

    def process(block):
        kind = E.pick("kind.%s%d" % key(block), ("ok",) + tuple(kinds))
        if kind != "ok":
            raised.append(make(kind, "failure"))
            E.reach("serial: " + kind)
            raise raised[-1]

    tasks = build(TOPOLOGIES[topo], 0, process=process)
    try:
        SerialServer().run_blockwise(tasks)
    except Exception as e:
        E.check(len(raised) == 1 and e is raised[0], "%r raised in the caller, %s by user code" % (e, raised))
    else:
        E.check(not raised, "the exception %s was swallowed" % raised)
    E.observe(len(raised))


def case(fn, topo, reach=(), **kw):
    return Case(fn, topo=topo, reach=list(reach), module="checks.c28",
                bounds="%s, topology %s: %s" % (fn, topo, ", ".join("%s=%s" % x for x in sorted(kw.items()))), **kw)


def cases(tier):
    q = tier == "quick"
    all_ = ("ok", "exit") + KINDS
    two = ("ok", "needs two", "lock")
    rep = ["reported: " + k for k in KINDS] + ["process exited"]
    out = [
        case("blocks", "one", workers=1, rmax=1, outcomes=all_, fails=2, reach=rep),
        case("blocks", "chain2", workers=1, rmax=1, outcomes=two, fails=2, reach=["reported: lock"]),
        case("blocks", "pair", workers=1, rmax=0, outcomes=all_, fails=1, reach=rep),
        case("workers", "one", workers=1, rmax=0, fails=0, kinds=KINDS,
             reach=["raised in the caller: " + k for k in KINDS] + ["raised before connecting", "raised before the first block",
                                                                    "raised between blocks", "no error"]),
        case("workers", "pair", workers=1, rmax=0, fails=0, kinds=("plain", "needs two", "local"),
             reach=["raised in the caller: local", "raised before connecting"]),
        case("serial", "chain2", kinds=KINDS, reach=["serial: " + k for k in KINDS]),
    ]
    if not q:
        out += [
            case("blocks", "free2", workers=2, rmax=1, outcomes=two, fails=1),
            case("blocks", "one", workers=1, rmax=2, outcomes=all_, fails=3, reach=rep),
            case("blocks", "chain3", workers=1, rmax=1, outcomes=two, fails=3),
            case("workers", "free2", workers=2, rmax=0, fails=0, errors=2, kinds=("plain", "needs two", "lock")),
            case("workers", "chain2", workers=2, rmax=1, fails=1, errors=1, kinds=("plain", "unknown", "reduce")),
            case("serial", "conflict2", kinds=("plain", "lock")),
        ]
    return out
