"""C16: a worker reports the true outcome of every block, exactly once"""
import contextlib
import os
import pickle
import sys

from symx.runner import Case
from .stub import Stubs
from .c24 import blocks

ASSUMPTIONS = ["messages are sent and received as the connection promises (C17)"]
OUTSIDE = "more blocks per worker than stated; a connection that breaks while the result is sent"
STUBS = ["TCPClient: records what is sent, answers as the symbolic server says (block, time-out, shutdown, closed)"]


class UserError(Exception):
    pass


# what user code can do with a block
OUTCOMES = ["nothing", "success", "failed", "processing", "raise", "failed+raise", "success+raise", "interrupt",
            "success+interrupt", "exit", "created", "created+interrupt"]


LONG = 40000


def expected(outcome):
    """does processing count as successful"""
    return outcome in ("nothing", "success", "processing")


class Server:
    """symbolic server at the other end of the connection"""

    def __init__(self, E, nblocks, waits):
        self.E = E
        self.todo = blocks(nblocks)
        self.waits = waits
        self.long = 1 if waits > 1 else 0
        self.ahead = 0  # time-outs that follow without a choice
        self.open = False  # a request is not yet answered
        self.sent = []  # (message, snapshot of it when it was sent)
        self.n = 0
        self.requests = 0
        self.connected = True
        self.gone = False
        self.disconnects = 0

    def step(self):
        self.n += 1
        return self.n

    # --- TCPClient interface
    def send_message(self, message):
        from daisy.messages import AcquireBlock
        from daisy.tcp import StreamClosedError
        from daisy.tcp.exceptions import NotConnected

        E = self.E
        if isinstance(message, AcquireBlock):
            E.check(message.task_id == "t", "request for another task")
            E.check(not self.open, "asks for a block again before the first request was answered")
            self.open = True
            self.requests += 1
            a = E.pick("request%d" % self.step(), ["ok", "closed", "not connected"]) if not self.gone else "not connected"
            if a != "ok":
                self.gone = True
                E.reach("server gone at request")
                raise StreamClosedError("host", 1) if a == "closed" else NotConnected()
        self.sent.append((message, pickle.loads(pickle.dumps(message))))

    def get_message(self, timeout=None):
        from daisy.messages import RequestShutdown, SendBlock
        from daisy.tcp import StreamClosedError
        from daisy.tcp.exceptions import NotConnected

        E = self.E
        if self.ahead:
            self.ahead -= 1
            return None
        opts = ["shutdown", "closed", "not connected"]
        if self.todo:
            opts.append("block")
        if self.waits:
            opts.append("wait")
        if self.long:
            opts.append("long wait")
        a = E.pick("reply%d" % self.step(), opts)
        E.reach("reply " + a)
        if a == "wait":
            self.waits -= 1
            return None
        if a == "long wait":
            # more than an hour of waiting, in steps of 0.1 s
            self.long -= 1
            self.ahead = LONG
            return None
        self.open = False
        if a == "block":
            return pickle.loads(pickle.dumps(SendBlock(self.todo.pop(0))))
        self.gone = True
        if a == "shutdown":
            return RequestShutdown()
        raise StreamClosedError("host", 1) if a == "closed" else NotConnected()

    def disconnect(self):
        self.disconnects += 1
        self.connected = False


def user(E, block, outcome):
    from daisy import BlockStatus

    if outcome.startswith("success"):
        block.status = BlockStatus.SUCCESS
    elif outcome.startswith("failed"):
        block.status = BlockStatus.FAILED
    elif outcome == "processing":
        block.status = BlockStatus.PROCESSING
    elif outcome.startswith("created"):
        block.status = BlockStatus.CREATED
    if outcome.endswith("raise"):
        raise UserError("user code failed for %s" % (block.block_id,))
    if outcome.endswith("interrupt"):
        raise KeyboardInterrupt()
    if outcome == "exit":
        raise SystemExit(1)


def reports(E, srv, first, block_id, outcome):
    """check the messages sent since index first"""
    from daisy import BlockStatus
    from daisy.messages import BlockFailed, ReleaseBlock

    msgs = srv.sent[first:]
    E.check(all(isinstance(m, (BlockFailed, ReleaseBlock)) for m, _ in msgs), "unexpected message sent")
    rel = [x for x in msgs if isinstance(x[0], ReleaseBlock)]
    bf = [x for x in msgs if isinstance(x[0], BlockFailed)]
    ok = expected(outcome)
    if outcome in ("success+interrupt", "created"):
        # explicitly marked as done before the interrupt, or status makes no sense: either outcome is true
        ok = any(x[0].block.status == BlockStatus.SUCCESS for x in rel)
    for m, snap in msgs:
        for x in (m, snap):
            E.check(x.block.block_id == block_id, "report about another block")
    E.check(len(rel) <= 1 and len(bf) <= 1, "more than one report of a kind")
    E.check(len(rel) + len(bf) >= 1, "no report for a block")
    for m, snap in rel:
        # the message is serialised at some time after it was passed on
        for x in (m, snap):
            E.check(x.block.status == (BlockStatus.SUCCESS if ok else BlockStatus.FAILED),
                    "outcome '%s' reported as %s" % (outcome, x.block.status))
    if ok:
        E.check(not bf, "successful block reported as failed")
    if outcome.endswith("raise"):
        E.check(len(bf) == 1, "exception in user code is not reported")
        for x in bf[0]:
            E.check(isinstance(x.exception, UserError) and str(block_id) in str(x.exception), "reported exception")
            E.check(str(x.context["worker_id"]) == "7", "reported worker")
    E.reach("outcome " + outcome)


def make_context():
    from daisy.context import Context

    return Context(hostname="host", port=1234, task_id="t", worker_id=7)


@contextlib.contextmanager
def connected(srv):
    """clients talk to the given server"""
    with Stubs() as stubs:
        stubs.own(sys.modules["daisy.tcp.tcp_client"].TCPClient, lambda host, port: srv)
        yield


def client(E, nblocks, waits, outcomes):
    """a loop as in the documentation of Client"""
    import daisy.client

    srv = Server(E, nblocks, waits)
    got = 0
    with connected(srv):
        c = daisy.client.Client(make_context())
        while True:
            outcome, first, bid, more = None, None, None, True
            try:
                with c.acquire_block() as block:
                    if block is None:
                        more = False
                    else:
                        E.check(not srv.gone, "block although the server is gone")
                        got += 1
                        E.check(block.block_id == ("t", got - 1), "block is not the one that was sent")
                        bid = block.block_id
                        first = len(srv.sent)
                        outcome = E.pick("outcome%d" % srv.step(), outcomes)
                        user(E, block, outcome)
            except (KeyboardInterrupt, SystemExit) as e:
                E.check(outcome is not None and outcome.endswith(("interrupt", "exit")), "interrupted: %r" % e)
            else:
                E.check(outcome is None or not outcome.endswith(("interrupt", "exit")), "interrupt was swallowed")
            if not more:
                break
            reports(E, srv, first, bid, outcome)
            E.check(got <= nblocks, "too many blocks")
    E.check(srv.gone, "no block although the server is still there")
    E.observe(got, srv.requests)
    E.reach("worker stopped")


def task_loop(E, nblocks, waits, outcomes):
    """the worker loop of a task with a process function"""
    import daisy.client
    from daisy import Roi, Task

    srv = Server(E, nblocks, waits)
    log = []

    def process(block):
        E.check(not srv.gone, "block although the server is gone")
        if log:
            reports(E, srv, *log[-1][:1], *log[-1][1:])
        # messages sent from here on, without the next request
        log.append((len(srv.sent), block.block_id, E.pick("outcome%d" % srv.step(), outcomes)))
        user(E, block, log[-1][2])

    orig = srv.send_message

    def send(message):
        from daisy.messages import AcquireBlock

        if isinstance(message, AcquireBlock):
            if log:
                reports(E, srv, *log[-1])
                log.pop()
            srv.sent.clear()
        orig(message)

    srv.send_message = send
    old = os.environ.get("DAISY_CONTEXT")
    os.environ["DAISY_CONTEXT"] = make_context().to_env()
    try:
        t = Task("t", Roi((0,), (nblocks,)), Roi((0,), (1,)), Roi((0,), (1,)), process)
        with connected(srv):
            t.spawn_worker_function()
    finally:
        if old is None:
            os.environ.pop("DAISY_CONTEXT", None)
        else:
            os.environ["DAISY_CONTEXT"] = old
    E.check(srv.gone, "worker loop ended although the server is still there")
    E.check(not log, "no request after the last block")
    E.observe(srv.requests)
    E.reach("worker loop ended")


def cases(tier):
    q = tier == "quick"
    no_exit = [o for o in OUTCOMES if not o.endswith(("interrupt", "exit"))]
    out = [
        Case("client", nblocks=1 if q else 2, waits=2, outcomes=OUTCOMES,
             reach=["outcome " + o for o in OUTCOMES] + ["server gone at request", "reply wait", "reply long wait", "reply closed", "reply shutdown",
                                                         "worker stopped"],
             bounds="client loop, 1 (thorough 2) blocks, up to 2 time-outs or more than an hour of them, all outcomes of user code, all answers of the server"),
        Case("client", nblocks=2 if q else 3, waits=0, outcomes=OUTCOMES,
             bounds="client loop, 2 (thorough 3) blocks, all outcomes of user code, all answers of the server"),
        Case("task_loop", nblocks=2 if q else 3, waits=1, outcomes=no_exit, reach=["worker loop ended"],
             bounds="worker loop of Task, 2 (thorough 3) blocks, process function returns, marks or raises"),
    ]
    return out
