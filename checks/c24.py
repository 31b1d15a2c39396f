"""C24: processing time-outs"""
from symx.runner import Case
from .srv import patched

ASSUMPTIONS = ["time never runs backwards", "a block is sent only if it is not already sent (C13)"]
OUTSIDE = "more blocks, connections or operations than stated; times and time-outs are multiples of a quarter of a second"
STUBS = ["time.time: symbolic clock", "streams: closed() as the symbolic schedule says"]


class Stream:
    def __init__(self, name):
        self.name = name
        self.is_closed = False

    def closed(self):
        return self.is_closed

    def __repr__(self):
        return self.name


def blocks(n):
    from daisy import Block, Roi

    return [Block(Roi((0,), (n,)), Roi((i,), (1,)), Roi((i,), (1,)), task_id="t") for i in range(n)]


def books(E, nblocks, nstreams, steps, timeout=True):
    """any history of sending, returning, closing, waiting and collecting lost
    blocks, with arbitrary times"""
    from daisy.block_bookkeeper import BlockBookkeeper

    q = 1 << 40
    now = [E.int("start", 0, q, eager=(0, 1)) / 4]
    T = E.int("timeout", 0, q, eager=(0, 2)) / 4 if timeout else None
    bs = blocks(nblocks)
    streams = [Stream("s%d" % i) for i in range(nstreams)]
    sent = {}  # block -> (stream, time)
    with patched(clock=lambda: now[0]):
        bk = BlockBookkeeper(processing_timeout=T) if timeout else BlockBookkeeper()
        for step in range(steps):
            ops = []
            for i in range(nblocks):
                for j, s in enumerate(streams):
                    if i not in sent and not s.is_closed:
                        ops.append(("send", i, j))
                    ops.append(("return", i, j))
            for j, s in enumerate(streams):
                if not s.is_closed:
                    ops.append(("close", None, j))
            ops.append(("lost", None, None))
            now[0] = now[0] + E.int("dt%d" % step, 0, q, eager=(0, 2)) / 4
            op, i, j = E.pick("op%d" % step, ops)
            if op == "send":
                bk.notify_block_sent(bs[i], streams[j])
                sent[i] = (streams[j], now[0])
            elif op == "close":
                streams[j].is_closed = True
                E.reach("closed")
            elif op == "return":
                want = i in sent and sent[i][0] is streams[j]
                E.check(bool(bk.is_valid_return(bs[i], streams[j])) == want,
                        "return of block %d by %s %s" % (i, streams[j], "rejected" if want else "accepted"))
                if want:
                    bk.notify_block_returned(bs[i], streams[j])
                    del sent[i]
                    E.reach("returned")
            else:
                got = [b.block_id[1] for b in bk.get_lost_blocks()]
                E.check(len(set(got)) == len(got), "a block is reported as lost twice")
                for i in range(nblocks):
                    if i in got:
                        E.check(i in sent, "block %d is reported as lost, but was not sent or was returned" % i)
                        s, t = sent.pop(i)
                        if not s.is_closed:
                            E.check(timeout, "block lost without time-out")
                            E.check(now[0] - t >= T, "block lost before its time-out")
                            E.reach("timed out")
                        else:
                            E.reach("lost with its connection")
                            if timeout and bool(now[0] - t > T):
                                E.reach("closed and timed out")
                    elif i in sent:
                        s, t = sent[i]
                        E.check(not s.is_closed, "block of a closed connection not reported as lost")
                        if timeout:
                            E.check(now[0] - t <= T, "block not reported as lost after its time-out")
                            E.reach("in time")
    E.observe(sorted(sent))


def enforced(E):
    """a task's timeout: a worker that never returns its block loses it"""
    from .srv import World

    t = E.int("timeout", 1, 20)

    class Slow(World):
        def prepare(self):
            for x in self.tasks:
                x.timeout = t

        def events(self):
            return [e for e in super().events() if e[0] in ("request", "close")]

        def hang(self):
            # the worker holds the block for longer than its timeout
            E.check(self.clock.now - self.given > t, "waits long enough")
            E.reach("known: Task.timeout is not enforced")
            E.done()

        def give(self, k, w, b):
            super().give(k, w, b)
            self.given = self.clock.now

        def releasing(self, block):
            E.check(self.clock.now - self.given >= t, "block lost before the timeout of its task")
            E.reach("timeout enforced")
            E.done()

    Slow(E, "C24", "one", rmax=0, tick=1.0)


def cases(tier):
    q = tier == "quick"
    lab = ["closed", "returned", "timed out", "lost with its connection", "in time", "closed and timed out"]
    out = []
    for nb, ns, st in ((1, 1, 5), (1, 2, 4), (2, 1, 5), (2, 2, 4)) if q else ((1, 1, 7), (1, 2, 6), (2, 1, 6), (2, 2, 5), (3, 2, 5)):
        out.append(Case("books", nblocks=nb, nstreams=ns, steps=st, reach=lab, eager_params=dict(steps=3),
                        bounds=f"{nb} block(s), {ns} connection(s), every history of {st} operations, arbitrary times and time-out (multiples of 1/4 s)"))
    out.append(Case("books", nblocks=2, nstreams=1, steps=4, timeout=False, bounds="without time-out: 2 blocks, 1 connection, 4 operations"))
    out.append(Case("enforced", bounds="server with one task of one block, one worker that never returns it, timeout 1..20 s"))
    return out
