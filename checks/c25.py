"""C25: errors outside of blocks end the run and reach the caller"""
import contextlib
import os
import sys

from symx.runner import Case
from . import srv
from .srv import ASSUMPTIONS, OUTSIDE  # noqa

STUBS = srv.STUBS + [
    "worker processes that raise run the real start function of daisy.Worker; daisy.logging.redirect_stdouterr: nothing"]


class Failure(Exception):
    pass


RAISE = []


def worker_main():
    if RAISE:
        raise RAISE[0]


@contextlib.contextmanager
def contained():
    """what a worker process does to its own process"""
    log = sys.modules["daisy.logging"]
    saved = dict(os.environ), log.get_log_basedir(), log.redirect_stdouterr
    log.redirect_stdouterr = lambda *a, **kw: None
    try:
        yield
    finally:
        log.redirect_stdouterr = saved[2]
        log.set_log_basedir(saved[1])
        os.environ.clear()
        os.environ.update(saved[0])


class ErrorWorld(srv.World):
    main_function = staticmethod(worker_main)

    def __init__(self, E, errors, callback=False, **kw):
        self.error_budget = errors
        self.errors = []
        self.since = 0
        self.callback = callback
        self.extra = {"raise": self.do_raise, "raise in client": self.do_client}
        super().__init__(E, "C25", **kw)

    def events(self):
        ev = super().events()
        if self.error_budget > 0:
            for w in self.workers:
                if w.started and w.alive and not w.outbox:
                    if w.state in ("new", "waiting"):
                        ev.append(("raise", w))
                    if w.state == "waiting":
                        ev.append(("raise in client", w))
        return ev

    def failure(self):
        self.error_budget -= 1
        self.errors.append("failure %d" % len(self.errors))
        return Failure(self.errors[-1])

    def do_raise(self, w):
        """the spawn function raises outside of a block"""
        RAISE[:] = [self.failure()]
        self.E.reach("raised before connecting" if w.state == "new" else "raised while waiting")
        try:
            with contained():
                w.main()
            w.exitcode = 0
        except Failure:
            w.exitcode = 1
        finally:
            RAISE.clear()
        w.alive = False
        w.state = "dead"
        w.stream.is_closed = True

    def do_client(self, w):
        from daisy.messages import ClientException

        m = ClientException(self.failure(), w.context)
        m.stream = w.stream
        self.E.reach("sent by a client")
        return m

    def init_callback(self, task_id):
        f = super().init_callback(task_id)

        def g(context):
            f(context)
            if self.callback and self.error_budget > 0 and self.E.flag("callback." + task_id):
                self.E.reach("initialization raised")
                raise self.failure()

        return g

    def get_message(self, timeout):
        if self.errors:
            self.since += 1
            self.E.check(self.since < 20, "the run goes on although a worker raised")
        return super().get_message(timeout)

    def run(self, server):
        try:
            states = server.run_blockwise(self.tasks, scheduler=self.sch)
        except Failure as e:
            self.E.check(str(e) in self.errors, "raised %s, but %s happened" % (e, self.errors))
            self.E.check(not any(w.alive for w in self.workers), "workers were not stopped after an error")
            self.E.check(all(w.stream is None or w.stream.closed() for w in self.workers),
                         "connections were not closed after an error")
            self.E.reach("raised in the caller")
            self.E.observe(str(e), len(self.workers))
            return
        self.E.check(self.since < 2, "the error of a worker was swallowed")
        if not self.errors:
            self.E.reach("no error")
        self.end(states)


def errors(E, **kw):
    ErrorWorld(E, **kw)


def through(E, n):
    """run_blockwise passes the error of the server on to its caller"""
    import daisy
    from daisy import Roi, Task
    from . import c22
    from .geom import noop

    tasks = [Task("task%d" % i, Roi((0,), (4,)), Roi((0,), (1,)), Roi((0,), (1,)), noop) for i in range(n)]

    def run(server, tasks):
        raise Failure("in the server")

    interrupted = E.flag("interrupted")
    with c22.patched(E, c22.fake_server({}, run), interrupt=interrupted):
        try:
            r = daisy.run_blockwise(tasks, multiprocessing=E.flag("multiprocessing"))
        except Failure as e:
            E.check(str(e) == "in the server", "another error is raised")
            E.reach("passed on")
        else:
            E.check(False, "returned %s although the server raised" % r)
    E.observe(interrupted)


def case(topo, reach=(), **kw):
    return Case("errors", topo=topo, reach=list(reach),
                bounds="server, topology %s: %s; all interleavings" % (topo, ", ".join("%s=%s" % x for x in sorted(kw.items()))),
                **kw)


def cases(tier):
    q = tier == "quick"
    out = [
        case("one", errors=1, workers=1, rmax=1, reach=["raised before connecting", "raised while waiting", "sent by a client", "raised in the caller", "no error"]),
        case("free2", errors=1, workers=2, fails=1),
        case("chain2", errors=2, workers=2, fails=0),
        case("pair", errors=1, workers=1, fails=1, callback=True, reach=["initialization raised"]),
        case("indep", errors=1, workers=1, fails=0, callback=True),
        case("lanes2", errors=1, workers=1, fails=0),
    ]
    out.append(Case("through", n=2, reach=["passed on"], bounds="run_blockwise with 2 tasks, a server that raises, also after an interrupt"))
    if not q:
        out += [
            case("free2", errors=2, workers=2, crashes=1, fails=0),
            case("tchain", errors=2, workers=1, fails=1, callback=True),
            case("diamond", errors=1, workers=1, fails=1, callback=True),
            case("chain3", errors=1, workers=2, fails=0),
        ]
    return out
