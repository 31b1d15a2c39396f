"""C27: a run that is interrupted stops soon and cleanly"""
import multiprocessing
import threading

from symx.runner import Case
from . import srv
from .stub import Stubs, thread_stubs
from .drive import DONE, SKIPPED
from .srv import ASSUMPTIONS, OUTSIDE  # noqa

STUBS = srv.STUBS + [
    "ThreadPool (also ThreadPoolExecutor, Thread): one thread; only one of the caller and this thread runs at a time, the caller is interrupted while it waits "
    "for the result at a symbolic moment; multiprocessing.Event: threading.Event; CLMonitor: nothing"]

# messages the server may still handle after it was told to stop
SLACK = 4


class Turns:
    """the caller and the thread of the server take turns"""

    def __init__(self):
        self.mine = threading.Semaphore(0)  # the caller may go on
        self.theirs = threading.Semaphore(0)  # the server may go on
        self.value = None
        self.thread = None
        self.interrupted = False

    def start(self, f):
        def main():
            self.theirs.acquire()
            try:
                self.value = (f(), None)
            except BaseException as e:
                self.value = (None, e)
            self.mine.release()

        self.thread = threading.Thread(target=main, daemon=True)
        self.thread.start()

    def interrupt(self):
        """called by the server's thread"""
        self.interrupted = True
        self.mine.release()
        self.theirs.acquire()

    def get(self):
        """called by the caller"""
        if self.value is None:
            self.theirs.release()
            self.mine.acquire()
        if self.value is None:
            raise KeyboardInterrupt()
        if self.value[1] is not None and not isinstance(self.value[1], Exception):
            raise self.value[1]
        return self.value


class StopWorld(srv.World):
    def __init__(self, E, through=False, **kw):
        self.through = through
        self.since = 0
        self.turns = Turns()
        super().__init__(E, "C27", stop=True, **kw)

    def get_message(self, timeout):
        if self.stopped:
            self.since += 1
            self.E.check(self.since <= SLACK, "the run goes on although it was told to stop")
        return super().get_message(timeout)

    def tell_to_stop(self):
        self.handed_out = sum(1 for w in self.workers if w.block is not None)
        if any(w.block is not None for w in self.workers):
            self.E.reach("blocks were being processed")
        if self.through:
            self.turns.interrupt()
        else:
            self.event.set()

    def end(self, states):
        super().end(states)
        self.E.check(not self.stopped or not any(w.started and w.alive for w in self.workers), "workers were not stopped")
        self.E.reach("stopped early" if self.stopped and not self.ref.finished() else "finished before")

    def run(self, server):
        if not self.through:
            return self.end(server.run_blockwise(self.tasks, scheduler=self.sch))
        import daisy
        from daisy.cl_monitor import CLMonitor
        from daisy.server import Server

        world, turns = self, self.turns
        early = self.E.flag("interrupted before it runs")

        class Served(Server):
            def run_blockwise(self, tasks, scheduler=None):
                world.E.check(sorted(t.task_id for t in tasks) == sorted(t.task_id for t in world.tasks), "other tasks")
                states = super().run_blockwise(tasks, scheduler=world.sch)
                world.states = states
                return states

        class Job:
            waits, slow = 0, 2

            def __init__(self, f):
                turns.start(f)

            def get(self):
                self.waits += 1
                if early and self.waits == 1:
                    world.stopped, world.may_stop = True, False
                    world.E.reach("interrupted at once")
                    raise KeyboardInterrupt()
                return turns.get()

            def ready(self):
                return turns.value is not None

            def late(self):
                # stopping takes longer than any time to wait
                if self.slow > 0 and world.E.flag("slow%d" % self.slow):
                    self.slow -= 1
                    world.E.reach("waited in vain")
                    return True
                self.slow = 0
                return False

        try:
            with Stubs(without=["daisy.tcp"]) as stubs:
                stubs.own(Server, Served)
                stubs.own(CLMonitor, lambda s: None)
                thread_stubs(stubs, Job)
                stubs.names(multiprocessing.Event, threading.Event)
                stubs.put(multiprocessing, "Event", threading.Event)
                r = daisy.run_blockwise(list(self.tasks))
            self.E.check(turns.value is not None, "returned while the server is running")
        finally:
            while turns.thread is not None and turns.value is None:
                # let the thread end
                self.since = SLACK
                turns.theirs.release()
                turns.mine.acquire()
        ok = all(n.state in (DONE, SKIPPED) for n in self.ref.nodes.values())
        self.E.check(r is ok, "result is %s, but it is %s that all blocks succeeded" % (r, ok))
        self.end(self.states)


def stop(E, **kw):
    StopWorld(E, **kw)


def case(topo, reach=(), **kw):
    return Case("stop", topo=topo, reach=list(reach),
                bounds="server%s, topology %s: %s; all interleavings, interrupted at every point" % (
                    " run by run_blockwise" if kw.get("through") else "", topo, ", ".join("%s=%s" % x for x in sorted(kw.items()))),
                **kw)


def cases(tier):
    q = tier == "quick"
    out = [
        case("one", workers=1, rmax=1, reach=["stopped early", "finished before", "told to stop", "blocks were being processed"]),
        case("one", workers=1, rmax=1, through=True, reach=["stopped early", "finished before", "told to stop", "interrupted at once"]),
        case("chain2", workers=2, fails=1, through=True),
        case("free2", workers=2, fails=1),
        case("pair", workers=1, fails=1, crashes=1),
        case("indep", workers=1, fails=0, through=True),
        case("pair", workers=1, check=("a",), fails=0, through=True),
    ]
    if not q:
        out += [
            case("free2", workers=2, crashes=1),
            case("tchain", workers=1, fails=1, through=True),
            case("diamond", workers=1, fails=1, through=True),
            case("chain3", workers=2, fails=1, through=True),
            case("lanes2", workers=2, fails=0, through=True),
        ]
    return out
