"""C23: task lifecycle events"""
from symx.runner import Case
from . import c21
from .drive import READY, RUNNING, WAITING
from .srv import ASSUMPTIONS, OUTSIDE, STUBS, case  # noqa


class SerialRun(c21.Run):
    """a serial run with an observer"""

    def launch(self, tasks, spec, direct):
        from daisy.serial_server import SerialServer
        from daisy.server_observer import ServerObserver

        run = self
        self.log = []

        class Observer(ServerObserver):
            def on_task_start(self, task_id, task_state):
                run.log.append(("start", task_id))

            def on_acquire_block(self, task_id, task_state):
                run.log.append(("acquire", task_id))

            def on_release_block(self, task_id, task_state):
                run.log.append(("release", task_id))

            def on_task_done(self, task_id, task_state):
                run.settle()
                run.E.check(not run.ref.count(task_id, READY, RUNNING, WAITING), "task %s announced as done too early" % task_id)
                run.log.append(("done", task_id))

        server = SerialServer()
        Observer(server)
        return server.run_blockwise(tasks)

    def chk(self, cond, msg):
        if not bool(cond):
            self.E.done()  # C21

    def process(self, task, block):
        super().process(task, block)
        self.log.append(("process", task))

    def end(self, states, names):
        E = self.E
        self.settle()
        for i, (what, t) in enumerate(self.log):
            before = [x for x, u in self.log[:i] if u == t]
            if what == "start":
                E.check("start" not in before, "start of task %s announced twice" % t)
            else:
                E.check("start" in before or what == "done", "%s of task %s before its start was announced" % (what, t))
                E.check("done" not in before, "%s of task %s after it was announced as done" % (what, t))
        for t in names:
            seq = [x for x, u in self.log if u == t and x in ("acquire", "process", "release")]
            E.check(seq == ["acquire", "process", "release"] * (len(seq) // 3) and len(seq) % 3 == 0,
                    "observers of task %s were told: %s" % (t, seq))
        E.observe([list(x) for x in self.log])
        E.reach("serial")


def serial(E, topo, rmax=0, check="", order=0):
    SerialRun(E, topo, rmax, check, ["nothing", "failed"], order, True)


def cases(tier):
    q = tier == "quick"
    ab = ["a", "b"]
    out = [
        case("C23", "one", workers=2, crashes=1, rmax=1, reach=["finished", "taken back", "block failed"]),
        case("C23", "chain2", workers=2, crashes=1, fails=1),
        case("C23", "pair", workers=1, crashes=1, rmax=1, fails=2),
        case("C23", "lanes2", workers=1, order=1),
        case("C23", "tchain", workers=1, order=1, rmax=1, fails=2),
        case("C23", "tchain", workers=1, check=["a", "b", "c"], reach=["skipped"]),
        case("C23", "fork", workers=1, check=ab, fails=1),
        case("C23", "lanes2", workers=1, check=ab, fails=1),
        case("C23", "empty_up", workers=1),
        case("C23", "beyond", workers=1, fails=0),
        case("C23", "indep", workers=1, fails=1),
        case("C23", "late", workers=1, order=1, fails=0),
        case("C23", "diamond", workers=1, order=1, fails=1),
    ]
    for topo, kw in (("free2", dict(rmax=1)), ("pair", dict(rmax=1, check="a b")), ("chain3", {}), ("cross", dict(order=1)),
                     ("empty_up", {}), ("diamond", {}), ("beyond", dict(rmax=1)), ("indep", {}),
                     ("late", dict(order=1, rmax=1)), ("late", dict(order=1, check="c"))):
        out.append(Case("serial", topo=topo, reach=["serial"], bounds="serial run, topology %s: %s" % (topo, kw), **kw))
    if not q:
        out += [
            case("C23", "lanes3", workers=1, order=1, fails=0, idle=0),
            case("C23", "lanes2", workers=2, crashes=1, fails=0),
            case("C23", "deep", workers=1, order=1, fails=1),
            case("C23", "diamond", workers=1, order=1, check=["a", "b", "c"]),
            case("C23", "conflict2", workers=2, fails=1),
            case("C23", "chain3", workers=2, crashes=1, rmax=1, fails=1),
        ]
    return out
