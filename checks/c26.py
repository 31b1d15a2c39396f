"""C26: progress and execution summary tell the truth"""
import contextlib
import io
import re
import sys

from symx.runner import Case
from . import c21, srv
from .stub import Stubs
from .drive import DONE, FAILED, ORPHAN, READY, RUNNING, SKIPPED, WAITING
from .srv import ASSUMPTIONS, OUTSIDE  # noqa

STUBS = srv.STUBS + ["tqdm: a progress bar that only counts; standard output is captured"]


class Bar:
    def __init__(self, iterable=None, desc=None, total=None, leave=True, **kw):
        self.total, self.n, self.desc, self.closed = total, kw.get("initial", 0), desc, False
        BARS.append(self)

    def update(self, n=1):
        self.n += n

    def set_postfix(self, ordered_dict=None, refresh=True, **kw):
        self.postfix = dict(ordered_dict or {}, **kw)

    def set_description(self, desc=None, refresh=True):
        self.desc = desc

    def set_postfix_str(self, s="", refresh=True):
        self.postfix = s

    set_description_str = set_description

    def refresh(self, *a, **kw):
        pass

    def reset(self, total=None):
        self.n = 0
        self.total = total or self.total

    def close(self):
        self.closed = True

    @classmethod
    def write(cls, s, **kw):
        pass


BARS = []
ALL = (DONE, SKIPPED, FAILED, ORPHAN, RUNNING, READY, WAITING)


@contextlib.contextmanager
def quiet():
    """no terminal"""
    import tqdm
    import tqdm.auto
    import tqdm.std

    BARS.clear()
    out = io.StringIO()
    with Stubs() as stubs:
        for m in (tqdm.auto, tqdm, tqdm.std):
            stubs.names(m.tqdm, Bar)
            stubs.put(m, "tqdm", Bar)
        with contextlib.redirect_stdout(out):
            yield out


def bar_of(task):
    return [b for b in BARS if b.desc is not None and b.desc.split()[0] == task]


def sections(text):
    """parts of the summary, by task"""
    parts = re.split(r"^\s*Task (\S+):\s*$", text, flags=re.M)
    out = {}
    for t, body in zip(parts[1::2], parts[2::2]):
        out.setdefault(t, []).append(body)
    return out


def number(E, body, pattern, what):
    m = re.search(pattern, body)
    E.check(m is not None, "the summary does not tell the number of %s" % what)
    return int(m.group(1))


def summary(E, text, tasks, started, count, failures):
    """text is the right summary; count(task, *states): number of blocks"""
    sec = sections(text)
    E.check(sorted(sec) == sorted(started), "summary of tasks %s instead of %s" % (sorted(sec), sorted(started)))
    for t in sec:
        E.check(len(sec[t]) == 1, "two summaries of task %s" % t)
        body = sec[t][0]
        total = count(t, *ALL)
        want = {
            (r"num blocks\s*:\s*(-?\d+)", "blocks"): total,
            (r"completed[^:\n]*:\s*(-?\d+)", "completed blocks"): count(t, DONE, SKIPPED),
            (r"skipped\D*(-?\d+)", "skipped blocks"): count(t, SKIPPED),
            (r"failed[^:\n]*:\s*(-?\d+)", "failed blocks"): count(t, FAILED),
            (r"orphaned[^:\n]*:\s*(-?\d+)", "orphaned blocks"): count(t, ORPHAN),
        }
        for (pattern, what), n in want.items():
            got = number(E, body, pattern, what)
            E.check(got == n, "the summary of task %s tells %d %s instead of %d" % (t, got, what, n))
        good = "all blocks processed successfully" in body
        E.check(good == (count(t, DONE, SKIPPED) == total), "task %s is said to be %s" % (t, "good" if good else "not good"))
        E.reach("all good" if good else "not all good")
        got = sorted((int(a), int(b)) for a, b in re.findall(r"block (\d+) in worker (\d+)", body))
        E.check(got == sorted(failures.get(t, [])), "failures %s of task %s are listed as %s" % (failures.get(t), t, got))
        if got:
            E.reach("failures listed")


class MonitorWorld(srv.World):
    def __init__(self, E, **kw):
        self.failures = {}
        super().__init__(E, "C26", **kw)

    def message(self, w, kind, block=None, ok=None):
        if kind == "failed":
            n = self.E.concretize(block.block_id[1])
            self.failures.setdefault(w.task, []).append((n, int(w.context["worker_id"])))
        return super().message(w, kind, block, ok)

    def observed(self):
        events = {x[1] for x in self.log if not x[0].startswith("want")}
        super().observed()
        for t in self.ref.task_ids:
            if t in events:
                self.E.check(len(bar_of(t)) == 1, "no or several progress bars of task %s" % t)
                b = bar_of(t)[0]
                self.E.check(b.n == self.ref.count(t, DONE, SKIPPED), "progress of task %s is %s, but %d blocks are done" % (
                    t, b.n, self.ref.count(t, DONE, SKIPPED)))
            for b in bar_of(t):
                self.E.check(b.total == self.total(t), "progress of task %s is out of %s" % (t, b.total))
                self.E.check(0 <= b.n <= self.ref.count(t, DONE, SKIPPED),
                             "progress of task %s is %s, but %d blocks are done" % (t, b.n, self.ref.count(t, DONE, SKIPPED)))
                self.E.reach("progress")

    def total(self, t):
        return self.ref.count(t, *ALL)

    def run(self, server):
        from daisy.cl_monitor import CLMonitor

        with quiet() as out:
            CLMonitor(server)
            states = server.run_blockwise(self.tasks, scheduler=self.sch)
        summary(self.E, out.getvalue(), self.tasks, set(self.started_tasks) | set(self.done_tasks), self.ref.count, self.failures)
        self.E.check(all(b.closed for b in BARS), "a progress bar is left open")
        self.end(states)


def monitor(E, **kw):
    MonitorWorld(E, **kw)


class SerialRun(c21.Run):
    def launch(self, tasks, spec, direct):
        from daisy.cl_monitor import CLMonitor
        from daisy.serial_server import SerialServer

        self.started = set()
        with quiet() as self.out:
            server = SerialServer()
            CLMonitor(server)
            return server.run_blockwise(tasks)

    def chk(self, cond, msg):
        if not bool(cond):
            self.E.done()  # C21

    def process(self, task, block):
        super().process(task, block)
        self.started.add(task)
        bars = bar_of(task)
        self.E.check(len(bars) == 1, "no or several progress bars of task %s" % task)
        done = self.ref.count(task, DONE, SKIPPED)
        self.E.check(bars[0].n == done, "progress of task %s is %s, but %d blocks are done" % (task, bars[0].n, done))

    def end(self, states, names):
        self.settle()
        if not self.ref.finished() or set(states) != set(names):
            self.E.done()  # C21
        summary(self.E, self.out.getvalue(), None, self.started, self.ref.count, {})
        for t in self.started:
            b = bar_of(t)[0]
            self.E.check(b.total == self.ref.count(t, *ALL), "progress of task %s is out of %s" % (t, b.total))
            # blocks that are skipped in the end may not be shown
            done = self.ref.count(t, DONE, SKIPPED)
            self.E.check(b.n == done or (self.ref.count(t, SKIPPED) and b.n < done),
                         "progress of task %s ends at %s, but %d blocks are done" % (t, b.n, done))
        self.E.check(all(b.closed for b in BARS), "a progress bar is left open")
        self.E.observe(sorted((str(n.bid), n.state) for n in self.ref.nodes.values()))
        self.E.reach("serial")


def serial(E, topo, rmax=0, check="", order=0):
    SerialRun(E, topo, rmax, check, ["nothing", "failed"], order, True)


def through(E, n):
    """run_blockwise monitors the run"""
    import daisy
    from daisy import Roi, Task
    from daisy.task_state import TaskState
    from . import c22
    from .geom import noop

    tasks = [Task("task%d" % i, Roi((0,), (4,)), Roi((0,), (1,)), Roi((0,), (1,)), noop) for i in range(n)]
    started = [t.task_id for t in tasks if E.flag("started." + t.task_id)]
    mp = E.flag("multiprocessing")
    good = E.flag("good")

    def run(server, tasks):
        states = {}
        for t in tasks:
            s = states[t.task_id] = TaskState()
            s.total_block_count = 3
            if t.task_id in started:
                server.notify_task_start(t.task_id, s)
                server.notify_acquire_block(t.task_id, s)
                s.completed_count, s.failed_count = (3, 0) if good else (2, 1)
                server.notify_release_block(t.task_id, s)
                server.notify_task_done(t.task_id, s)
        server.notify_server_exit()
        return states

    def count(t, *states):
        if states == ALL:
            return 3
        return sum({DONE: 3 if good else 2, FAILED: 0 if good else 1}.get(s, 0) for s in states)

    with quiet() as out, c22.patched(E, c22.fake_server({}, run)):
        daisy.run_blockwise(tasks, multiprocessing=mp)
    summary(E, out.getvalue(), tasks, started, count, {})
    E.reach("monitored")
    E.observe(started, mp, good)


def case(topo, reach=(), **kw):
    return Case("monitor", topo=topo, reach=list(reach),
                bounds="server, topology %s: %s; all interleavings" % (topo, ", ".join("%s=%s" % x for x in sorted(kw.items()))),
                **kw)


def cases(tier):
    q = tier == "quick"
    lab = ["progress", "all good", "not all good", "failures listed"]
    out = [
        case("one", workers=1, rmax=1, crashes=1, reach=lab),
        case("free2", workers=1, rmax=1, fails=2),
        case("chain2", workers=2, crashes=1, fails=1),
        case("pair", workers=1, rmax=1, fails=2),
        case("free2", workers=2, stop=True, fails=1),
        case("tchain", workers=1, check=["a", "b", "c"], reach=["skipped"]),
        case("empty_up", workers=1),
        case("free2", workers=1, check=["a"], fails=1, reach=["skipped", "progress"]),
        case("chain3", workers=1, check=["a"], fails=1, reach=["skipped", "progress"]),
        case("cross", workers=1, fails=1),
    ]
    out.append(Case("through", n=2, reach=["monitored"], bounds="run_blockwise with 2 tasks that are started or not"))
    for topo, kw in (("free2", dict(rmax=1)), ("pair", dict(rmax=1, check="a b")), ("chain3", {}), ("cross", dict(order=1)),
                     ("empty_up", {}), ("diamond", {}), ("free3", dict(check="a")), ("chain3", dict(check="a")), ("late", dict(order=1))):
        out.append(Case("serial", topo=topo, reach=["serial"], bounds="serial run, topology %s: %s" % (topo, kw), **kw))
    if not q:
        out += [
            case("diamond", workers=1, fails=2),
            case("fork", workers=1, check=["a", "b"], fails=1),
            case("lanes2", workers=2, crashes=1, fails=0),
            case("chain3", workers=2, crashes=1, rmax=1, fails=1),
            case("free3", workers=2, rmax=1, fails=2),
        ]
    return out
