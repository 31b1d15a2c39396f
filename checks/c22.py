"""C22: a run includes every required task and tells if all blocks succeeded"""
import contextlib
import sys

from symx.runner import Case
from .drive import DONE, SKIPPED, TOPOLOGIES, Driver, build
from .geom import noop
from .stub import Stubs, thread_stubs

ASSUMPTIONS = ["the server reports the true state of every task (C11, C15)", "task ids are unique"]
OUTSIDE = "more tasks than stated; cyclic dependencies"
STUBS = [
    "Server: returns task states with symbolic counts, or drives the real Scheduler with symbolic outcomes and may stop early",
    "ThreadPool (also ThreadPoolExecutor, Thread): runs the function at once in the same thread, may be interrupted once while waiting",
]


@contextlib.contextmanager
def patched(E, server, interrupt=False):
    """replace the servers and the thread pool"""
    import daisy.convenience  # noqa
    import daisy.serial_server
    import daisy.server

    class Job:
        def __init__(self, f):
            self.f, self.value, self.waits = f, None, 0
            if not interrupt:
                self.run()

        def run(self):
            try:
                self.value = (self.f(), None)
            except Exception as e:
                self.value = (None, e)

        def get(self):
            self.waits += 1
            if self.value is None:
                if interrupt and self.waits == 1:
                    raise KeyboardInterrupt()
                self.run()
            return self.value

        def ready(self):
            return self.value is not None

    with Stubs(without=["daisy.tcp"]) as stubs:
        stubs.own(daisy.server.Server, server)
        stubs.own(daisy.serial_server.SerialServer, server)
        thread_stubs(stubs, Job)
        yield


def fake_server(log, run):
    from daisy.server_observer import ServerObservee

    class FakeServer(ServerObservee):
        def __init__(self, stop_event=None):
            super().__init__()
            self.stop_event = stop_event
            log["servers"] = log.get("servers", 0) + 1

        def run_blockwise(self, tasks, scheduler=None):
            log["tasks"] = list(tasks)
            return run(self, tasks)

    return FakeServer


def dag(E, n, given, mp):
    """every acyclic graph of n tasks, every list of given tasks"""
    import daisy
    from daisy import Roi, Task
    from daisy.task_state import TaskState

    tasks, ups = [], []
    for i in range(n):
        up = [j for j in range(i) if bool(E.bool("e%d%d" % (i, j)))]
        tasks.append(Task("task%d" % i, Roi((0,), (4,)), Roi((0,), (1,)), Roi((0,), (1,)), noop, upstream_tasks=[tasks[j] for j in up]))
        ups.append(up)
    lst = []
    for k in range(given):
        lst.append(E.choice("given%d" % k, n))
    arg = [tasks[i] for i in lst]
    want, todo = set(), list(lst)
    while todo:
        i = todo.pop()
        if i not in want:
            want.add(i)
            todo += ups[i]
    log = {}

    def run(server, ts):
        out = {}
        for t in ts:
            s = TaskState()
            s.total_block_count = s.completed_count = 4
            out[t.task_id] = s
        return out

    before = list(arg)
    with patched(E, fake_server(log, run)):
        daisy.run_blockwise(arg, multiprocessing=mp)
    got = [t.task_id for t in log["tasks"]]
    E.check(len(got) == len(set(got)), "a task is scheduled twice: %s" % got)
    E.check(set(got) == {"task%d" % i for i in want}, "scheduled tasks are %s, required %s" % (sorted(got), sorted(want)))
    E.check(all(any(t is x for x in tasks) for t in log["tasks"]), "another task object")
    E.check(len(arg) == len(before) and all(a is b for a, b in zip(arg, before)), "the caller's list was changed")
    for i, t in enumerate(tasks):
        E.check([u.task_id for u in t.upstream_tasks] == ["task%d" % j for j in ups[i]], "dependencies of a task were changed")
    if len(want) > len(set(lst)):
        E.reach("implied tasks")
    if len(set(lst)) < len(lst):
        E.reach("given twice")
    E.observe(sorted(got))
    E.reach("run")


def result(E, n):
    """every combination of counts"""
    import daisy
    from daisy import Roi, Task
    from daisy.task_state import TaskState

    tasks = [Task("task%d" % i, Roi((0,), (4,)), Roi((0,), (1,)), Roi((0,), (1,)), noop) for i in range(n)]
    states, ok = {}, []
    for t in tasks:
        s = TaskState()
        k = t.task_id

        def num(what):
            return E.int("%s.%s" % (k, what), 0, None, eager=(0, 1))

        s.ready_count, s.processing_count, s.failed_count, s.orphaned_count = num("ready"), num("processing"), num("failed"), num("orphaned")
        done, waiting = num("completed"), num("waiting")
        s.completed_count = done
        s.skipped_count = num("skipped")
        E.assume(s.skipped_count <= done)
        if hasattr(s, "started"):
            s.started = True
        s.total_block_count = done + waiting + s.ready_count + s.processing_count + s.failed_count + s.orphaned_count
        states[k] = s
        ok.append(s.total_block_count == done)
    log = {}
    interrupt = E.flag("interrupt")

    def run(server, ts):
        log["stopped"] = server.stop_event is not None and server.stop_event.is_set()
        return states

    with patched(E, fake_server(log, run), interrupt):
        r = daisy.run_blockwise(list(tasks))
    want = E.land(*ok)
    E.check(E.iff(r, want) if not isinstance(r, int) or isinstance(r, bool) else False, "result is %s" % (r if isinstance(r, bool) else "?"))
    if interrupt:
        E.check(log["stopped"], "server was not told to stop")
        E.reach("interrupted")
    if bool(want):
        E.reach("all succeeded")
    else:
        E.reach("not all succeeded")
    E.observe(bool(r))


def outcome(E, topo, rmax, check=""):
    """the real scheduler, any outcomes, stopped at any time"""
    import daisy

    spec = TOPOLOGIES[topo]
    retries = {d["name"]: E.int("retries." + d["name"], 0, rmax) for d in spec}
    holder = {}
    tasks = build(spec, retries, {t: lambda b: holder["d"].check_function(b) for t in check.split()})
    log = {}

    def run(server, ts):
        d = holder["d"] = Driver(E, "C22", ts, retries, False, ("no", "yes"))
        step = 0
        while True:
            ready = [t.task_id for t in ts if d.sch.task_states[t.task_id].ready_count]
            if ready:
                d.acquire(ready[0])
                continue
            if not d.held:
                break
            op = E.pick("op%d" % step, ["stop", "ok", "fail"])
            if op == "stop":
                E.reach("stopped early")
                break
            d.release(0, op == "ok")
            step += 1
        return d.sch.task_states

    with patched(E, fake_server(log, run)):
        r = daisy.run_blockwise(tasks)
    ok = all(n.state in (DONE, SKIPPED) for n in holder["d"].ref.nodes.values())
    E.check(r is ok or r == ok and isinstance(r, (bool, int)), "result is %s, but %s" % (
        r, sorted((str(n.bid), n.state) for n in holder["d"].ref.nodes.values())))
    E.reach("true" if ok else "false")
    E.observe(ok)


def cases(tier):
    q = tier == "quick"
    out = []
    for n, g in ((3, 1), (3, 2), (4, 1), (3, 3)) + (() if q else ((4, 2), (5, 1), (4, 3))):
        for mp in (True, False):
            out.append(Case("dag", n=n, given=g, mp=mp, reach=["run", "implied tasks"],
                            bounds="every acyclic graph of %d tasks, every list of %d of them" % (n, g)))
    for n in (1, 2) if q else (1, 2, 3):
        out.append(Case("result", n=n, reach=["all succeeded", "not all succeeded", "interrupted"],
                        bounds="%d task(s) with arbitrary counts of blocks in each state" % n))
    for t, r, c in (("one", 1, ""), ("one", 1, "a"), ("free2", 1, ""), ("chain3", 1, ""), ("pair", 1, ""), ("cross", 0, "a"), ("diamond", 0, ""),
                    ("tchain", 1, ""), ("empty_up", 0, ""), ("split", 0, "a b")):
        out.append(Case("outcome", topo=t, rmax=r, check=c, reach=["true", "false", "stopped early"],
                        bounds="topology %s, retries 0..%d, any outcome, stopped at any time" % (t, r)))
    return out
