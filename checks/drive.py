"""Drives the real Scheduler with symbolic schedules, outcomes and answers of
the check functions, and compares it with a reference state machine that is
written independently of it.  Shared by C07 - C12; every assertion names the
properties it belongs to."""
import pickle

import numpy as np

from .geom import noop

WAITING, READY, RUNNING, DONE, SKIPPED, FAILED, ORPHAN = (
    "waiting", "ready", "processing", "completed", "skipped", "failed", "orphaned")


class CheckError(Exception):
    pass


# --- topologies: concrete tasks (name, begin, end, context, write shape, conflict, upstream names)
def _t(name, begin, end, ctx=0, write=1, conflict=False, up=(), fit="shrink"):
    return dict(name=name, begin=begin, end=end, ctx=ctx, write=write, conflict=conflict, up=up, fit=fit)


TOPOLOGIES = {
    # one task
    "one": [_t("a", 0, 1)],
    "free2": [_t("a", 0, 2)],
    "free3": [_t("a", 0, 3)],
    "chain2": [_t("a", 0, 2, 1, conflict=True)],
    "chain3": [_t("a", 0, 3, 1, conflict=True)],
    "chain4": [_t("a", 0, 4, 1, conflict=True)],
    "chain5": [_t("a", 0, 5, 1, conflict=True)],
    "levels3": [_t("a", 0, 3, 2, conflict=True)],
    "levels4": [_t("a", 0, 4, 2, conflict=True)],
    "grid22": [_t("a", (0, 0), (2, 2), (1, 1), (1, 1), conflict=True)],
    # several tasks
    "pair": [_t("a", 0, 1), _t("b", 0, 1, up=("a",))],
    "cross": [_t("a", 0, 2), _t("b", 0, 2, 1, up=("a",))],
    "merge": [_t("a", 0, 2), _t("b", 0, 2, write=2, up=("a",))],
    "merge3": [_t("a", 0, 3), _t("b", 0, 3, write=3, up=("a",))],
    "split": [_t("a", 0, 2, write=2), _t("b", 0, 2, up=("a",))],
    "beyond": [_t("a", 0, 1), _t("b", 0, 3, up=("a",))],
    "beyond_conflict": [_t("a", 0, 1), _t("b", 0, 3, 1, conflict=True, up=("a",))],
    "tchain": [_t("a", 0, 1), _t("b", 0, 1, up=("a",)), _t("c", 0, 1, up=("b",))],
    "fork": [_t("a", 0, 1), _t("b", 0, 1), _t("c", 0, 1, up=("a", "b"))],
    "diamond": [_t("a", 0, 1), _t("b", 0, 1, up=("a",)), _t("c", 0, 1, up=("a",)), _t("d", 0, 1, up=("b", "c"))],
    "both": [_t("a", 0, 1), _t("b", 0, 1, up=("a",)), _t("c", 0, 1, up=("a", "b"))],
    "conflict2": [_t("a", 0, 2, 1, conflict=True), _t("b", 0, 2, 1, conflict=True, up=("a",))],
    "indep": [_t("a", 0, 1), _t("b", 0, 2, 1, conflict=True)],
    "empty_up": [_t("a", 0, 1, write=2, fit="valid"), _t("b", 0, 2, up=("a",))],
    "wide": [_t("a", 0, 3), _t("b", 0, 3, 1, up=("a",))],
    "chain7": [_t("a", 0, 7, 1, conflict=True)],
    "levels7": [_t("a", 0, 7, 2, conflict=True)],
    "grid23": [_t("a", (0, 0), (2, 3), (1, 1), (1, 1), conflict=True)],
    "grid33": [_t("a", (0, 0), (3, 3), (1, 1), (1, 1), conflict=True)],
    "grid222": [_t("a", (0, 0, 0), (2, 2, 2), (1, 1, 1), (1, 1, 1), conflict=True)],
    "conflict3": [_t("a", 0, 3, 1, conflict=True), _t("b", 0, 3, 1, conflict=True, up=("a",))],
    "lanes2": [_t("a", 0, 2), _t("b", 0, 2, up=("a",))],
    "lanes3": [_t("a", 0, 2), _t("b", 0, 2, up=("a",)), _t("c", 0, 2, up=("b",))],
    # b starts, waits for c, and ends after it
    "late": [_t("a", 0, 1), _t("c", 0, 1, up=("a",)), _t("b", 0, 2, up=("c",))],
    "deep": [_t("a", 0, 2), _t("b", 0, 2, up=("a",)), _t("c", 0, 2, 1, up=("b",))],
}


def build(spec, retries=0, check=None, process=None):
    """list of Tasks; retries: number or {name: number}; check: {name: fn}"""
    from daisy import Roi, Task

    tasks = {}
    for d in spec:
        b, e, c, w = (v if isinstance(v, tuple) else (v,) for v in (d["begin"], d["end"], d["ctx"], d["write"]))
        r = retries[d["name"]] if isinstance(retries, dict) else retries
        tasks[d["name"]] = Task(
            d["name"],
            Roi([x - y for x, y in zip(b, c)], [y - x + 2 * z for x, y, z in zip(b, e, c)]),
            Roi([-x for x in c], [x + 2 * y for x, y in zip(w, c)]),
            Roi([0] * len(w), w),
            (process[d["name"]] if isinstance(process, dict) else process) or noop,
            read_write_conflict=d["conflict"],
            fit=d["fit"],
            max_retries=r,
            check_function=None if check is None else check.get(d["name"]),
            upstream_tasks=[tasks[u] for u in d["up"]],
        )
    return list(tasks.values())


def key(block):
    t, i = block.block_id
    return (t, int(i.__index__()))


class Node:
    def __init__(self, bid, task, up):
        self.bid = bid
        self.task = task
        self.up = up
        self.down = []
        self.state = READY if not up else WAITING
        self.failures = 0
        self.last_check = None  # answer of the check function since it became ready


class Reference:
    """what the scheduler must do, as a state machine over the blocks"""

    def __init__(self, tasks, retries):
        from daisy.dependency_graph import DependencyGraph

        g = DependencyGraph(tasks)
        self.task_ids = [t.task_id for t in tasks]
        self.retries = retries
        self.nodes = {}
        for t in self.task_ids:
            for b, _ in g.task_dependency_graphs[t].enumerate_all_dependencies():
                self.nodes[key(b)] = Node(key(b), t, [key(u) for u in g.upstream(b)])
        for n in self.nodes.values():
            for u in n.up:
                self.nodes[u].down.append(n.bid)

    def of(self, task, *states):
        return [n for n in self.nodes.values() if n.task == task and n.state in states]

    def count(self, task, *states):
        return len(self.of(task, *states))

    def succeed(self, n, state):
        n.state = state
        for d in n.down:
            d = self.nodes[d]
            if d.state == WAITING and all(self.nodes[u].state in (DONE, SKIPPED) for u in d.up):
                d.state = READY

    def fail(self, n):
        """a failed attempt; returns True if it was the last"""
        n.failures += 1
        n.last_check = None
        if n.failures > self.retries[n.task]:
            n.state = FAILED
            todo = list(n.down)
            while todo:
                d = self.nodes[todo.pop()]
                if d.state != ORPHAN:
                    d.state = ORPHAN
                    todo += d.down
            return True
        n.state = READY
        return False

    def finished(self):
        return not any(n.state in (READY, RUNNING, WAITING) for n in self.nodes.values())


class Driver:
    def __init__(self, E, prop, tasks, retries, has_check, answers=("no", "yes", "raise"), copies=True):
        from daisy.scheduler import Scheduler

        self.E = E
        self.prop = prop
        self.copies = copies
        self.answers = answers
        self.ref = Reference(tasks, retries)
        self.has_check = has_check
        self.held = []
        self.ncheck = 0
        self.probing = False
        self.retried = self.skips = self.failures = 0
        self.sch = Scheduler(tasks)

    def chk(self, props, cond, msg, hard=True):
        """assertion belonging to the given properties"""
        if self.prop in props.split():
            self.E.check(cond, msg)
        elif hard and not bool(cond):
            self.E.done()  # another property is broken, nothing to say about this one

    # --- called by the code under test
    def check_function(self, block):
        bid = key(block)
        n = self.ref.nodes.get(bid)
        self.chk("C07 C12", n is not None, "check function called for an unknown block")
        self.chk("C07 C12", n.state == READY, "check function called for a block that is %s" % n.state)
        a = self.E.pick("check%d" % self.ncheck, self.answers)
        self.ncheck += 1
        self.E.reach("check " + a)
        if a.startswith("yes"):
            self.skips += 1
            self.ref.succeed(n, SKIPPED)
            return {"yes": True, "yes 1": 1, "yes numpy": np.bool_(True), "yes text": "done"}[a]
        n.last_check = a
        if a == "raise":
            raise CheckError("already done? %s" % (bid,))
        return {"no": False, "no 0": 0, "no numpy": np.bool_(False), "no none": None}[a]

    # --- operations
    def acquire(self, t):
        before = {n.bid for n in self.ref.of(t, READY)}
        b = self.sch.acquire_block(t)
        if b is None:
            left = self.ref.of(t, READY)
            props = "C08"
            if any(n.failures for n in left):
                props += " C09"
            if self.skips:
                props += " C12"
            if self.failures:
                props += " C10"
            self.chk(props, not left, "no block of task %s although %s can be processed" % (t, [n.bid for n in left]))
            return None
        bid = key(b)
        n = self.ref.nodes.get(bid)
        self.chk("C07", n is not None, "handed out block does not exist")
        self.chk("C07", n.task == t, "handed out block of another task")
        self.chk("C07 C08" + {ORPHAN: " C10", FAILED: " C09", SKIPPED: " C12"}.get(n.state, ""), n.state == READY,
                 "handed out block %s is %s" % (bid, n.state))
        if self.has_check:
            self.chk("C12", n.last_check is not None, "block handed out without asking the check function")
        if n.failures:
            self.retried += 1
            self.E.reach("retried")
        n.state = RUNNING
        n.last_check = None
        self.held.append((b, n))
        return b

    def release(self, i, ok):
        from daisy import BlockStatus

        b, n = self.held.pop(i)
        if self.copies:
            b = pickle.loads(pickle.dumps(b))
        b.status = BlockStatus.SUCCESS if ok else BlockStatus.FAILED
        self.sch.release_block(b)
        if ok:
            self.ref.succeed(n, DONE)
        elif self.ref.fail(n):
            self.failures += 1
            self.E.reach("failed for good")

    def counts(self):
        ref = self.ref
        for t in ref.task_ids:
            s = self.sch.task_states[t]
            c = ref.count
            for props, what, got, want in (
                ("C11", "ready", s.ready_count, c(t, READY)),
                ("C11", "processing", s.processing_count, c(t, RUNNING)),
                ("C11 C12" if self.skips else "C11", "completed", s.completed_count, c(t, DONE, SKIPPED)),
                ("C11 C12" if self.skips else "C11", "skipped", s.skipped_count, c(t, SKIPPED)),
                ("C11 C09" if self.retried else "C11", "failed", s.failed_count, c(t, FAILED)),
                ("C11 C10", "orphaned", s.orphaned_count, c(t, ORPHAN)),
                ("C11", "pending", s.pending_count, c(t, WAITING)),
                ("C11", "total", s.total_block_count, len([1 for n in ref.nodes.values() if n.task == t])),
            ):
                self.chk(props, got == want, "task %s: %d blocks counted as %s, but it is %d" % (t, got, what, want), hard=False)
            self.chk("C11 C08", bool(s.is_done()) == (c(t, DONE, SKIPPED, FAILED, ORPHAN) == s.total_block_count),
                     "task %s is reported as done or not done wrongly" % t, hard=False)
            if c(t, ORPHAN):
                self.E.reach("orphaned")
        ready = sorted(x.task_id for x in self.sch.get_ready_tasks())
        self.chk("C08", ready == sorted(t for t in ref.task_ids if c(t, READY)),
                 "tasks with ready blocks reported as %s" % ready, hard=False)

    def probe(self):
        """a request for a task that has nothing ready must give nothing"""
        for t in self.ref.task_ids:
            if not self.ref.count(t, READY):
                self.acquire(t)

    def run(self, mode):
        """mode 'all': any interleaving of requests and returns; 'greedy':
        request as much as possible between two returns; returns in any order"""
        E = self.E
        self.counts()
        step = 0
        while True:
            ready = [t for t in self.ref.task_ids if self.ref.count(t, READY)]
            if mode == "greedy" and ready:
                self.acquire(ready[0])
                self.counts()
                continue
            if len(self.held) > 1:
                E.reach("parallel")
            ops = [("a", t) for t in ready] + [("r", i) for i in range(len(self.held))]
            if not ops:
                break
            op, x = E.pick("op%d" % step, ops)
            if op == "a":
                self.acquire(x)
            else:
                self.release(x, E.flag("ok%d" % step))
            self.counts()
            self.probe()
            self.counts()
            step += 1
        self.end()

    def end(self):
        E = self.E
        self.chk("C08", self.ref.finished(), "blocks are left although nothing is ready or processed")
        for t in self.ref.task_ids:
            self.chk("C08", bool(self.sch.task_states[t].is_done()), "task %s is not done at the end" % t)
        for t in self.ref.task_ids:
            self.chk("C08 C07", self.sch.acquire_block(t) is None, "block handed out at the end")
        E.observe(sorted((str(n.bid), n.state, n.failures) for n in self.ref.nodes.values()))
        E.reach("finished")


def schedule(E, prop, topo, mode, rmax=0, check="", answers=("no", "yes", "raise"), order=0):
    """concrete topology, symbolic schedule, outcomes, check answers and
    numbers of retries (0..rmax per task)"""
    spec = TOPOLOGIES[topo]
    retries = {d["name"]: E.int("retries." + d["name"], 0, rmax) for d in spec}
    holder = {}
    chk = {name: lambda b: holder["d"].check_function(b) for name in check.split()}
    tasks = build(spec, retries, chk)
    if order:
        tasks = tasks[::-1]
    d = Driver(E, prop, tasks, retries, bool(check), tuple(answers))
    d.has_check = False
    holder["d"] = d
    if len(check.split()) == len(spec):
        d.has_check = True
    d.run(mode)


def geometry(E, prop, dims, wmax, cmax, nmax, fit, conflict, two=False, sym=True, retries=0, emin=1):
    """symbolic geometry; blocks are processed in a fixed order, one of them
    (symbolic) fails"""
    from .geom import Spec

    a = Spec(E, "a", dims, wmax, cmax, nmax, fit, conflict, cwrel=True, sym=sym, retries=retries, emin=emin)
    tasks = [a.task]
    if two:
        b = Spec(E, "b", dims, wmax, cmax, nmax, fit, conflict, cwrel=True, sym=sym, retries=retries, emin=emin,
                 upstream=[a.task])
        tasks.append(b.task)
    d = Driver(E, prop, tasks, {t.task_id: retries for t in tasks}, False, copies=False)
    n = len(d.ref.nodes)
    bad = E.choice("bad", n + 1)
    i = 0
    d.counts()
    while True:
        ready = [t for t in d.ref.task_ids if d.ref.count(t, READY)]
        if ready:
            d.acquire(ready[-1])
        elif d.held:
            d.release(0, i != bad)
            i += 1
        else:
            break
        d.counts()
        d.probe()
    d.end()


def surface(E, prop, n, mode="all"):
    """ReadySurface alone on an arbitrary (symbolic) acyclic graph of n nodes"""
    from daisy.ready_surface import ReadySurface

    edge = {(i, j): E.bool("e%d%d" % (i, j)) for i in range(n) for j in range(i)}  # i depends on j

    def up(i):
        return [j for j in range(i) if bool(edge[i, j])]

    def down(j):
        return [i for i in range(j + 1, n) if bool(edge[i, j])]

    rs = ReadySurface(down, up)
    state = {i: WAITING for i in range(n)}
    ups = {i: up(i) for i in range(n)}
    downs = {i: down(i) for i in range(n)}
    offered = [i for i in range(n) if not ups[i]]
    for i in offered:
        state[i] = READY
    step = 0
    while offered:
        i = offered.pop(E.choice("op%d" % step, len(offered)))
        if E.flag("ok%d" % step):
            new = list(rs.mark_success(i))
            state[i] = DONE
            want = [d for d in downs[i] if state[d] == WAITING and all(state[u] == DONE for u in ups[d])]
            for d in want:
                state[d] = READY
            bad = [d for d in new if d not in want]
            if prop in ("C07", "C08"):
                E.check(not bad, "nodes offered that are not ready: %s" % bad)
            elif bad:
                E.done()
            if prop in ("C08", "C10"):
                E.check(sorted(new) == sorted(want), "ready nodes are %s, offered %s" % (want, new))
            elif sorted(new) != sorted(want):
                E.done()
            offered += want
            E.reach("unlocked" if want else "unlocked nothing")
        else:
            got = list(rs.mark_failure(i, count_all_orphans=True))
            state[i] = FAILED
            want, todo = [], list(downs[i])
            while todo:
                d = todo.pop()
                if state[d] != ORPHAN:
                    state[d] = ORPHAN
                    want.append(d)
                    todo += downs[d]
            if prop in ("C10", "C11"):
                E.check(sorted(got) == sorted(want), "new orphans are %s, reported %s" % (sorted(want), sorted(got)))
            elif sorted(got) != sorted(want):
                E.done()
            if want:
                E.reach("orphaned")
        step += 1
    if prop == "C08":
        E.check(all(s in (DONE, FAILED, ORPHAN) for s in state.values()), "nodes are left over: %s" % state)
    E.observe([state[i] for i in range(n)])


ASSUMPTIONS = [
    "blocks are returned only by whoever holds them, once, as SUCCESS or FAILED (the server guarantees this: C13)",
    "the dependency graph is as reported by DependencyGraph.upstream (decided by C04 - C06)",
]
OUTSIDE = ("more blocks or tasks, other dependency structures, more retries than stated; geometry is concrete in the "
           "scheduler cases (symbolic geometry is covered by C01 - C06 and the 'geometry' cases)")
STUBS = ["check functions answer symbolically (no, yes, raise; also with other objects that are true or false)",
         "int, range, min, max in the modules under test accept symbolic integers"]


def sched_case(prop, topo, mode, reach=(), rmax=0, check="", answers=("no", "yes", "raise"), order=0):
    return Case("schedule", prop=prop, topo=topo, mode=mode, rmax=rmax, check=check, answers=list(answers), order=order,
                reach=list(reach), module="checks.drive",
                bounds="scheduler, topology %s, %s, retries 0..%d%s" % (
                    topo, "all interleavings of requests and returns" if mode == "all" else
                    "all orders of returns with all available blocks requested in between", rmax,
                    ", check functions of task(s) %s answering %s" % (check, "/".join(answers)) if check else ""))


def surface_case(prop, n, reach=()):
    return Case("surface", prop=prop, n=n, reach=list(reach), module="checks.drive",
                bounds="ReadySurface on every acyclic graph of %d nodes (symbolic edges), all orders and outcomes" % n)


def schedules(prop, tier):
    """interleavings and outcomes"""
    q = tier == "quick"
    out = []
    big = ["chain5", "beyond", "wide", "deep"] if q else ["chain5", "beyond", "wide", "deep", "merge3"]
    for t in ("one", "free2", "free3", "chain2", "chain3", "chain4", "levels3", "levels4", "grid22", "pair", "cross",
              "merge", "merge3", "split", "beyond_conflict", "tchain", "fork", "diamond", "both", "conflict2", "indep",
              "empty_up"):
        out.append(sched_case(prop, t, "all", order=1 if t in ("cross", "fork", "both") else 0))
    for t in big:
        out.append(sched_case(prop, t, "greedy" if q and t in ("wide", "beyond") else "all"))
    for t in ["chain7", "levels7", "grid23", "grid33", "grid222", "conflict3"][: 4 if q else 6]:
        out.append(sched_case(prop, t, "greedy"))
    return out


def retries(prop, tier):
    q = tier == "quick"
    out = [sched_case(prop, "one", "all", rmax=12 if q else 40), sched_case(prop, "chain2", "all", rmax=2),
           sched_case(prop, "free2", "all", rmax=1), sched_case(prop, "pair", "all", rmax=2, order=1)]
    for t in ("chain3", "cross", "merge", "fork", "split", "both"):
        out.append(sched_case(prop, t, "greedy" if q else "all", rmax=1))
    if not q:
        out += [sched_case(prop, "free2", "all", rmax=2), sched_case(prop, "diamond", "greedy", rmax=1),
                sched_case(prop, "chain4", "greedy", rmax=1), sched_case(prop, "conflict2", "all", rmax=2)]
    return out


def checked(prop, tier):
    q = tier == "quick"
    out = []
    for t in ("one", "free2", "chain2", "pair", "fork", "tchain", "empty_up", "split", "merge"):
        out.append(sched_case(prop, t, "all" if t in ("one", "free2", "chain2", "pair") or not q else "greedy",
                              check=" ".join(d["name"] for d in TOPOLOGIES[t])))
    for t in ("chain3", "cross", "grid22", "levels3", "diamond"):
        out.append(sched_case(prop, t, "greedy" if q else "all", check=" ".join(d["name"] for d in TOPOLOGIES[t]),
                              answers=("no", "yes")))
    for c in ("a", "b"):
        out.append(sched_case(prop, "cross", "greedy" if q else "all", check=c))
    out.append(sched_case(prop, "one", "all", rmax=2, check="a"))
    for t in ("one", "chain2"):
        out.append(sched_case(prop, t, "all", check="a", answers=("no", "no 0", "no numpy", "no none", "yes", "yes 1", "yes numpy",
                                                                   "yes text")))
    out.append(sched_case(prop, "chain2", "all", rmax=1, check="a", answers=("no", "yes")))
    return out


def geometries(prop, tier):
    q = tier == "quick"
    out = []
    for fit in FITS:
        for dims, conflict, w, c, n, two in (
            (1, True, 3, 2, 5, False), (2, True, 1 if q else 2, 1, 2 if q else 3, False),
            (1, False, 1 if q else 2, 1, 2, True), (1, True, 1, 1, 2, True),
        ):
            out.append(Case("geometry", prop=prop, dims=dims, wmax=w, cmax=c, nmax=n, fit=fit, conflict=conflict, two=two,
                            emin=-1 if dims == 1 and not two else 1, module="checks.drive",
                            reach=["finished"], eager_params=dict(dims=1, wmax=2, cmax=1, nmax=2, two=False),
                            bounds=f"scheduler with symbolic geometry: {2 if two else 1} {dims}-D task(s) with"
                                   f"{'' if conflict else 'out'} conflicts, write shape 1..{w}, symmetric contexts 0..{c} "
                                   f"blocks, up to {n} blocks per dimension, any offsets; fixed order, at most one "
                                   "(arbitrary) block fails"))
    return out


from symx.runner import Case  # noqa: E402
from .geom import FITS  # noqa: E402
