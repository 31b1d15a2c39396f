"""C21: running serially processes every block once and in dependency order"""
from symx.runner import Case
from .drive import DONE, FAILED, ORPHAN, READY, RUNNING, SKIPPED, TOPOLOGIES, WAITING, Reference, build, key, CheckError

ASSUMPTIONS = [
    "the process function returns (an exception in it ends the run)",
    "the dependency graph is as reported by DependencyGraph.upstream (decided by C04 - C06)",
]
OUTSIDE = "more blocks or tasks, other dependency structures, more retries than stated; process functions that raise"
STUBS = ["process and check functions behave symbolically (mark the block or not; no, yes, raise)"]


class Run:
    def __init__(self, E, topo, rmax, check, outcomes, order, direct):
        self.E = E
        self.n = 0
        spec = TOPOLOGIES[topo]
        names = [d["name"] for d in spec]
        self.retries = {t: E.int("retries." + t, 0, rmax) for t in names}
        self.outcomes = outcomes
        self.running = None
        self.has_check = {t: t in check.split() for t in names}
        tasks = build(spec, self.retries, {t: self.check for t in check.split()},
                      {t: self.function(t) for t in names})
        if order:
            tasks = tasks[::-1]
        self.ref = Reference(tasks, self.retries)
        self.end(self.launch(tasks, spec, direct), names)

    def launch(self, tasks, spec, direct):
        from daisy.serial_server import SerialServer
        import daisy

        if direct:
            return SerialServer().run_blockwise(tasks)
        # only those that nobody depends on: the others are found
        ups = {u for d in spec for u in d["up"]}
        return daisy.run_blockwise([t for t in tasks if t.task_id not in ups], multiprocessing=False)

    def chk(self, cond, msg):
        self.E.check(cond, msg)

    def function(self, task):
        return lambda block: self.process(task, block)

    def step(self):
        self.n += 1
        self.chk(self.n < 400, "does not end")
        return self.n

    def settle(self):
        """the attempt that was processed last has been returned"""
        if self.running is not None:
            n, ok = self.running
            self.running = None
            if ok:
                self.ref.succeed(n, DONE)
            elif self.ref.fail(n):
                self.E.reach("failed for good")
            else:
                self.E.reach("retried")

    def check(self, block):
        self.settle()
        n = self.ref.nodes.get(key(block))
        self.chk(n is not None and n.state == READY, "check function called for a block that is not ready")
        a = self.E.pick("check%d" % self.step(), ["no", "yes", "raise"])
        if a == "yes":
            self.ref.succeed(n, SKIPPED)
            self.E.reach("skipped")
            return True
        n.last_check = a
        if a == "raise":
            raise CheckError()
        return False

    def process(self, task, block):
        from daisy import BlockStatus

        E = self.E
        self.settle()
        n = self.ref.nodes.get(key(block))
        self.chk(n is not None, "unknown block")
        self.chk(n.task == task, "block passed to another task's function")
        self.chk(n.state == READY, "block %s is processed, but is %s" % (n.bid, n.state))
        if self.has_check[task]:
            self.chk(n.last_check is not None, "block is processed without asking the check function")
        n.last_check = None
        n.state = RUNNING
        how = E.pick("outcome%d" % self.step(), self.outcomes)
        E.reach("outcome " + how)
        if how == "success":
            block.status = BlockStatus.SUCCESS
        elif how == "failed":
            block.status = BlockStatus.FAILED
        elif how == "processing":
            block.status = BlockStatus.PROCESSING
        self.running = (n, how != "failed")

    def end(self, states, names):
        E = self.E
        self.settle()
        self.chk(self.ref.finished(), "run ended, but blocks are left: %s" % [
            (n.bid, n.state) for n in self.ref.nodes.values() if n.state in (READY, WAITING, RUNNING)])
        self.chk(set(states) == set(names), "result is not about the given tasks")
        for t in names:
            s, c = states[t], self.ref.count
            self.chk(bool(s.is_done()), "task %s is not done" % t)
            self.chk(s.failed_count == c(t, FAILED), "failed blocks: %s" % s.failed_count)
            self.chk(s.completed_count == c(t, DONE, SKIPPED), "completed blocks: %s" % s.completed_count)
            self.chk(s.orphaned_count == c(t, ORPHAN), "orphaned blocks: %s" % s.orphaned_count)
            if c(t, ORPHAN):
                E.reach("orphaned")
        E.observe(sorted((str(n.bid), n.state, n.failures) for n in self.ref.nodes.values()))
        E.reach("finished")


def serial(E, topo, rmax=0, check="", outcomes=("nothing", "failed"), order=0, direct=True):
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        Run(E, topo, rmax, check, list(outcomes), order, direct)


def cases(tier):
    q = tier == "quick"
    out = []

    def add(topo, rmax=0, check="", outcomes=("nothing", "failed"), order=0, direct=True, reach=()):
        out.append(Case("serial", topo=topo, rmax=rmax, check=check, outcomes=list(outcomes), order=order, direct=direct,
                        reach=list(reach), bounds="topology %s, retries 0..%d, check functions of %s, outcomes %s" % (
                            topo, rmax, check or "no task", "/".join(outcomes))))

    four = ("nothing", "success", "failed", "processing")
    every = lambda t: " ".join(d["name"] for d in TOPOLOGIES[t])  # noqa: E731
    add("one", 3, outcomes=four, reach=["outcome " + o for o in four] + ["retried", "failed for good", "finished"])
    add("chain2", 2, outcomes=four, reach=["orphaned"])
    for t in ("free2", "free3", "chain3", "levels3", "grid22", "pair", "cross", "merge", "split", "tchain", "fork", "both",
              "diamond", "indep", "empty_up", "beyond", "beyond_conflict", "conflict2"):
        add(t, 1, order=int(t in ("cross", "pair", "both")), direct=t not in ("diamond", "fork", "tchain"))
    for t in ("chain5", "levels4", "wide", "deep", "grid23", "conflict3", "merge3") + (() if q else ("grid33", "levels7", "grid222")):
        add(t, 0)
    for t in ("one", "free2", "chain2", "pair", "cross", "tchain", "empty_up", "split", "fork"):
        add(t, int(t in ("one", "pair", "chain2")), check=every(t), reach=["skipped"], order=int(t == "pair"))
    add("cross", 0, check="a")
    add("late", 1, order=1)
    add("late", 0, check="a c", order=1)
    add("cross", 1, check="b")
    if not q:
        for t in ("diamond", "deep", "both", "merge3", "lanes3"):
            add(t, 0, check=every(t))
        for t in ("chain4", "wide", "deep", "lanes3", "grid23"):
            add(t, 1)
        add("free2", 3, outcomes=four)
    return out
