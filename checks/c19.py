"""C19: worker pools keep their size"""
import queue

from symx.runner import Case
from . import srv

ASSUMPTIONS = ["terminated worker processes end", "pools are used by one thread (as the server does)"]
OUTSIDE = "larger pools, more tasks or operations than stated; real processes; concurrent use of one pool by several threads (creation of workers by several threads is covered)"
STUBS = ["multiprocessing.Process: symbolic process (dies when the schedule says, with any exit code); multiprocessing.Queue: queue.Queue"]


def worker_main():
    pass


class Procs:
    def __init__(self, E):
        self.E = E
        self.all = []

    def __call__(self, group=None, target=None, name=None, args=(), kwargs=None, **k):
        p = Proc(self, srv.worker_of(target, args, kwargs))
        self.all.append(p)
        return p


class Proc:
    def __init__(self, procs, worker):
        self.procs = procs
        self.worker = worker
        self.context = self.worker.context
        self.state = "new"
        self.exitcode = None
        self.pid = 4000 + len(procs.all)
        self.joined = False

    def start(self):
        self.procs.E.check(self.state == "new", "process started twice")
        self.state = "running"

    def is_alive(self):
        return self.state == "running"

    def terminate(self):
        if self.state == "running":
            self.state = "stopped"
            self.exitcode = -15

    kill = terminate

    def join(self, timeout=None):
        self.procs.E.check(self.state != "running", "waits for a worker that was not stopped")
        self.joined = True

    def die(self, code):
        self.state = "ended"
        self.exitcode = code


class Server:
    hostname = "localhost"
    port = 4711

    def __init__(self):
        self.observers = []

    def register_observer(self, o):
        self.observers.append(o)


def make_tasks(n, sizes):
    from daisy import Roi, Task

    return [Task("task%d" % i, Roi((0,), (4,)), Roi((0,), (1,)), Roi((0,), (1,)), worker_main, num_workers=s) for i, s in
            enumerate(sizes)]


def members(pool):
    return list(pool.workers.values())


def first_id(n):
    """the ids of workers started from now on begin with n (the same in every
    run, and they cross a power of ten)"""
    from daisy.worker import Worker

    counter = getattr(Worker, "_Worker__next_id", None)
    if hasattr(counter, "value"):
        counter.value = n


def pools(E, ntasks, steps, nmax, ops, first=0):
    """every history of recruiting, dying, failing blocks, checking health and
    stopping, compared to the workers that should be there"""
    from daisy.task_worker_pools import TaskWorkerPools

    procs = Procs(E)
    first_id(first)
    with srv.patched(process=procs, mpqueue=lambda *a: queue.Queue()):
        tasks = make_tasks(ntasks, [E.cint("size%d" % i, 1, nmax) for i in range(ntasks)])
        limit = E.int("max_failures", 0, None, eager=(0, 2))
        tp = TaskWorkerPools(tasks, Server(), max_block_failures=limit)
        E.check(not procs.all, "workers are started too early")
        ref = {t.task_id: [] for t in tasks}  # process, in the order of their start
        stopped, gone = [], []
        counts = {}
        known = 0
        ids = []

        def started(task_id, n):
            """exactly n new workers for this task"""
            nonlocal known
            new = procs.all[known:]
            known = len(procs.all)
            E.check(len(new) == n, "%d workers started instead of %d" % (len(new), n))
            for p in new:
                E.check(p.state == "running", "worker was not started")
                c = p.context
                E.check(c["task_id"] == task_id and c["hostname"] == "localhost" and str(c["port"]) == "4711", "context")
                w = int(str(c["worker_id"]))
                E.check(w == p.worker.worker_id and w not in ids, "worker id used again")
                ids.append(w)
                ref[task_id].append(p)

        def stop(task_id, ps):
            for p in ps:
                ref[task_id].remove(p)
                stopped.append(p)

        for step in range(steps):
            opts = []
            for t in tasks:
                k = t.task_id
                if "recruit" in ops:
                    opts.append(("recruit", k, None))
                if "set" in ops:
                    opts.append(("set", k, None))
                if "stop1" in ops:
                    opts += [("stop1", k, p) for p in ref[k]]
                for p in ref[k]:
                    if p.state == "running":
                        opts.append(("die", k, p))
                    if "fail" in ops:
                        opts.append(("fail", k, p))
                if "fail" in ops:
                    opts += [("fail", k, p) for p in stopped + gone if p.context["task_id"] == k]
            opts.append(("health", None, None))
            if "stop" in ops:
                opts.append(("stop", None, None))
            op, k, p = E.pick("op%d" % step, opts)
            pool = tp.worker_pools[k] if k else None
            if op in ("recruit", "set"):
                n = {t.task_id: t for t in tasks}[k].num_workers if op == "recruit" else E.cint("n%d" % step, 0, nmax)
                before = list(ref[k])
                if op == "recruit":
                    tp.recruit_workers({k: {t.task_id: t for t in tasks}[k]})
                else:
                    pool.set_num_workers(n)
                if n < len(before):
                    stop(k, before[n:])
                    E.reach("too many")
                    started(k, 0)
                else:
                    started(k, n - len(before))
                E.check(len(pool.workers) == n, "pool has %d workers instead of %d" % (len(pool.workers), n))
            elif op == "die":
                p.die(E.int("code%d" % step, eager=(-1, 1)))
            elif op == "health":
                before = {t: list(ps) for t, ps in ref.items()}
                dead = {t: [q for q in ps if q.state == "ended" and bool(q.exitcode != 0)] for t, ps in ref.items()}
                tp.check_worker_health()
                new = procs.all[known:]
                for t in ref:
                    ps = [q for q in new if q.context["task_id"] == t]
                    E.check(len(ps) == len(dead[t]), "%d workers started for %d dead ones" % (len(ps), len(dead[t])))
                    for q in dead[t]:
                        ref[t].remove(q)
                        gone.append(q)
                        E.reach("replaced")
                    if any(q.state == "ended" for q in ref[t]):
                        E.reach("finished")
                for q in new:
                    w = q.worker.worker_id
                    E.check(w not in ids, "worker id used again")
                    E.check(int(str(q.context["worker_id"])) == w, "context of the worker")
                    ids.append(w)
                    ref[q.context["task_id"]].append(q)
                known = len(procs.all)
            elif op == "fail":
                w = p.worker.worker_id
                here = p in ref[k]
                tp.on_block_failure(None, RuntimeError("x"), p.context.copy())
                counts[w] = counts.get(w, 0) + 1
                if bool(counts[w] > limit):
                    counts[w] = 0
                    if here:
                        stop(k, [p])
                        started(k, 1)
                        E.reach("restarted")
                    else:
                        started(k, 0)
                        E.reach("failed, but gone")
                else:
                    started(k, 0)
                    E.reach("tolerated")
            elif op == "stop1":
                pool.stop(p.worker.worker_id)
                stop(k, [p])
                started(k, 0)
                # again: nothing happens
                pool.stop(p.worker.worker_id)
                started(k, 0)
            else:
                tp.stop()
                for t in ref:
                    stop(t, list(ref[t]))
                E.check(len(procs.all) == known, "workers started when stopping")
                E.reach("stopped")
            # the processes
            for t, ps in ref.items():
                for q in ps:
                    E.check(q.state in ("running", "ended"), "a worker was stopped that should run")
                E.check(len(tp.worker_pools[t].workers) == len(ps), "pool of %s has %d workers instead of %d" % (
                    t, len(tp.worker_pools[t].workers), len(ps)))
                E.check(sorted(w.worker_id for w in members(tp.worker_pools[t])) == sorted(q.worker.worker_id for q in ps),
                        "other workers in the pool")
            for q in stopped:
                E.check(q.state != "running", "a worker was not stopped")
        E.observe([len(x) for x in ref.values()], len(procs.all), [q.state for q in procs.all])


class Counter:
    """a multiprocessing.Value that is used by several threads or processes: the
    other one may run at every access unless the lock is held"""

    def __init__(self, point, n):
        self._point, self._n, self._held = point, n, 0

    @property
    def value(self):
        self._point(self._held)
        return self._n

    @value.setter
    def value(self, n):
        self._point(self._held)
        self._n = n

    def get_lock(self):
        return self

    def get_obj(self):
        return self

    def acquire(self, *a, **k):
        self._point(self._held)
        self._held += 1
        return True

    def release(self):
        self._held -= 1
        self._point(self._held)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def race(E, n, others):
    """workers are created by several threads (two runs at the same time) or
    processes (a run started by a worker) at the same time: one is preempted at any
    access to what they share"""
    from daisy.worker import Worker

    procs = Procs(E)
    left, k = others, 0
    ids = []

    def create():
        w = Worker(worker_main, None, None)
        E.check(w.worker_id not in ids, "worker id used again")
        ids.append(w.worker_id)

    def point(held):
        nonlocal left, k
        if held or not left:
            return
        k += 1
        if E.flag("preempted%d" % k):
            left -= 1
            E.reach("preempted")
            create()

    with srv.patched(process=procs, mpqueue=lambda *a: queue.Queue()):
        old = getattr(Worker, "_Worker__next_id", None)
        if all(hasattr(old, x) for x in ("value", "get_lock")):
            Worker._Worker__next_id = Counter(point, 0)
        else:
            E.reach("preempted")  # the counter is another one, not followed
        try:
            for i in range(n):
                create()
        finally:
            if old is not None:
                Worker._Worker__next_id = old
        E.check(len(set(ids)) == len(ids) >= n, "worker id used again")
        E.check(sorted(p.worker.worker_id for p in procs.all) == sorted(ids), "ids of the processes")
        E.observe(sorted(ids))


def cases(tier):
    q = tier == "quick"
    out = []

    def add(reach, ops, **k):
        out.append(Case("pools", ops=ops, reach=reach, eager_params=dict(steps=min(4, k["steps"])),
                        bounds="%(ntasks)d task(s), pools of up to %(nmax)d workers, every history of %(steps)d operations "
                        % k + "(deaths, health checks, %s); any exit code and failure limit" % ", ".join(ops), **k))

    add(["too many", "replaced", "finished"], ["set"], ntasks=1, steps=4 if q else 6, nmax=3, first=8)
    add(["restarted", "failed, but gone", "tolerated"], ["recruit", "fail"], ntasks=1, steps=6 if q else 7, nmax=2, first=98)
    add(["stopped"], ["recruit", "stop", "stop1"], ntasks=1, steps=5 if q else 6, nmax=2, first=9)
    add(["replaced", "finished"], ["recruit", "fail", "stop"], ntasks=2, steps=4 if q else 5, nmax=2)
    n, others = (2, 3) if q else (3, 5)
    out.append(Case("race", n=n, others=others, reach=["preempted"], eager_params=dict(n=1, others=1),
                    bounds="%d workers created by one thread, which is preempted by up to %d creations of others at any access "
                    "to the shared counter" % (n, others)))
    return out
