"""C31: what a worker writes goes to its own log files"""
import contextlib
import io
import os
import pathlib
import queue
import sys

from symx.runner import Case
from .stub import Stubs

ASSUMPTIONS = [
    "opening, duplicating and closing files has the effects POSIX describes; a new process has a copy of the table of open files",
    "task ids are single names of files, other than '.' and '..'",
]
OUTSIDE = ("more tasks, workers and lines than stated; errors of the file system; several runs that share a log directory at the "
           "same time; output of user code after it replaced the standard streams itself")
STUBS = [
    "open, os.open, os.close, os.dup, os.dup2, os.fdopen, Path.open, Path.mkdir, os.makedirs, sys.stdout and sys.stderr: a table of "
    "open files and files in memory, so that nothing is written to disk",
    "multiprocessing.Process: runs the worker when the harness says, with its own copy of the table, environment and module state",
    "TCPClient: no connection is made",
]


class Kernel:
    """files, and the table of open files of the running process"""

    def __init__(self):
        self.files = {}  # name or "terminal out", "terminal err" -> list of lines
        self.dirs = {"/", "."}
        self.files["terminal out"], self.files["terminal err"], self.files["terminal in"] = [], [], []
        self.tty = False
        self.table = {0: "terminal in", 1: "terminal out", 2: "terminal err"}

    def name(self, path):
        return os.path.normpath(os.fspath(path))

    def fd(self, f):
        if f not in self.table:
            raise OSError(9, "Bad file descriptor")
        return self.table[f]

    def open(self, path, flags, mode=0o777, **kw):
        name = self.name(path)
        if os.path.dirname(name) not in self.dirs | {""}:
            raise FileNotFoundError(2, "No such file or directory", name)
        if name in self.dirs:
            raise IsADirectoryError(21, "Is a directory", name)
        if name not in self.files and not flags & os.O_CREAT:
            raise FileNotFoundError(2, "No such file or directory", name)
        if name in self.files and flags & os.O_EXCL:
            raise FileExistsError(17, "File exists", name)
        f = min(set(range(len(self.table) + 1)) - set(self.table))
        if flags & os.O_TRUNC or name not in self.files:
            self.files[name] = []
        self.table[f] = name
        return f

    def close(self, f):
        self.fd(f)
        del self.table[f]

    def dup2(self, a, b, inheritable=True):
        self.table[b] = self.fd(a)
        return b

    def dup(self, a):
        f = min(set(range(len(self.table) + 1)) - set(self.table))
        self.table[f] = self.fd(a)
        return f

    def write(self, f, data):
        self.files[self.fd(f)].append(data)

    def makedirs(self, path, mode=0o777, exist_ok=False, parents=True):
        name = self.name(path)
        if name in self.dirs:
            if not exist_ok:
                raise FileExistsError(17, "File exists", name)
            return
        up = os.path.dirname(name)
        if up not in self.dirs | {""}:
            if not parents:
                raise FileNotFoundError(2, "No such file or directory", name)
            self.makedirs(up, exist_ok=True)
        self.dirs.add(name)

    def file(self, f, mode="r", *a, **kw):
        if not isinstance(f, int):
            flags = {"w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND, "x": os.O_CREAT | os.O_EXCL, "r": 0}[mode[0]]
            f = self.open(f, flags)
        return File(self, f, line=kw.get("buffering") == 1 or bool(a) and a[0] == 1)


class File:
    """what open() gives"""

    encoding, errors, newlines, closed = "utf-8", "strict", None, False

    def __init__(self, kernel, f, line=False):
        self.kernel, self.f, self.line = kernel, f, line
        self.buffer = []
        self.name, self.mode = kernel.table[f], "w"

    def fileno(self):
        return self.f

    def isatty(self):
        return self.kernel.tty and self.kernel.fd(self.f).startswith("terminal")

    def writable(self):
        return True

    def write(self, text):
        self.buffer.append(text)
        if self.line:
            self.flush()
        return len(text)

    def flush(self):
        while self.buffer:
            self.kernel.write(self.f, self.buffer.pop(0))

    def close(self):
        self.flush()
        self.kernel.close(self.f)
        self.closed = True

    def reconfigure(self, **kw):
        self.line = kw.get("line_buffering", self.line)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


@contextlib.contextmanager
def in_memory(kernel, streams):
    saved = {k: getattr(sys, k) for k in ("stdin", "stdout", "stderr", "__stdout__", "__stderr__")}
    with Stubs() as stubs:
        for m in [m for n, m in list(sys.modules.items()) if n.startswith("daisy.") and m is not None]:
            if "open" not in vars(m):
                stubs.put(m, "open", kernel.file)
        stubs.function(os, "open", kernel.open)
        stubs.function(os, "close", kernel.close)
        stubs.function(os, "dup", kernel.dup)
        stubs.function(os, "dup2", kernel.dup2)
        stubs.function(os, "fdopen", kernel.file)
        stubs.function(os, "makedirs", kernel.makedirs)
        stubs.function(os, "mkdir", lambda p, mode=0o777: kernel.makedirs(p, parents=False))
        stubs.put(pathlib.Path, "mkdir", lambda self, mode=0o777, parents=False, exist_ok=False: kernel.makedirs(
            self, exist_ok=exist_ok, parents=parents))
        stubs.put(pathlib.Path, "open", lambda self, *a, **kw: kernel.file(self, *a, **kw))
        stubs.put(pathlib.Path, "exists", lambda self, **kw: kernel.name(self) in kernel.dirs or kernel.name(self) in kernel.files)
        try:
            sys.stdout = sys.__stdout__ = File(kernel, 1)
            sys.stderr = sys.__stderr__ = File(kernel, 2, line=True)
            if streams == "in memory":
                sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            elif streams == "other file":
                sys.stdout, sys.stderr = kernel.file("captured", "w"), kernel.file("captured too", "w")
            yield
        finally:
            for k, v in saved.items():
                setattr(sys, k, v)


class Proc:
    """stand-in for multiprocessing.Process"""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, **k):
        self.f = lambda: target(*args, **(kwargs or {}))
        self.alive, self.exitcode, self.pid = False, None, 1
        PROCS.append(self)

    def start(self):
        import daisy.logging

        self.alive = True
        self.table = dict(KERNEL[0].table)
        self.base = daisy.logging.get_log_basedir()
        self.environ = dict(os.environ)

    def run(self):
        """all of what the process does"""
        import daisy.logging

        k = KERNEL[0]
        streams = "stdout", "stderr", "__stdout__", "__stderr__"
        saved = k.table, daisy.logging.get_log_basedir(), dict(os.environ), {s: getattr(sys, s) for s in streams}
        try:
            k.table = self.table
            daisy.logging.set_log_basedir(self.base)
            os.environ.clear()
            os.environ.update(self.environ)
            self.f()
            # see multiprocessing.process._bootstrap
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            self.alive, self.exitcode = False, 0
            k.table = saved[0]
            daisy.logging.set_log_basedir(saved[1])
            os.environ.clear()
            os.environ.update(saved[2])
            for s, v in saved[3].items():
                setattr(sys, s, v)

    def is_alive(self):
        return self.alive

    def terminate(self):
        self.alive, self.exitcode = False, -15

    kill = terminate

    def join(self, timeout=None):
        pass

    def close(self):
        pass


PROCS, KERNEL, USER = [], [], []


def worker_main():
    USER[0]()


class NoServer:
    def __init__(self, *a, **kw):
        pass

    def connected(self):
        return True

    def disconnect(self):
        pass


def text_of(E, name, n, alphabet):
    t = "".join(E.pick("%s%d" % (name, i), alphabet) for i in range(n))
    if t in ("", ".", ".."):
        E.done()
    return t


DIRS = {"none": None, "relative": "logs", "absolute": "/var/log/x", "odd": "/l:o=g%3A/.d"}
WAYS = {"print": 1, "print to stderr": 2, "file descriptor 1": 1, "file descriptor 2": 2, "handler of the parent": 2, "child": 1}


def files(E, tasks, workers, lines, length, alphabet, ways=tuple(WAYS), dirs=("none", "relative", "absolute", "odd"), again=False,
          streams=("terminal",)):
    """workers of some tasks write lines in all ways, one after another in any order"""
    import daisy.logging
    from daisy.client import Client
    from daisy.context import Context
    from daisy.worker import Worker
    from daisy.worker_pool import WorkerPool
    from . import srv

    base = daisy.logging.get_log_basedir()
    env = dict(os.environ)
    kernel = Kernel()
    KERNEL[:], PROCS[:] = [kernel], []
    written = []  # (log files, stream, line)
    handler = []

    stream = E.pick("streams", streams)
    first = E.pick("first id", (0, 3, 9))
    kernel.tty = E.flag("is a terminal")
    with in_memory(kernel, stream), srv.patched(process=Proc, mpqueue=lambda *a: queue.Queue()), Stubs() as stubs:
        stubs.own(sys.modules["daisy.tcp.tcp_client"].TCPClient, NoServer)
        try:
            handler.append(sys.__stderr__)
            E.reach("parent writes to " + stream)
            for _ in range(first):
                Worker.get_next_id()
            table = dict(kernel.table)
            kind = E.pick("directory", dirs)
            D = DIRS[kind]
            daisy.logging.set_log_basedir(D)
            E.reach("directory " + kind)
            names = [None if tasks == 0 else text_of(E, "task", length, alphabet)]
            if tasks > 1:
                names.append(text_of(E, "other", length, alphabet))
                if names[0] == names[1]:
                    E.done()
            pools = []
            for t in names:
                c = Context(hostname="host", port=5) if t is None else Context(hostname="host", port=5, task_id=t)
                pools.append(WorkerPool(worker_main, c))
                pools[-1].set_num_workers(workers)
            owner = [t for t in names for _ in range(workers)]
            ids = [w for p in pools for w in p.workers]
            E.check(len(set(ids)) == len(ids) == len(PROCS), "ids of workers are not unique")

            def same_dir(where):
                got = daisy.logging.get_log_basedir()
                E.check((got is None) == (D is None) and (D is None or os.fspath(got) == os.path.normpath(D)),
                        "%s: log directory is %r instead of %r" % (where, got, D))

            def user():
                i = current[0]
                same_dir("in the worker")
                if names[0] is not None and E.flag("client%d" % i):
                    Client()
                    same_dir("with a client")
                    E.reach("client")
                for j in range(lines):
                    way = E.pick("way%d.%d" % (i, j), ways)
                    line = "line %d of %s" % (j, ids[i])
                    E.reach(way)
                    if way == "print":
                        sys.stdout.write(line)
                    elif way == "print to stderr":
                        sys.stderr.write(line)
                    elif way == "file descriptor 1":
                        kernel.write(1, line)
                    elif way == "file descriptor 2":
                        kernel.write(2, line)
                    elif way == "handler of the parent":
                        handler[0].write(line)
                        handler[0].flush()
                    else:
                        child(line)
                    written.append((owner[i], ids[i], WAYS[way], line))

            def child(line):
                """a process started by the worker, running another program"""
                before = daisy.logging.get_log_basedir()
                try:
                    daisy.logging.set_log_basedir("./daisy_logs")
                    if names[0] is not None:
                        Client()
                        same_dir("in a process started by the worker")
                    kernel.write(1, line)
                finally:
                    daisy.logging.set_log_basedir(before)

            USER[:] = [user]
            current, ran = [0], []
            order = list(range(len(PROCS)))
            while order:
                current[0] = i = order.pop(E.choice("next%d" % len(ran), len(order)))
                ran.append(i)
                PROCS[i].run()
                if again and i == 0:
                    # it is replaced
                    pools[0].stop(ids[0])
                    pools[0].inc_num_workers(1)
                    new = [w for w in pools[0].workers if w not in ids]
                    E.check(len(new) == 1, "the new worker has no id of its own")
                    ids.append(new[0])
                    owner.append(names[0])
                    order.append(len(PROCS) - 1)
                    E.reach("replaced")
                same_dir("in the main process")
                E.check(kernel.table == table, "files of the main process")
            expected = {}
            for t, w, s, line in written:
                if D is None and stream != "terminal":
                    continue
                if D is None:
                    name = ("terminal out", "terminal err")[s - 1]
                else:
                    log = daisy.logging.get_worker_log_basename(w, t)
                    want = os.path.normpath(os.path.join(D, *([] if t is None else [t]), "worker_%s" % w))
                    E.check(os.fspath(log) == want, "log files of worker %s of %s: %s" % (w, t, log))
                    name = want + (".out", ".err")[s - 1]
                expected.setdefault(name, []).append(line)
            for name, ls in kernel.files.items():
                if D is None and stream != "terminal":
                    E.check(name.startswith(("terminal", "captured")), "a file although there is no log directory")
                    continue
                E.check(sorted(ls) == sorted(expected.get(name, [])), "in %s: %s, written: %s" % (name, ls, expected.get(name, [])))
                if not name.startswith(("terminal", "captured")):
                    E.check(D is not None, "a file although there is no log directory")
            for name in expected:
                E.check(name in kernel.files, "%s does not exist" % name)
            E.observe(sorted((str(t), ids.index(w), s, line.split(" of ")[0]) for t, w, s, line in written))
            E.reach("checked")
        finally:
            daisy.logging.set_log_basedir(base)
            os.environ.clear()
            os.environ.update(env)


def summary(E, failures, workers, length, alphabet):
    """the files the execution summary refers to"""
    import daisy.logging
    from daisy import Block, Roi
    from daisy.cl_monitor import CLMonitor
    from daisy.context import Context
    from daisy.server_observer import ServerObservee
    from daisy.task_state import TaskState
    from . import c26

    base = daisy.logging.get_log_basedir()
    kind = E.pick("directory", ("none", "relative", "absolute", "odd"))
    D = DIRS[kind]
    try:
        daisy.logging.set_log_basedir(D)
        with c26.quiet() as out:
            server = ServerObservee()
            CLMonitor(server)
            names = [text_of(E, "task", length, alphabet), "other"]
            states = {}
            for t in names:
                states[t] = TaskState()
                states[t].total_block_count = failures
                server.notify_task_start(t, states[t])
            want = set()
            r = Roi((0,), (1,))
            for i in range(failures):
                if not E.flag("failure%d" % i):
                    break
                t = names[E.choice("of%d" % i, 2)]
                w = E.choice("worker%d" % i, workers)
                c = Context(hostname="host", port=5, task_id=t, worker_id=w)
                server.notify_block_failure(Block(r, r, r, block_id=i, task_id=t), ValueError("x"), c)
                states[t].failed_count += 1
                if D is not None:
                    want.add(os.path.normpath(os.path.join(D, t, "worker_%d" % w)))
                    E.reach("log file")
                else:
                    E.reach("no log file")
            for t in names:
                server.notify_task_done(t, states[t])
            server.notify_server_exit()
        text = out.getvalue()
        got = set()
        for line in text.splitlines():
            if "worker_" in line and "exception" not in line:
                got.add(os.path.normpath(line.strip().split(".err")[0].split(".out")[0]))
        E.check(got == want, "log files %s, summary names %s" % (sorted(want), sorted(got)))
        E.check("None." not in text, "the summary refers to files that do not exist")
        E.observe(len(got))
    finally:
        daisy.logging.set_log_basedir(base)


def cases(tier):
    q = tier == "quick"
    alphabet = "t.%"
    out = [
        Case("files", tasks=1, workers=1, lines=2, length=1, alphabet="t",
             streams=("terminal", "in memory", "other file"),
             reach=list(WAYS) + ["checked", "client", "parent writes to in memory", "parent writes to other file"] + ["directory " + d for d in ("none", "relative", "absolute", "odd")],
             bounds="one worker, two lines written in all ways, all kinds of log directories"),
        Case("files", tasks=2, workers=1, lines=1, length=2, alphabet=alphabet, ways=("print",),
             dirs=("relative",), reach=["checked"],
             bounds="two tasks with any ids of two of the characters '%s', a worker each, in any order" % alphabet),
        Case("files", tasks=2, workers=1, lines=1, length=1, alphabet=("t", "a/t", "b/t", "a t", "T"), ways=("print", "print to stderr"),
             dirs=("relative",), reach=["checked"], bounds="two tasks whose ids look like paths, have blanks, or differ in case only"),
        Case("files", tasks=1, workers=2, lines=1, length=1, alphabet="t", again=True, dirs=("none", "absolute"),
             ways=("print", "file descriptor 2"), reach=["replaced", "checked"], bounds="two workers in any order, one of them replaced"),
        Case("files", tasks=0, workers=2, lines=1, length=1, alphabet="t", ways=("print", "print to stderr", "child"), reach=["checked"],
             bounds="two workers without a task"),
    ]
    out.append(Case("summary", failures=3 if q else 4, workers=2, length=2, alphabet=alphabet, reach=["log file", "no log file"],
                    bounds="up to 3 (thorough 4) failures of blocks of two tasks in two workers"))
    if not q:
        out += [
            Case("files", tasks=1, workers=1, lines=4, length=1, alphabet="t", reach=["checked"], bounds="one worker, four lines"),
            Case("files", tasks=2, workers=2, lines=1, length=1, alphabet="tu", again=True, dirs=("absolute",),
                 ways=("print", "file descriptor 1", "print to stderr"), reach=["checked"],
                 bounds="two tasks, two workers each, in any order, one of them replaced"),
            Case("files", tasks=2, workers=1, lines=1, length=3, alphabet=alphabet, ways=("print",), dirs=("odd",), reach=["checked"],
                 bounds="two tasks with any ids of three characters"),
        ]
    return out
