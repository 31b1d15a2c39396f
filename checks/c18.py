"""C18: a worker reads exactly the context it was given"""
import contextlib
import os
import sys
import types

from symx.runner import Case
from .stub import Stubs

ASSUMPTIONS = [
    "environment variables hold any text without NUL and surrogates and are inherited unchanged by processes",
    "the values of a context are text or are passed on as their text",
]
OUTSIDE = "longer texts, more entries or operations than stated; names of entries that are not identifiers"
STUBS = [
    "os.environ (symbolic execution only): a dict; str in daisy.context keeps symbolic text",
    "multiprocessing.Process: runs the worker function when the harness says; daisy.logging.redirect_stdouterr: nothing",
]

ALPHABET = ":=%3DA25a\n \u00e9"


@contextlib.contextmanager
def patched(E):
    import daisy.context
    import daisy.logging

    old = os.environ.get("DAISY_CONTEXT")
    base = daisy.logging.LOG_BASEDIR
    try:
        with Stubs() as stubs:
            stubs.own(daisy.logging.redirect_stdouterr, lambda *a, **k: None)
            if not E.symbolic:
                yield os.environ
                return
            from symx import strings

            strings.reset()

            class Environ(dict):
                def __getitem__(self, k):
                    return strings.lift(dict.__getitem__(self, k))

                def get(self, k, d=None):
                    return strings.lift(dict.get(self, k, d))

            env = Environ(os.environ)
            fake = types.ModuleType("os")
            fake.__dict__.update({k: v for k, v in vars(os).items()})
            fake.environ = env
            fake.getenv = env.get
            fake.putenv = env.__setitem__
            fake.unsetenv = env.__delitem__
            stubs.names(os, fake)
            stubs.names(os.environ, env)
            stubs.names(os.getenv, env.get)
            if "str" not in vars(daisy.context):
                stubs.put(daisy.context, "str", strings.sym_str)
            yield env
    finally:
        daisy.logging.LOG_BASEDIR = base
        if old is None:
            os.environ.pop("DAISY_CONTEXT", None)
        else:
            os.environ["DAISY_CONTEXT"] = old


def sym_text(E, name, n, alphabet):
    """any text of n characters"""
    if alphabet:
        return "".join(E.pick("%s%d" % (name, i), alphabet) for i in range(n))
    cs = []
    for i in range(n):
        c = E.int("%s%d" % (name, i), 1, 0x10FFFF)
        E.assume(E.lor(c < 0xD800, c > 0xDFFF))
        cs.append(c)
    if E.symbolic:
        from symx import strings

        return strings.text(cs)
    return "".join(chr(c) for c in cs)


def codes(x):
    from symx import strings

    return list(strings.chars(x))


def same(E, a, b):
    if not (isinstance(a, str) and isinstance(b, str)):
        return False
    a, b = codes(a), codes(b)
    return len(a) == len(b) and E.land(*[x == y for x, y in zip(a, b)])


def special(E, v):
    """which special characters are in there"""
    for c in codes(v):
        for s in ":=%":
            if bool(c == ord(s)):
                E.reach("contains " + s)
                break


def roundtrip(E, lengths, alphabet=None, where="hostname"):
    """write to the environment, read back"""
    from daisy.context import Context
    import daisy.logging

    with patched(E) as env:
        vals = dict(hostname="localhost", task_id="task", port=1234)
        for i, (k, n) in enumerate(lengths.items()):
            vals[k] = sym_text(E, k, n, alphabet)
        logdir = vals.pop("logdir", None)
        if logdir is not None:
            if logdir == "":
                E.done()
            # directories are paths: no restriction on characters but those of file names
            for c in codes(logdir):
                E.assume(E.land(c != ord("/"), c != ord(".")))
            daisy.logging.set_log_basedir(logdir)
        c = Context(**vals)
        c["worker_id"] = 17
        env[Context.ENV_VARIABLE] = c.to_env()
        d = Context.from_env()
        vals.update(worker_id="17", port="1234", logdir=daisy.logging.get_log_basedir())
        for k, v in vals.items():
            got = d.get(k)
            E.check(isinstance(got, str), "entry %s is missing" % k)
            v = v if isinstance(v, str) else str(v)
            E.check(same(E, got, v), "entry %s was changed" % k)
            E.check(same(E, d[k], v), "entry %s was changed" % k)
            special(E, v)
        E.check(d.get("nothing") is None and d.get("nothing", 3) == 3, "entry that was never set")
        for k in lengths:
            E.observe(codes(str(d[k]) if not isinstance(d[k], str) else d[k]))
        E.reach("round trip")


def assignment(E, n, alphabet=None):
    """entries that are set later: accepted and passed on, or refused"""
    from daisy.context import Context

    with patched(E) as env:
        v = sym_text(E, "value", n, alphabet)
        c = Context(hostname="localhost")
        try:
            c["entry"] = v
        except RuntimeError:
            E.reach("refused")
            E.check(any(bool(x == ord(s)) for x in codes(v) for s in ":="), "harmless value was refused")
            E.check(c.get("entry") is None, "refused value was set")
            ok = False
        else:
            E.reach("accepted")
            E.check(same(E, c["entry"], v), "value was changed")
            ok = True
        env[Context.ENV_VARIABLE] = c.to_env()
        d = Context.from_env()
        E.check(d["hostname"] == "localhost", "another entry was changed")
        if ok:
            E.check(same(E, d["entry"], v), "value was changed on its way")
        else:
            E.check(d.get("entry") is None, "refused value was passed on")
        E.observe(ok)


def copies(E, steps):
    """a change to one context is not seen in any other"""
    from daisy.context import Context

    with patched(E) as env:
        cs = [Context(hostname="h", task_id="t", port=1)]
        ref = [dict(hostname="h", task_id="t", port="1")]
        for s in range(steps):
            i = E.choice("which%d" % s, len(cs))
            op = E.pick("op%d" % s, ["copy", "set", "pass"])
            if op == "copy":
                cs.append(cs[i].copy())
                ref.append(dict(ref[i]))
            elif op == "set":
                k = E.pick("key%d" % s, ["worker_id", "port"])
                cs[i][k] = s
                ref[i][k] = str(s)
                E.reach("set")
            else:
                env[Context.ENV_VARIABLE] = cs[i].to_env()
                cs.append(Context.from_env())
                ref.append(dict(ref[i]))
            for c, r in zip(cs, ref):
                for k in ("hostname", "task_id", "port", "worker_id"):
                    got = c.get(k)
                    E.check(k in r and str(got) == r[k] if got is not None else k not in r, "%s is %s" % (k, got))
        E.observe([sorted(r.items()) for r in ref])


RECORD = []


def worker_main():
    from daisy.context import Context

    RECORD.append(Context.from_env())


def workers(E, n, length, alphabet=None):
    """workers of a pool, started in any order, see their own context"""
    from daisy.context import Context
    from daisy.worker_pool import WorkerPool
    from . import srv
    import queue

    procs = []

    class Process:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, **k):
            self.run = lambda: target(*args, **(kwargs or {}))
            self.alive = False
            self.exitcode, self.pid = None, 1
            procs.append(self)

        def start(self):
            self.alive = True

        def is_alive(self):
            return self.alive

        def terminate(self):
            self.alive = False

        def join(self, timeout=None):
            pass

    with patched(E) as env, srv.patched(process=Process, mpqueue=lambda *a: queue.Queue()):
        task = sym_text(E, "task", length, alphabet)
        for c in codes(task):
            E.assume(c != ord("/"))
        context = Context(hostname="host", port=5, task_id=task)
        pool = WorkerPool(worker_main, context)
        pool.set_num_workers(n)
        E.check(len(procs) == n and len(pool.workers) == n, "number of workers")
        ids = list(pool.workers)
        order = list(range(n))
        seen = {}
        while order:
            i = order.pop(E.choice("next%d" % len(order), len(order)))
            RECORD.clear()
            procs[i].run()
            E.check(len(RECORD) == 1, "worker function was called %d times" % len(RECORD))
            seen[i] = RECORD[0]
        for i in range(n):
            E.check(seen[i]["worker_id"] == str(ids[i]), "worker %d got the id %s" % (i, seen[i]["worker_id"]))
            E.check(seen[i]["hostname"] == "host" and seen[i]["port"] == "5", "entries of the pool")
            E.check(same(E, seen[i]["task_id"], task), "name of the task was changed")
        E.check(context.get("worker_id") is None, "context of the pool was changed")
        E.check(same(E, context["task_id"], task), "context of the pool was changed")
        special(E, task)
        pool.stop()
        E.observe(n)
        E.reach("workers")


def cases(tier):
    q = tier == "quick"
    lab = ["contains :", "contains =", "contains %", "round trip"]
    out = []
    for lengths in ([dict(hostname=n) for n in range(5 if q else 6)] + [dict(task_id=n) for n in range(1, 5 if q else 6)]
                    + [dict(logdir=n) for n in range(1, 5)] + [dict(hostname=1, task_id=2, logdir=1), dict(task_id=2, logdir=2)]
                    + ([] if q else [dict(hostname=2, task_id=2, logdir=2), dict(hostname=3, task_id=3)])):
        e = {k: min(n, 3 if len(lengths) == 1 else 1) for k, n in lengths.items()}
        out.append(Case("roundtrip", lengths=lengths, reach=lab, eager_params=dict(lengths=e, alphabet=ALPHABET),
                        bounds="any texts with numbers of characters " + str(lengths)))
    for n in range(4 if q else 5):
        out.append(Case("assignment", n=n, reach=["accepted"], eager_params=dict(n=min(n, 2), alphabet=ALPHABET),
                        bounds="entry set to any text of %d characters" % n))
    out.append(Case("copies", steps=3 if q else 4, reach=["set"], bounds="every history of 3 (thorough 4) copies, changes and passes"))
    for n, k in ((2, 2), (3, 1)) if q else ((2, 3), (3, 2), (4, 1)):
        out.append(Case("workers", n=n, length=k, reach=["workers"], eager_params=dict(length=1, alphabet=ALPHABET),
                        bounds="%d workers started in any order, task names of any %d characters" % (n, k)))
    return out
