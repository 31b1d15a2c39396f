"""Replays assignments against the unmodified code (ordinary values, ordinary
builtins).   python -m symx.replay FILE [FILE...]   (run in /verif)

Exit 1 and a line REPRODUCED if the harness fails on the assignment.
With --batch FILE: a list of jobs, results as JSON lines on stdout."""
import importlib
import json
import os
import re
import signal
import sys
import traceback

from . import env
from .concrete import ConcreteEngine, Done, Mismatch, Violation


def jdefault(o):
    return int(o) if hasattr(o, "__index__") else str(o)


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(BaseException):
    pass


def ours(module):
    return module.split(".")[0] in ("checks", "symx")


def harness_error(e):
    """the harness does not fit the code (e.g. it uses an attribute that was
    renamed): says nothing about the property"""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    here = os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(HERE + os.sep)
    if isinstance(e, AttributeError):
        if e.obj is None and e.name is not None:
            return False
        # a stand-in lacks something, or the harness looks for something that is gone
        return here or ours(type(e.obj).__module__ or "")
    if isinstance(e, (ImportError, NameError)):
        return here
    if isinstance(e, TypeError):
        if here:
            return True
        m = re.match(r"(?:[\w.]*\.)?(\w+)\.(?:<locals>\.)?(\w+)\(\) (got|takes|missing)", str(e).replace("<locals>.", ""))
        if m:
            for n, mod in list(sys.modules.items()):
                if ours(n) and mod is not None:
                    for c in gc_classes(mod):
                        if c.__name__ == m.group(1) and m.group(2) in vars(c):
                            return True
    return False


def gc_classes(mod):
    import gc

    return [c for c in gc.get_objects() if isinstance(c, type) and c.__module__ == mod.__name__]


def run(job, timeout=60):
    mod = importlib.import_module(job["module"])
    fn = getattr(mod, job["fn"])
    env.reset()
    E = ConcreteEngine(job["assignment"])

    def alarm(*a):
        E.ctl = Timeout()
        raise E.ctl

    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    res = {"status": "ok", "msg": ""}
    try:
        try:
            fn(E, **job["params"])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if E.ctl is not None:
            raise E.ctl
    except BaseException as e:
        if E.ctl is not None:
            e = E.ctl
        if isinstance(e, Done):
            pass
        elif isinstance(e, Violation):
            res = {"status": "violation", "msg": e.msg}
        elif isinstance(e, Mismatch):
            res = {"status": "mismatch", "msg": str(e)}
        elif isinstance(e, Timeout):
            res = {"status": "violation", "msg": "does not terminate"}
        elif isinstance(e, Exception):
            res = {
                "status": "harness" if harness_error(e) else "violation",
                "msg": "unexpected exception %s: %s" % (type(e).__name__, e),
                "traceback": "".join(traceback.format_exception(e))[-3000:],
            }
        else:
            raise
    res["obs"] = json.loads(json.dumps(E.obs, default=jdefault))
    res["labels"] = sorted(E.labels)
    return res


def main(argv):
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env.load(symbolic=False)
    if argv and argv[0] == "--batch":
        jobs = json.load(open(argv[1]))
        out = []
        for j in jobs:
            out.append(run(j))
        with open(argv[2], "w") as f:
            json.dump(out, f)
        return 0
    rc = 0
    for f in argv:
        job = json.load(open(f))
        r = run(job)
        print(json.dumps({"job": job, "result": r}, indent=1))
        if r["status"] == "violation":
            print("REPRODUCED", r["msg"])
            rc = 1
        else:
            print("not reproduced", r["status"], r["msg"])
    return rc


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
