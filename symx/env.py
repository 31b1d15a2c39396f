"""Makes the code under test importable, symbolically or plainly."""
import collections
import copy
import itertools
import logging
import multiprocessing
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
_loaded = None
TOUCHED = {}


def load(symbolic):
    """import daisy from REPO; with ``symbolic`` inject the symbolic-aware
    builtins into its modules (and those of funlib.geometry)"""
    global _loaded
    if _loaded is not None:
        return
    _loaded = symbolic
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    sys.path.insert(0, REPO)
    if SITE not in sys.path:
        sys.path.append(SITE)
    if symbolic:
        import funlib.math
        import funlib.math.cantor as cantor
        from . import values as V

        orig = cantor.cantor_number

        def cantor_number(coordinate):
            # multi-dimensional ids need products: fork over the index first
            c = tuple(coordinate)
            if not getattr(V.ENGINE, "fork_ids", True):
                return orig(c)
            if len(c) > 1:
                c = tuple(V.ENGINE.concretize(x) if isinstance(x, V.SymInt) else x for x in c)
            elif isinstance(c[0], V.SymInt):
                c = (V.ENGINE.concretize(c[0]),)
            return orig(c)

        cantor.cantor_number = cantor_number
        funlib.math.cantor_number = cantor_number
    import daisy

    assert os.path.realpath(daisy.__file__).startswith(os.path.realpath(REPO)), daisy.__file__
    import daisy.block_bookkeeper, daisy.blocks, daisy.convenience, daisy.server  # noqa
    import daisy.serial_server, daisy.task_worker_pools, daisy.worker_pool  # noqa
    import daisy.context, daisy.client, daisy.scheduler  # noqa

    if symbolic:
        inject()
        monitor()
    snapshot()


# --- state of modules and classes, so that executions start alike

SAVED = []
COUNTERS = {}
CONTAINERS = (dict, list, set, collections.deque)


def _daisy():
    return [(n, m) for n, m in list(sys.modules.items()) if m is not None and (n == "daisy" or n.startswith("daisy."))]


def _functions(v):
    """functions reachable from a module or class attribute"""
    if isinstance(v, (staticmethod, classmethod)):
        v = v.__func__
    todo = [v.fget, v.fset] if isinstance(v, property) else [v]
    seen = []
    while todo:
        f = todo.pop()
        if f is None or any(f is x for x in seen):
            continue
        seen.append(f)
        yield f
        if hasattr(f, "__wrapped__"):
            todo.append(f.__wrapped__)
        for c in getattr(f, "__closure__", None) or ():
            try:
                todo.append(c.cell_contents)
            except ValueError:
                pass


def _save(v, out):
    if isinstance(v, CONTAINERS):
        out.append(("content", v, copy.copy(v)))
        return
    for f in _functions(v):
        if isinstance(f, CONTAINERS):
            out.append(("content", f, copy.copy(f)))
        if callable(getattr(f, "cache_clear", None)):
            out.append(("cache", f, None))
        if isinstance(f, types.FunctionType):
            for d in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()) + [f.__dict__]:
                if isinstance(d, CONTAINERS):
                    out.append(("content", d, copy.copy(d)))


def _save_counter(owner, name, x):
    if isinstance(x, itertools.count):
        SAVED.append(("count", owner, (name, copy.copy(x))))
    elif hasattr(x, "get_lock") and hasattr(x, "get_obj") and hasattr(x, "value"):
        SAVED.append(("shared", owner, (name, type(x.get_obj()), x.value)))
    else:
        return False
    return True


def snapshot():
    """remember the state of all modules and classes of the code under test"""
    SAVED.clear()
    for n, m in _daisy():
        names = {k: v for k, v in vars(m).items() if not k.startswith("__")}
        SAVED.append(("names", m, names))
        for k, v in names.items():
            if isinstance(v, type):
                if v.__module__ == n:
                    attrs = {a: x for a, x in vars(v).items() if not (a.startswith("__") and a.endswith("__")) and a[:4] != "_abc"}
                    SAVED.append(("names", v, attrs))
                    for a, x in attrs.items():
                        _save(x, SAVED)
                        _save_counter(v, a, x)
            elif _save_counter(m, k, v):
                pass
            elif getattr(v, "__module__", n) == n or isinstance(v, CONTAINERS):
                _save(v, SAVED)


def reset():
    """back to the state remembered"""
    for kind, x, was in SAVED:
        if kind == "cache":
            x.cache_clear()
        elif kind == "count":
            setattr(x, was[0], copy.copy(was[1]))
        elif kind == "shared":
            # not shared with other processes that explore
            key = id(x), was[0], os.getpid()
            if key not in COUNTERS:
                COUNTERS[key] = multiprocessing.Value(was[1], was[2])
            COUNTERS[key].value = was[2]
            setattr(x, was[0], COUNTERS[key])
        elif kind == "content":
            if len(x) == len(was) and (x == was if not isinstance(x, (dict, set)) else all(k in was for k in x)) and not isinstance(x, dict):
                continue
            x.clear()
            if isinstance(x, (dict, set)):
                x.update(was)
            else:
                x.extend(was)
        else:
            now = {k: v for k, v in vars(x).items() if not k.startswith("__") and k[:4] != "_abc"}
            for k, v in was.items():
                if k not in now or now[k] is not v:
                    setattr(x, k, v)
            for k, v in now.items():
                if k not in was and not isinstance(v, types.ModuleType):
                    delattr(x, k)


def inject():
    from . import values as V

    for name, mod in list(sys.modules.items()):
        if name == "daisy" or name.startswith("daisy.") or name.startswith("funlib.geometry") or name.startswith("funlib.math"):
            if name.startswith("daisy.tcp") or mod is None:
                continue
            for k, v in V.INJECT.items():
                if k not in mod.__dict__:
                    mod.__dict__[k] = v


def monitor():
    """record which functions of the code under test are executed"""
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return
    repo = os.path.realpath(REPO) + "/daisy/"
    lib = SITE + "/funlib/"

    def start(code, off):
        f = code.co_filename
        if f.startswith(repo):
            TOUCHED[f[len(repo) - 6:] + ":" + code.co_qualname] = 1
        elif f.startswith(lib):
            TOUCHED[f[len(SITE) + 1:] + ":" + code.co_qualname] = 1
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def take_touched():
    out = sorted(TOUCHED)
    return out
