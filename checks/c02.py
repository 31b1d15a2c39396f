"""C02: announced block counts"""
from symx.runner import Case
from .geom import FITS, MIXED, Spec, drain, mixed_bounds

ASSUMPTIONS = [
    "read region of a block contains its write region; write shape positive; total region not empty",
    "fewer than 2**63 blocks (numpy integers)",
]
OUTSIDE = ("larger write shapes or contexts than stated; extents are unbounded in the 'large' cases, where only the "
           "announced number of blocks is compared with the closed form; number of initially ready blocks is compared "
           "for the stated number of blocks per dimension")
STUBS = ["int, range, min, max in the modules under test accept symbolic integers"]


def small(E, dims, wmax, cmax, nmax, fit, conflict, sym=False, mixed=None):
    """announced counts = number of blocks generated, by enumeration"""
    from daisy.scheduler import Scheduler
    from daisy.dependency_graph import DependencyGraph

    s = Spec(E, "t", dims, wmax, cmax, nmax, fit, conflict, emin=-1, cwrel=True, sym=sym, mixed=mixed)
    g = DependencyGraph([s.task])
    enum = list(g.task_dependency_graphs["t"].enumerate_all_dependencies())
    E.check(g.num_blocks("t") == s.count(), "announced number of blocks is not the number that tile the region")
    E.check(g.num_blocks("t") == len(enum), "announced number of blocks is not the number generated")
    roots = list(g.root_gen("t"))
    nroots = len([1 for b, up in enum if not up])
    E.check(g.num_roots("t") == len(roots), "announced number of roots is not the number generated")
    E.check(g.num_roots("t") == nroots, "announced number of roots is not the number of blocks without dependencies")
    ids = [E.concretize(b.block_id[1]) for b in roots]
    E.check(len(set(ids)) == len(ids), "a root is generated twice")
    for b in roots:
        s.check_block(b)
        E.check(not g.upstream(b), "a root has dependencies")
    sch = Scheduler([s.task])
    st = sch.task_states["t"]
    E.check(st.total_block_count == s.count(), "total block count of the task")
    E.check(st.ready_count == nroots, "ready count of the task at start")
    E.check(sum(1 for _ in drain(sch, ["t"])) == s.count(), "number of blocks processed")
    E.observe(s.count(), nroots)
    E.reach("none" if not enum else "all ready" if nroots == len(enum) else "some ready")


def large(E, dims, wmax, cmax, fit, conflict, small_n):
    """unbounded extent in the last dimension: closed form of the count"""
    from daisy import Roi, Task
    from daisy.scheduler import Scheduler
    from .geom import noop

    r = range(dims)
    w = [E.cint(f"w{i}", 1, wmax) for i in r]
    ul = [E.int(f"ul{i}", 0, cmax * w[i]) for i in r]
    lr = [E.int(f"lr{i}", 0, cmax * w[i]) for i in r]
    e = [E.int(f"e{i}", 1, small_n * w[i]) for i in r[:-1]] + [E.int("e", 1, None, eager=(1, 9))]
    o = [E.int(f"o{i}", eager=(0, 1)) for i in r]
    total = Roi(o, [a + b + c for a, b, c in zip(ul, e, lr)])
    read = Roi([0] * dims, [a + b + c for a, b, c in zip(ul, w, lr)])
    write = Roi(ul, w)
    t = Task("t", total, read, write, noop, read_write_conflict=conflict, fit=fit)
    sch = Scheduler([t])
    n = 1
    for i in r[:-1]:
        n *= E.concretize(e[i] // w[i] if fit == "valid" else -((-e[i]) // w[i]))
    n = n * (e[-1] // w[-1] if fit == "valid" else -((-e[-1]) // w[-1]))
    st = sch.task_states["t"]
    E.check(st.total_block_count == n, "announced number of blocks for a large extent")
    E.check(E.implies(n > 0, st.ready_count > 0), "no block is ready at start")
    E.check(st.ready_count <= n, "more blocks ready than there are")
    if not conflict:
        E.check(st.ready_count == n, "not all blocks are ready although there are no conflicts")
    E.observe(st.total_block_count)
    if bool(n > 1000000):
        E.reach("large")


def huge(E, base, wmax, fit, conflict):
    """extents near the limits of floats, every value forked before the code
    runs (symbolic division is exact, float division is not)"""
    from daisy import Roi, Task
    from daisy.scheduler import Scheduler
    from .geom import noop

    w = E.cint("w", 1, wmax)
    c = E.cint("c", 0, 1) * w
    e = 2**base + E.cint("e", -2, 2 * wmax)
    t = Task("t", Roi((0,), (e + 2 * c,)), Roi((0,), (w + 2 * c,)), Roi((c,), (w,)), noop, read_write_conflict=conflict, fit=fit)
    sch = Scheduler([t])
    n = e // w if fit == "valid" else -(-e // w)
    st = sch.task_states["t"]
    E.check(st.total_block_count == n, "announced number of blocks for an extent of about 2**%d" % base)
    # every second block if there are conflicts
    m = (n // 2, n - n // 2) if conflict and c else (n,)
    E.check(st.ready_count in m, "announced number of initially ready blocks for an extent of about 2**%d" % base)
    E.observe(str(st.total_block_count))
    E.reach("huge")


def cases(tier):
    q = tier == "quick"
    out = []
    for fit in FITS:
        for conflict in (True, False):
            for base in (31, 53, 62) if q else (31, 32, 52, 53, 54, 60, 62):
                w = 3 if q else 6
                out.append(Case("huge", base=base, wmax=w, fit=fit, conflict=conflict, reach=["huge"],
                                bounds=f"1-D: extents 2**{base} - 2 .. 2**{base} + {2 * w}, write shape 1..{w}, context 0 or 1 block"))
            lab = ["none", "all ready"] + (["some ready"] if conflict else [])
            w, c, n = ((1, 2, 3, 8, 25), 2, 5) if q else ((1, 2, 3, 4, 5, 7, 8, 16, 100), 3, 8)
            out.append(Case("small", dims=1, wmax=w, cmax=c, nmax=n, fit=fit, conflict=conflict, reach=lab,
                            eager_params=dict(wmax=2, cmax=1, nmax=2),
                            bounds=f"1-D: write shape {w}, contexts 0..{c} blocks each side, up to {n} blocks, any offsets"))
            w, c, n = (2, 1, 2) if q else (2, 2, 3)
            out.append(Case("small", dims=2, wmax=w, cmax=c, nmax=n, fit=fit, conflict=conflict,
                            eager_params=dict(dims=1, wmax=2, cmax=1, nmax=2),
                            bounds=f"2-D: write shape 1..{w}, contexts 0..{c} blocks each side, up to {n} blocks per dimension"))
            out.append(Case("small", dims=3, wmax=1, cmax=1, nmax=2, fit=fit, conflict=conflict, sym=True,
                            eager_params=dict(dims=1, wmax=2, cmax=1, nmax=2),
                            bounds="3-D: write shape 1, contexts 0..1, up to 2 blocks per dimension"))
            for dims, mixed in MIXED:
                w, c, n = (2, 1, 2) if q else (3, 2, 3)
                out.append(Case("small", dims=dims, wmax=w, cmax=c, nmax=n, fit=fit, conflict=conflict, mixed=mixed,
                                eager_params=dict(wmax=1, cmax=1, nmax=1), bounds=mixed_bounds(dims, w, c, n, mixed)))
            w, c = (4, 3) if q else (8, 4)
            out.append(Case("large", dims=1, wmax=w, cmax=c, fit=fit, conflict=conflict, small_n=1, reach=["large"],
                            eager_params=dict(wmax=2, cmax=1),
                            bounds=f"1-D: write shape 1..{w}, contexts 0..{c} blocks, extent and offset unbounded"))
            w, c = (2, 1) if q else (3, 2)
            out.append(Case("large", dims=2, wmax=w, cmax=c, fit=fit, conflict=conflict, small_n=2 if q else 3, reach=["large"],
                            eager_params=dict(wmax=1, cmax=1, small_n=1),
                            bounds=f"2-D: write shape 1..{w}, contexts 0..{c} blocks, one extent and offsets unbounded"))
    return out
