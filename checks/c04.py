"""C04: blocks that may run at the same time never conflict"""
from symx.runner import Case
from .geom import FITS, MIXED, Spec, mixed_bounds, overlaps

ASSUMPTIONS = [
    "read region of a block contains its write region; write shape positive; total region not empty",
]
OUTSIDE = "larger write shapes or contexts, more blocks or dimensions than stated"
STUBS = ["int, range, min, max in the modules under test accept symbolic integers",
         "block ids of multi-dimensional blocks are computed after forking over the grid index"]


def closure(up):
    """all transitive dependencies"""
    anc = {}
    for k in up:
        anc[k] = set()
        todo = list(up[k])
        while todo:
            u = todo.pop()
            if u not in anc[k]:
                anc[k].add(u)
                todo += up[u]
    return anc


def conflicting(E, a, b):
    """one block reads what the other writes"""
    def box(roi):
        return (list(roi.begin), list(roi.end))

    return E.lor(overlaps(E, box(a.read_roi), box(b.write_roi)), overlaps(E, box(a.write_roi), box(b.read_roi)))


def ordered(E, dims, wmax, cmax, nmax, fit, sym=False, wmin=1, mixed=None):
    """any two conflicting blocks are ordered by transitive dependencies"""
    from daisy.dependency_graph import DependencyGraph

    s = Spec(E, "t", dims, wmax, cmax, nmax, fit, True, cwrel=True, sym=sym, wmin=wmin, mixed=mixed)
    g = DependencyGraph([s.task])
    blocks = {}
    for b, _ in g.task_dependency_graphs["t"].enumerate_all_dependencies():
        blocks[E.concretize(b.block_id[1])] = b
    up = {k: [u for u in (E.concretize(x.block_id[1]) for x in g.upstream(b)) if u in blocks]
          for k, b in blocks.items()}
    anc = closure(up)
    ids = sorted(blocks)
    for i, a in enumerate(ids):
        for b in ids[:i]:
            if a in anc[b] or b in anc[a]:
                E.reach("ordered")
            else:
                E.check(E.lnot(conflicting(E, blocks[a], blocks[b])),
                        "blocks %s and %s conflict but may run at the same time" % (a, b))
                E.reach("unordered")
    E.observe(sorted((k, sorted(v)) for k, v in up.items()))


def running(E, dims, wmax, cmax, nmax, fit, retries, sym=True):
    """as many blocks as possible are being processed, returned in any order
    and with any outcome: blocks in processing never conflict"""
    from daisy import BlockStatus
    from daisy.scheduler import Scheduler

    s = Spec(E, "t", dims, wmax, cmax, nmax, fit, True, cwrel=True, sym=sym, retries=retries)
    sch = Scheduler([s.task])
    held = []
    step = 0
    while True:
        if sch.task_states["t"].ready_count > 0 and (not held or E.flag("acquire%d" % step)):
            b = sch.acquire_block("t")
            if b is not None:
                for o in held:
                    E.check(E.lnot(conflicting(E, b, o)),
                            "blocks %s and %s conflict and are processed at the same time" % (b.block_id, o.block_id))
                    E.reach("parallel")
                held.append(b)
        elif not held:
            break
        else:
            b = held.pop(E.choice("return%d" % step, len(held)))
            if E.flag("fail%d" % step):
                b.status = BlockStatus.FAILED
                E.reach("failed")
            else:
                b.status = BlockStatus.SUCCESS
            sch.release_block(b)
        step += 1
    E.observe(step)


def cases(tier):
    q = tier == "quick"
    out = []
    for fit in FITS:
        w, c, n = ((1, 2, 3, 10), 2, 6) if q else ((1, 2, 3, 4, 5, 8, 10, 100), 3, 9)
        out.append(Case("ordered", dims=1, wmax=w, cmax=c, nmax=n, fit=fit, reach=["ordered", "unordered"],
                        eager_params=dict(wmax=2, cmax=1, nmax=2),
                        bounds=f"1-D: write shape {w}, contexts 0..{c} blocks each side, up to {n} blocks, any offsets"))
        w, c, n = (2, 1, 4) if q else (2, 2, 4)
        out.append(Case("ordered", dims=2, wmax=w, cmax=c, nmax=n, fit=fit, eager_params=dict(dims=1, wmax=2, cmax=1, nmax=2),
                        bounds=f"2-D: write shape 1..{w}, contexts 0..{c} blocks, up to {n} blocks per dimension, any offsets"))
        out.append(Case("ordered", dims=2, wmax=1, cmax=2, nmax=4, fit=fit, sym=True, eager_params=dict(dims=1, wmax=2, cmax=1, nmax=2),
                        bounds="2-D: write shape 1, symmetric contexts 0..2 blocks, up to 4 blocks per dimension, any offsets"))
        out.append(Case("ordered", dims=3, wmax=1, cmax=1, nmax=3 if q else 4, fit=fit, sym=True,
                        eager_params=dict(dims=1, wmax=2, cmax=1, nmax=2),
                        bounds="3-D: write shape 1, symmetric contexts 0..1, up to 3 (thorough 4) blocks per dimension"))
        for dims, mixed in MIXED:
            w, c, n = (2, 2, 4) if q else (3, 3, 5)
            out.append(Case("ordered", dims=dims, wmax=w, cmax=c, nmax=n, fit=fit, mixed=mixed,
                            eager_params=dict(wmax=1, cmax=1, nmax=1), bounds=mixed_bounds(dims, w, c, n, mixed)))
        n = 3 if q else 4
        out.append(Case("running", dims=1, wmax=2, cmax=2, nmax=n, fit=fit, retries=0, reach=["parallel", "failed"],
                        eager_params=dict(wmax=2, cmax=1, nmax=2),
                        bounds=f"scheduler, 1-D: write shape 1..2, symmetric contexts 0..2 blocks, up to {n} blocks, all orders "
                               "of requests and returns, any outcomes, no retries"))
        out.append(Case("running", dims=1, wmax=1, cmax=1, nmax=2 if q else 3, fit=fit, retries=1, sym=False,
                        eager_params=dict(cmax=1, nmax=2),
                        bounds="scheduler, 1-D: write shape 1, contexts 0..1, up to 2 (thorough 3) blocks, one retry"))
        out.append(Case("running", dims=2, wmax=1, cmax=1, nmax=2, fit=fit, retries=0,
                        eager_params=dict(dims=1, wmax=2, cmax=1, nmax=2),
                        bounds="scheduler, 2-D: write shape 1, symmetric contexts 0..1 blocks, up to 2x2 blocks, all orders, no retries"))
    return out
