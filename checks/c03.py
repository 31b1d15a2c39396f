"""C03: block ids"""
from symx.runner import Case
from .geom import FITS, MIXED, Spec, mixed_bounds

ASSUMPTIONS = [
    "read region of a block contains its write region; write shape positive; total region not empty",
    "coordinates below 2**53 (block ids use float division)",
]
OUTSIDE = ("more blocks per dimension, larger write shapes or contexts than stated (the 'line' case: 1-D, any number of "
           "blocks; the 'cantor' case: grid indices up to the stated maximum); more than 4 dimensions")
STUBS = ["int, range, min, max in the modules under test accept symbolic integers",
         "block ids of multi-dimensional blocks are computed after forking over the grid index"]


def same(E, s, b, known):
    """b, however obtained, is the known block at its position"""
    k = s.check_block(b)
    E.check(k in known, "block does not exist")
    a = known[k]
    E.check(E.land(a.block_id[0] == b.block_id[0], a.block_id[1] == b.block_id[1]),
            "same block with different ids")
    E.check(a == b and hash(a) == hash(b) and not (a != b), "same block is not equal")
    return k


def ids(E, dims, wmax, cmax, nmax, fit, conflict, sym=False, mixed=None):
    from daisy import Roi
    from daisy.dependency_graph import DependencyGraph

    s = Spec(E, "t", dims, wmax, cmax, nmax, fit, conflict, emin=1, cwrel=True, sym=sym, mixed=mixed)
    g = DependencyGraph([s.task])
    bg = g.task_dependency_graphs["t"]
    known = {}
    pairs = []
    for b, up in bg.enumerate_all_dependencies():
        known[s.check_block(b)] = b
        pairs.append((b, list(up)))
    E.check(len(known) == s.count(), "number of blocks")
    blocks = list(known.values())
    for i, a in enumerate(blocks):
        E.check(a.block_id[0] == "t" and a.task_id == "t", "id does not name the task")
        for b in blocks[:i]:
            E.check(E.lnot(a.block_id[1] == b.block_id[1]), "two blocks with the same id")
            E.check(not (a == b) and a != b, "two blocks are equal")
        E.check(not (a == None), "equal to None")  # noqa
    for b, up in pairs:
        for x in up:
            same(E, s, x, known)
        for x in g.upstream(b):
            same(E, s, x, known)
            E.reach("dependency")
        for x in g.downstream(b):
            same(E, s, x, known)
            E.reach("dependent")
    for b in bg.root_gen():
        same(E, s, b, known)
    # blocks found by a region query
    if dims == 1:
        qo = [E.int(f"q{i}", eager=(-1, 3)) for i in range(dims)]
        qs = [E.int(f"qs{i}", 1, 2 * s.w[i]) for i in range(dims)]
        for x in bg.get_subgraph_blocks(Roi(qo, qs), read_roi=E.flag("read")):
            same(E, s, x, known)
            E.reach("query")
    E.observe(sorted((list(k), E.concretize(b.block_id[1])) for k, b in known.items()))


def two_tasks(E, wmax, cmax, nmax):
    """blocks of two tasks, also where their positions and numbers coincide"""
    from daisy.dependency_graph import DependencyGraph

    a = Spec(E, "a", 1, wmax, cmax, nmax, "valid", True, cwrel=True)
    b = Spec(E, "b", 1, wmax, cmax, nmax, "valid", True, cwrel=True, upstream=[a.task])
    g = DependencyGraph([b.task])
    ba = [x for x, _ in g.task_dependency_graphs["a"].enumerate_all_dependencies()]
    bb = [x for x, _ in g.task_dependency_graphs["b"].enumerate_all_dependencies()]
    for x in ba:
        a.check_block(x)
        for y in bb:
            E.check(x != y and not x == y and x.block_id != y.block_id, "blocks of different tasks are equal")
            if bool(x.block_id[1] == y.block_id[1]):
                E.reach("same number in two tasks")
    E.observe(len(ba), len(bb))


def line(E, wmax):
    """1-D, unbounded: two arbitrary blocks of one grid"""
    from daisy import Block, Roi

    E.fork_ids = False
    w = E.cint("w", 1, wmax)
    o = E.int("o")
    ul = E.int("ul", 0, None)
    lr = E.int("lr", 0, None)
    i = E.int("i", 0, None)
    j = E.int("j", 0, None)
    total = Roi([o], [ul + w + lr])

    def mk(k):
        return Block(total, Roi([o + k * w], [ul + w + lr]), Roi([o + ul + k * w], [w]), task_id="t")

    a, b = mk(i), mk(j)
    E.check(E.iff(a.block_id[1] == b.block_id[1], i == j), "ids do not identify blocks")
    E.check(a.block_id[1] >= 0, "negative id")
    E.observe(a.block_id[1], b.block_id[1])
    E.reach("line")


def cantor(E, dims, kmax):
    """multi-dimensional: two blocks at arbitrary grid positions"""
    from daisy import Block, Roi

    E.fork_ids = False
    k1 = [E.int(f"i{d}", 0, kmax) for d in range(dims)]
    k2 = [E.int(f"j{d}", 0, kmax) for d in range(dims)]
    s = [1] * dims
    total = Roi([0] * dims, [kmax + 1] * dims)
    a = Block(total, Roi(k1, s), Roi(k1, s), task_id="t")
    b = Block(total, Roi(k2, s), Roi(k2, s), task_id="t")
    E.check(E.implies(a.block_id[1] == b.block_id[1], E.land(*[x == y for x, y in zip(k1, k2)])),
            "two positions with the same id")
    E.check(a.block_id[1] >= 0, "negative id")
    E.observe(a.block_id[1])
    E.reach("cantor")


def cases(tier):
    q = tier == "quick"
    out = [Case("line", wmax=8 if q else 32, reach=["line"], eager_params=dict(wmax=2),
                bounds=f"1-D, two arbitrary blocks: write shape 1..{8 if q else 32}, everything else unbounded"),
           Case("two_tasks", wmax=2, cmax=1, nmax=2 if q else 3, reach=["same number in two tasks"],
                eager_params=dict(wmax=1, nmax=2),
                bounds="two chained 1-D tasks: write shape 1..2, contexts 0..1 block, 1..2 blocks, any offsets")]
    for dims, kmax in ((2, 8 if q else 20), (3, 2 if q else 4)):
        out.append(Case("cantor", dims=dims, kmax=kmax, reach=["cantor"], eager_params=dict(kmax=2),
                        bounds=f"{dims}-D, two arbitrary grid positions 0..{kmax} per dimension"))
    for fit in FITS:
        for conflict in (True, False):
            lab = ["query"] + (["dependency", "dependent"] if conflict else [])
            w, c, n = ((1, 2, 3, 10), 2, 4) if q else ((1, 2, 3, 4, 5, 8, 10, 100), 3, 6)
            out.append(Case("ids", dims=1, wmax=w, cmax=c, nmax=n, fit=fit, conflict=conflict, reach=lab,
                            eager_params=dict(wmax=2, cmax=1, nmax=2),
                            bounds=f"1-D: write shape {w}, contexts 0..{c} blocks each side, up to {n} blocks, any offsets"))
            w, c, n = (2, 1, 2) if q else (2, 2, 3)
            out.append(Case("ids", dims=2, wmax=w, cmax=c, nmax=n, fit=fit, conflict=conflict,
                            eager_params=dict(dims=1, wmax=2, cmax=1, nmax=2),
                            bounds=f"2-D: write shape 1..{w}, contexts 0..{c} blocks each side, up to {n} blocks per dimension"))
            out.append(Case("ids", dims=3, wmax=1, cmax=1, nmax=2, fit=fit, conflict=conflict, sym=True,
                            eager_params=dict(dims=1, wmax=2, cmax=1, nmax=2),
                            bounds="3-D: write shape 1, contexts 0..1, up to 2 blocks per dimension"))
            for dims, mixed in MIXED:
                w, c, n = (2, 1, 2) if q else (3, 2, 3)
                out.append(Case("ids", dims=dims, wmax=w, cmax=c, nmax=n, fit=fit, conflict=conflict, mixed=mixed,
                                eager_params=dict(wmax=1, cmax=1, nmax=1), bounds=mixed_bounds(dims, w, c, n, mixed)))
    return out
