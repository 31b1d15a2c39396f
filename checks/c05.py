"""C05: upstream and downstream are inverse; C06: cross-task dependencies.
The harnesses here are shared by both properties."""
from symx.runner import Case
from .geom import FITS, MIXED, PAIR_MIXED, Spec, mixed_bounds, overlaps

ASSUMPTIONS = [
    "read region of a block contains its write region; write shape positive; total region not empty",
    "coordinates below 2**53 (block ids use float division)",
]
OUTSIDE = "more blocks, larger write shapes or contexts, more tasks or dimensions than stated"
STUBS = ["int, range, min, max in the modules under test accept symbolic integers",
         "block ids of multi-dimensional blocks are computed after forking over the grid index"]


def table(E, g, specs):
    """up and down relation over (task, index), as reported by the graph"""
    up, down = {}, {}
    for s in specs:
        t = s.task.task_id
        for b, _ in g.task_dependency_graphs[t].enumerate_all_dependencies():
            k = (t,) + s.check_block(b)
            for rel, f in ((up, g.upstream), (down, g.downstream)):
                out = []
                for x in f(b):
                    o = next(z for z in specs if z.task.task_id == x.task_id)
                    out.append((x.task_id,) + o.check_block(x))
                E.check(len(set(out)) == len(out), "a block is listed twice")
                rel[k] = out
    return up, down


def inverse(E, up, down):
    for a, bs in up.items():
        for b in bs:
            E.check(b in down, "dependency does not exist")
            E.check(a in down[b], "%s depends on %s but is not among its dependents" % (a, b))
    for a, bs in down.items():
        for b in bs:
            E.check(b in up, "dependent does not exist")
            E.check(a in up[b], "%s is a dependent of %s but does not depend on it" % (b, a))


def exact(E, up, down, s_up, s_down):
    """dependencies on task s_up are the blocks whose output is read, looked up from either side"""
    t, u = s_down.task.task_id, s_up.task.task_id
    for k in s_down.grid():
        r = s_down.read_of(k)
        deps = {x[1:] for x in up[(t,) + k] if x[0] == u}
        for j in s_up.grid():
            ov = overlaps(E, r, s_up.write_of(j))
            if ((t,) + k in down[(u,) + j]) != (j in deps):
                # both sides are compared with the regions if they differ
                if j in deps:
                    E.check(E.lnot(ov), "a block that reads what this one writes is not among its dependents")
                else:
                    E.check(ov, "among the dependents of a block it does not read from")
            if j in deps:
                E.check(ov, "depends on a block it does not read from")
                E.reach("reads")
            else:
                E.check(E.lnot(ov), "does not depend on a block it reads from")
        if not deps:
            E.reach("reads nothing")


def single(E, dims, wmax, cmax, nmax, fit, conflict, sym=False, mixed=None):
    from daisy.dependency_graph import DependencyGraph

    s = Spec(E, "t", dims, wmax, cmax, nmax, fit, conflict, cwrel=True, sym=sym, mixed=mixed)
    g = DependencyGraph([s.task])
    up, down = table(E, g, [s])
    inverse(E, up, down)
    if not conflict:
        E.check(not any(up.values()), "dependencies although there are no conflicts")
    if any(up.values()):
        E.reach("dependencies in a task")
    E.observe(sorted((k, sorted(v)) for k, v in up.items()))


def pair(E, dims, wmax, cmax, nmax, fits, conflict, prop, sym=False, emin=1, wb=None, nb=None, mixed=None, mixed_b=None):
    """task b reads what task a writes; unrelated grids and offsets"""
    from daisy.dependency_graph import DependencyGraph

    a = Spec(E, "a", dims, wmax, cmax, nmax, fits[0], conflict, cwrel=True, sym=sym, emin=emin, mixed=mixed)
    b = Spec(E, "b", dims, wb or wmax, cmax, nb or nmax, fits[1], conflict, cwrel=True, sym=sym, upstream=[a.task], emin=emin,
             mixed=mixed_b, axis=a.axis)
    g = DependencyGraph([b.task])
    up, down = table(E, g, [a, b])
    if prop == "C05":
        inverse(E, up, down)
    else:
        exact(E, up, down, a, b)
        for k in a.grid():
            E.check(not [x for x in up[("a",) + k] if x[0] != "a"], "depends on a task that is not upstream")
    E.observe(sorted((k, sorted(v)) for k, v in up.items()))
    E.reach("pair")


def three(E, wmax, cmax, nmax, fit, shape, prop):
    """c depends on a and b; in a diamond / chain also b on a"""
    from daisy.dependency_graph import DependencyGraph

    a = Spec(E, "a", 1, wmax, cmax, nmax, fit, False, cwrel=True, sym=True)
    b = Spec(E, "b", 1, wmax, cmax, nmax, fit, False, cwrel=True, sym=True,
             upstream=[a.task] if shape in ("chain", "both") else [])
    c = Spec(E, "c", 1, wmax, cmax, nmax, fit, False, cwrel=True, sym=True,
             upstream=[b.task] if shape == "chain" else [a.task, b.task])
    g = DependencyGraph([c.task])
    up, down = table(E, g, [a, b, c])
    if prop == "C05":
        inverse(E, up, down)
    else:
        exact(E, up, down, b, c)
        if shape != "chain":
            exact(E, up, down, a, c)
        else:
            E.check(not any(x[0] == "a" for k in up if k[0] == "c" for x in up[k]),
                    "depends on a task it does not name")
        if shape != "fork":
            exact(E, up, down, a, b)
    E.observe(sorted((k, sorted(v)) for k, v in up.items()))
    E.reach("three tasks")


def common(tier, prop):
    q = tier == "quick"
    out = []
    lab = ["pair"] + (["reads", "reads nothing"] if prop == "C06" else [])
    m = "checks.c05"
    for fa in FITS:
        for fb in FITS:
            w, c, n = (2, 1, 2) if q else (3, 1, 3)
            out.append(Case("pair", dims=1, wmax=w, cmax=c, nmax=n, fits=[fa, fb], conflict=False, prop=prop, reach=lab,
                            module=m, eager_params=dict(wmax=2, cmax=1, nmax=1),
                            bounds=f"two chained 1-D tasks: write shapes 1..{w}, contexts 0..{c} blocks each side "
                                   f"(asymmetric), up to {n} blocks each, any offsets, all pairs of fits"))
    for f in FITS:
        for wa, na, wb, nb in (((1, 2), 5, (4, 10), 1), ((4, 10), 2, (1, 3), 3)) if q else (((1, 2, 3), 8, (4, 8, 10), 2), ((4, 10, 100), 2, (1, 3, 7), 6)):
            out.append(Case("pair", dims=1, wmax=wa, cmax=1, nmax=na, wb=wb, nb=nb, fits=[f, f], conflict=False, prop=prop,
                            reach=lab, sym=q, module=m, eager_params=dict(wmax=2, wb=2, cmax=1, nmax=1, nb=1),
                            bounds=f"two chained 1-D tasks of different block sizes: write shapes {wa} and {wb}, contexts 0..1 "
                                   f"block, up to {na} and {nb} blocks, any offsets"))
        out.append(Case("pair", dims=1, wmax=2, cmax=1, nmax=2, fits=[f, f], conflict=True, prop=prop, sym=True, module=m,
                        eager_params=dict(wmax=2, cmax=1, nmax=1), emin=-1,
                        bounds="two chained 1-D tasks with conflicts and regions too small for a block: write shapes 1..2, "
                               "symmetric contexts 0..1 block, 0..2 blocks each, any offsets"))
        out.append(Case("pair", dims=2, wmax=1 if q else 2, cmax=1, nmax=1 if q else 2, fits=[f, f], conflict=False, prop=prop,
                        sym=True, module=m, eager_params=dict(dims=1, wmax=2, cmax=1, nmax=1),
                        bounds="two chained 2-D tasks: write shape 1 (thorough 1..2), symmetric contexts 0..1 block, 1 block "
                               "(thorough 1..2) per dimension, any offsets"))
        for dims, ma, mb in PAIR_MIXED:
            w, c, n = (2, 1, 2) if q else (2, 1, 3)
            out.append(Case("pair", dims=dims, wmax=w, cmax=c, nmax=n, fits=[f, f], conflict=False, prop=prop, mixed=ma,
                            mixed_b=mb, sym=True, module=m, eager_params=dict(wmax=1, cmax=1, nmax=1),
                            bounds="two chained tasks: " + mixed_bounds(dims, w, c, n, ma) + "; second task: " + str(mb)))
        for shape in ("chain", "fork", "both"):
            out.append(Case("three", wmax=1 if q else 2, cmax=1, nmax=2, fit=f, shape=shape, prop=prop, reach=["three tasks"],
                            module=m, eager_params=dict(wmax=1, nmax=1),
                            bounds="three 1-D tasks (chain, two upstream tasks, both): write shape 1 (thorough 1..2), symmetric "
                                   "contexts 0..1 block, up to 2 blocks each, any offsets"))
    return out


def cases(tier):
    q = tier == "quick"
    out = common(tier, "C05")
    for fit in FITS:
        for conflict in (True, False):
            w, c, n = ((1, 2, 3, 10), 2, 5) if q else ((1, 2, 3, 4, 5, 8, 10, 100), 3, 8)
            out.append(Case("single", dims=1, wmax=w, cmax=c, nmax=n, fit=fit, conflict=conflict,
                            reach=["dependencies in a task"], eager_params=dict(wmax=2, cmax=1, nmax=2),
                            bounds=f"one 1-D task: write shape {w}, contexts 0..{c} blocks each side, up to {n} blocks, any offsets"))
            w, c, n = (2, 1, 3) if q else (2, 2, 4)
            out.append(Case("single", dims=2, wmax=w, cmax=c, nmax=n, fit=fit, conflict=conflict,
                            eager_params=dict(dims=1, wmax=2, cmax=1, nmax=2),
                            bounds=f"one 2-D task: write shape 1..{w}, contexts 0..{c} blocks, up to {n} blocks per dimension, any offsets"))
            out.append(Case("single", dims=3, wmax=1, cmax=1, nmax=2, fit=fit, conflict=conflict, sym=True,
                            eager_params=dict(dims=1, wmax=2, cmax=1, nmax=2),
                            bounds="one 3-D task: write shape 1, symmetric contexts 0..1, up to 2 blocks per dimension"))
            for dims, mixed in MIXED:
                w, c, n = (2, 1, 3) if q else (3, 2, 4)
                out.append(Case("single", dims=dims, wmax=w, cmax=c, nmax=n, fit=fit, conflict=conflict, mixed=mixed,
                                eager_params=dict(wmax=1, cmax=1, nmax=1), bounds=mixed_bounds(dims, w, c, n, mixed)))
    return out
