"""C01: blocks tile the requested region as the fit mode promises"""
from symx.runner import Case
from .geom import FITS, MIXED, Spec, drain, mixed_bounds

ASSUMPTIONS = [
    "read region of a block contains its write region; write shape positive; total region not empty",
    "coordinates below 2**53 (block ids use float division)",
]
OUTSIDE = "more blocks per dimension, larger write shapes or contexts than stated; more than 4 dimensions; unbounded regions"
STUBS = ["int, range, min, max in the modules under test accept symbolic integers",
         "block ids of multi-dimensional blocks are computed after forking over the grid index"]


def tile(E, dims, wmax, cmax, nmax, fit, conflict, via, sym=False, mixed=None):
    from daisy.scheduler import Scheduler
    from daisy.dependency_graph import DependencyGraph

    s = Spec(E, "t", dims, wmax, cmax, nmax, fit, conflict, emin=-1, cwrel=True, sym=sym, mixed=mixed)
    if via == "graph":
        g = DependencyGraph([s.task]).task_dependency_graphs["t"]
        blocks = [b for b, _ in g.enumerate_all_dependencies()]
    else:
        blocks = list(drain(Scheduler([s.task]), ["t"]))
    seen = {}
    for b in blocks:
        k = s.check_block(b)
        E.check(k not in seen, "two blocks at the same grid position")
        seen[k] = b
    E.check(len(blocks) == s.count(), "number of blocks")
    E.observe(sorted(seen))
    E.reach("no blocks" if not blocks else "one block" if len(blocks) == 1 else "several blocks")
    # the same again without reference to the grid: disjoint, inside, covering
    if blocks:
        for i in range(dims):
            lo = min(seen)[i], max(k[i] for k in seen)
            first = next(b for k, b in seen.items() if k[i] == 0)
            last = next(b for k, b in seen.items() if k[i] == lo[1])
            E.check(first.write_roi.begin[i] == s.begin[i], "written region starts at the wrong place")
            if fit == "shrink":
                E.check(last.write_roi.end[i] == s.end[i], "written region ends at the wrong place")
                E.check(last.read_roi.end[i] == s.total.end[i], "read region leaves the total region")
            elif fit == "overhang":
                E.check(E.land(last.write_roi.end[i] >= s.end[i], last.write_roi.begin[i] < s.end[i]), "coverage")
            else:
                E.check(E.land(last.write_roi.end[i] <= s.end[i], last.write_roi.end[i] + s.w[i] > s.end[i]), "coverage")
            if bool(s.e[i] % s.w[i] != 0):
                E.reach("partial block")
            if bool(s.ul[i] != s.lr[i]):
                E.reach("asymmetric context")
            if bool(s.ul[i] > s.w[i]):
                E.reach("context larger than block")


def cases(tier):
    q = tier == "quick"
    out = []
    lab = ["no blocks", "one block", "several blocks", "partial block", "asymmetric context", "context larger than block"]
    for fit in FITS:
        for conflict in (True, False):
            for via in ("graph", "scheduler"):
                w, c, n = ((1, 2, 3, 8, 25), 2, 4) if q else ((1, 2, 3, 4, 5, 7, 8, 16, 100), 3, 6)
                out.append(Case("tile", dims=1, wmax=w, cmax=c, nmax=n, fit=fit, conflict=conflict, via=via, reach=lab,
                                eager_params=dict(wmax=2, cmax=1, nmax=2),
                                bounds=f"1-D: write shape {w}, contexts 0..{c} blocks each side, up to {n} blocks, "
                                       "any offsets"))
            w, c, n = (2, 1, 2) if q else (2, 2, 3)
            out.append(Case("tile", dims=2, wmax=w, cmax=c, nmax=n, fit=fit, conflict=conflict, via="scheduler",
                            eager_params=dict(wmax=2, cmax=1, nmax=1, dims=1),
                            bounds=f"2-D: write shape 1..{w}, contexts 0..{c} blocks each side, up to {n} blocks per "
                                   "dimension, any offsets"))
            w, c, n = (1, 1, 2) if q else (2, 1, 2)
            out.append(Case("tile", dims=3, wmax=w, cmax=c, nmax=n, fit=fit, conflict=conflict, via="graph", sym=True,
                            eager_params=dict(wmax=1, cmax=1, nmax=1, dims=1),
                            bounds=f"3-D: write shape 1..{w}, symmetric contexts 0..{c} blocks, up to {n} blocks per "
                                   "dimension, any offsets"))
            for dims, mixed in MIXED:
                w, c, n = (2, 1, 2) if q else (3, 2, 3)
                out.append(Case("tile", dims=dims, wmax=w, cmax=c, nmax=n, fit=fit, conflict=conflict, via="scheduler",
                                mixed=mixed, eager_params=dict(wmax=1, cmax=1, nmax=1), bounds=mixed_bounds(dims, w, c, n, mixed)))
    return out
