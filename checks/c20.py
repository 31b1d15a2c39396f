"""C20: expanding a region to the block grid"""
from symx.runner import Case

ASSUMPTIONS = ["regions are bounded and not empty; block shapes are positive", "python ints are mathematical integers"]
OUTSIDE = "block shapes above the stated maximum; unbounded (None) regions; more than 3 dimensions"
STUBS = ["int, range, min, max in the modules under test accept symbolic integers"]


def expand(E, dims, wmax, which):
    from daisy import Roi, Coordinate
    import daisy.blocks as B

    w = [E.cint(f"w{i}", 1, wmax) for i in range(dims)]
    wo = [E.int(f"wo{i}") for i in range(dims)]
    ul = [E.int(f"ul{i}", 0, None) for i in range(dims)]
    lr = [E.int(f"lr{i}", 0, None) for i in range(dims)]
    to = [E.int(f"to{i}") for i in range(dims)]
    ts = [E.int(f"ts{i}", 1, None) for i in range(dims)]
    so = [E.int(f"so{i}") for i in range(dims)]
    ss = [E.int(f"ss{i}", 1, None) for i in range(dims)]
    write = Roi(wo, w)
    read = Roi([a - b for a, b in zip(wo, ul)], [a + b + c for a, b, c in zip(ul, w, lr)])
    total = Roi(to, ts)
    sub = Roi(so, ss)
    if which == "write":
        res = B.expand_write_roi_to_grid(sub, write)
        anchor = [0] * dims
        g0, g1 = [0] * dims, [0] * dims
    elif which == "roi":
        res = B.expand_roi_to_grid(sub, total, read, write)
        # first write block of the total region starts after its upper context
        anchor = [t + u for t, u in zip(to, ul)]
        g0, g1 = [0] * dims, [0] * dims
    else:
        res = B.expand_request_roi_to_grid(sub, total, read, write)
        anchor = [t + u for t, u in zip(to, ul)]
        g0, g1 = ul, lr
    E.check(res.dims == dims, "dimensionality")
    E.observe(list(res.begin), list(res.end))
    for i in range(dims):
        # the write part of the result
        b = res.begin[i] + g0[i]
        e = res.end[i] - g1[i]
        sb, se = so[i], so[i] + ss[i]
        E.check(E.land(b <= sb, e >= se), "result does not contain the region")
        E.check(E.land((b - anchor[i]) % w[i] == 0, (e - anchor[i]) % w[i] == 0), "result is not on the grid")
        E.check(E.land(sb - b < w[i], e - se < w[i]), "result is not the smallest")
        if bool(E.land((sb - anchor[i]) % w[i] == 0, (se - anchor[i]) % w[i] == 0)):
            E.check(E.land(b == sb, e == se), "aligned region was changed")
            E.reach("aligned")
        else:
            E.reach("unaligned")
        if bool(sb < anchor[i]):
            E.reach("below anchor")
    # inputs are not modified
    E.check(E.land(*[sub.begin[i] == so[i] for i in range(dims)]), "argument was modified")


def cases(tier):
    q = tier == "quick"
    out = []
    for which in ("write", "roi", "request"):
        for dims, wmax in ((1, 16 if q else 64), (2, 4 if q else 8), (3, 2 if q else 3)):
            out.append(
                Case("expand", dims=dims, wmax=wmax, which=which, reach=["aligned", "unaligned", "below anchor"],
                     eager_params=dict(wmax=min(wmax, 3)) if dims == 1 else dict(wmax=2, dims=1),
                     bounds=f"{dims}-D: block shape 1..{wmax} per dimension; offsets, contexts, extents unbounded")
            )
    return out
