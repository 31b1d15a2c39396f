"""C07: blocks are handed out only after their dependencies"""
from . import drive
from .drive import ASSUMPTIONS, OUTSIDE, STUBS  # noqa


def need(cs, *labels):
    cs[0].reach = list(labels)
    return cs


def cases(tier):
    q = tier == "quick"
    return (need(drive.schedules("C07", tier), "finished", "parallel", "orphaned", "failed for good")
            + drive.retries("C07", tier)
            + drive.checked("C07", tier)[:6 if q else 99]
            + drive.geometries("C07", tier)
            + [drive.surface_case("C07", n) for n in ((3, 4) if q else (3, 4, 5))])
