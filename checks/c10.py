"""C10: permanent failures orphan exactly their dependents"""
from . import drive
from .drive import ASSUMPTIONS, OUTSIDE, STUBS  # noqa


def need(cs, *labels):
    cs[0].reach = list(labels)
    return cs


def cases(tier):
    q = tier == "quick"
    return (need(drive.schedules("C10", tier), "finished", "parallel", "orphaned", "failed for good")
            + drive.retries("C10", tier)[4:]
            + drive.geometries("C10", tier)
            + [drive.surface_case("C10", n, ["orphaned"]) for n in ((3, 4) if q else (3, 4, 5))])
