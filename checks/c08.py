"""C08: scheduling never gets stuck"""
from . import drive
from .drive import ASSUMPTIONS, OUTSIDE, STUBS  # noqa


def need(cs, *labels):
    cs[0].reach = list(labels)
    return cs


def cases(tier):
    q = tier == "quick"
    return (need(drive.schedules("C08", tier), "finished", "parallel", "orphaned", "failed for good")
            + drive.retries("C08", tier)
            + drive.checked("C08", tier)[:6 if q else 99]
            + drive.geometries("C08", tier)
            + [drive.surface_case("C08", n) for n in ((3, 4) if q else (3, 4, 5))])
