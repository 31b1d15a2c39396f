"""C11: task counters match the state of the blocks"""
from . import drive
from .drive import ASSUMPTIONS, OUTSIDE, STUBS  # noqa


def need(cs, *labels):
    cs[0].reach = list(labels)
    return cs


def cases(tier):
    q = tier == "quick"
    return (need(drive.schedules("C11", tier), "finished", "parallel", "orphaned", "failed for good")
            + drive.retries("C11", tier)
            + drive.checked("C11", tier)
            + drive.geometries("C11", tier))
