"""C12: blocks that are already done are skipped"""
from . import drive
from .drive import ASSUMPTIONS, OUTSIDE, STUBS  # noqa


def need(cs, *labels):
    cs[0].reach = list(labels)
    return cs


def cases(tier):
    q = tier == "quick"
    return need(drive.checked("C12", tier), "finished", "check yes", "check no", "check raise", "orphaned", "retried")
