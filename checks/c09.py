"""C09: number of attempts of a failing block"""
from . import drive
from .drive import ASSUMPTIONS, OUTSIDE, STUBS  # noqa


def need(cs, *labels):
    cs[0].reach = list(labels)
    return cs


def cases(tier):
    q = tier == "quick"
    return need(drive.retries("C09", tier), "finished", "retried", "failed for good", "parallel")
