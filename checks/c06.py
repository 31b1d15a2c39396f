"""C06: cross-task dependencies; harnesses in c05.py"""
from .c05 import ASSUMPTIONS, OUTSIDE, STUBS, common  # noqa


def cases(tier):
    return common(tier, "C06")
