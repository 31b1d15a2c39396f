"""C13: a block is held by at most one live worker and its result counts once"""
from .srv import ASSUMPTIONS, OUTSIDE, STUBS, case  # noqa


def cases(tier):
    q = tier == "quick"
    out = [
        case("C13", "one", workers=2, crashes=1, rmax=1, reach=["finished", "taken back", "block failed", "result ignored"]),
        case("C13", "free2", workers=2, rogue=1, reach=["misdirected", "repeated"]),
        case("C13", "free2", workers=2, crashes=1, rmax=0),
        case("C13", "chain2", workers=2, rogue=1, rmax=1),
        case("C13", "free2", workers=2, rogue=1, crashes=1, fails=0),
        case("C13", "chain2", workers=2, crashes=1, rmax=1, fails=1),
        case("C13", "pair", crashes=1, rogue=1, rmax=1, fails=1),
        case("C13", "one", workers=2, crashes=2, rmax=2, fails=0),
        case("C13", "one", crashes=1, rmax=2, late_close=True),
        case("C13", "one", crashes=1, workers=2, rmax=1, fails=1, in_flight=True, late_close=True, reach=["late result ignored"]),
        case("C13", "free2", crashes=1, workers=2, rmax=1, fails=0, in_flight=True),
    ]
    if not q:
        out += [
            case("C13", "free2", crashes=1, workers=2, rmax=1, fails=1, in_flight=True, late_close=True),
            case("C13", "chain2", crashes=2, workers=2, rmax=1, fails=0, in_flight=True, late_close=True),
            case("C13", "free3", workers=2, rogue=1),
            case("C13", "free2", workers=2, rogue=2, crashes=1, fails=1),
            case("C13", "free2", workers=2, crashes=2, rmax=1, fails=0),
            case("C13", "free2", workers=3, crashes=1, rogue=1, fails=0),
            case("C13", "cross", crashes=1, rogue=1, fails=0),
            case("C13", "one", workers=3, crashes=2, rmax=2, fails=1),
        ]
    return out
