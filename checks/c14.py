"""C14: blocks of lost workers are taken back and retried"""
from .srv import ASSUMPTIONS, OUTSIDE, STUBS, case  # noqa


def cases(tier):
    q = tier == "quick"
    out = [
        case("C14", "one", workers=1, crashes=2, rmax=2, fails=1,
             reach=["finished", "taken back", "crash while holding a block", "crash while sending"]),
        case("C14", "one", workers=2, crashes=2, rmax=2, fails=0),
        case("C14", "free2", workers=2, crashes=1, rmax=1, fails=0),
        case("C14", "free2", workers=2, crashes=2, rmax=0, fails=0, reach=["finished", "two connections closed at once"]),
        case("C14", "chain2", workers=2, crashes=1, rmax=1, fails=1, reach=["crash while waiting for a block"]),
        case("C14", "chain3", workers=2, crashes=1, rmax=0, fails=0),
        case("C14", "lanes2", crashes=1, fails=0),
        case("C14", "pair", workers=2, crashes=1, rmax=1, fails=0),
        case("C14", "one", crashes=1, rmax=1, late_close=True),
        case("C14", "one", crashes=2, workers=1, rmax=1, fails=1, in_flight=True),
        case("C14", "chain2", crashes=1, workers=2, rmax=1, fails=0, in_flight=True),
    ]
    if not q:
        out += [
            case("C14", "free2", workers=2, crashes=2, rmax=1, fails=1),
            case("C14", "free2", workers=2, crashes=2, rmax=1, fails=1, in_flight=True, late_close=True),
            case("C14", "chain2", workers=2, crashes=2, rmax=2, fails=0),
            case("C14", "chain3", workers=2, crashes=1, rmax=1, fails=0),
            case("C14", "lanes2", crashes=2, fails=0),
            case("C14", "one", workers=3, crashes=3, rmax=3, fails=0),
            case("C14", "merge", crashes=1, rmax=1, fails=0),
            case("C14", "one", workers=2, crashes=2, rmax=2, late_close=True, fails=0),
        ]
    return out
