"""C15: every request is answered and the server stops exactly when all is done"""
from .srv import ASSUMPTIONS, OUTSIDE, STUBS, case  # noqa


def cases(tier):
    q = tier == "quick"
    ab = ["a", "b"]
    out = [
        case("C15", "one", workers=2, crashes=1, rmax=1, reach=["finished", "shutdown", "block failed"]),
        case("C15", "chain2", workers=2, crashes=1, fails=1),
        case("C15", "chain3", workers=2, rmax=0),
        case("C15", "free2", workers=2, stop=True, fails=1, reach=["told to stop"]),
        case("C15", "pair", workers=2, stop=True, crashes=1, fails=0),
        case("C15", "lanes2", workers=1, order=1),
        case("C15", "lanes2", workers=1, order=0, fails=1),
        case("C15", "lanes2", workers=1, order=0, fails=0, crashes=1),
        case("C15", "lanes3", workers=1, order=1, fails=0, idle=0),
        case("C15", "lanes3", workers=1, order=0, fails=0, idle=0),
        case("C15", "tchain", workers=1, order=1, rmax=1, fails=2),
        case("C15", "tchain", workers=1, check=["a", "b", "c"], reach=["skipped"]),
        case("C15", "lanes2", workers=1, check=ab, fails=1, order=1),
        case("C15", "chain3", workers=2, check=["a"], fails=1),
        case("C15", "fork", workers=1, check=ab, fails=1),
        case("C15", "empty_up", workers=1),
        case("C15", "beyond", workers=1, fails=0),
        case("C15", "indep", workers=1, fails=1),
        case("C15", "one", crashes=1, rmax=1, late_close=True),
        # much time passes between two messages
        case("C15", "chain2", workers=2, fails=1, rmax=1, pace=1e5, tick=1e5, reach=["finished"]),
        case("C15", "pair", workers=1, fails=0, pace=1e5, tick=1e5, reach=["finished"]),
        # many workers
        case("C15", "chain3", workers=40, fails=1, burst=True, reach=["finished"]),
        case("C15", "chain3", workers=300, fails=0, burst=True, reach=["finished"]),
        case("C15", "lanes2", workers=40, fails=1, burst=True, order=1, reach=["finished"]),
    ]
    if not q:
        out += [
            case("C15", "lanes3", workers=1, order=1, fails=0, idle=1),
            case("C15", "lanes3", workers=1, order=1, fails=0, idle=0, check=["a", "b"]),
            case("C15", "lanes2", workers=2, order=1, fails=0),
            case("C15", "chain4", workers=2, rmax=0),
            case("C15", "deep", workers=1, order=1, fails=1),
            case("C15", "diamond", workers=1, order=1, check=["b", "c"]),
            case("C15", "conflict2", workers=2, fails=1),
            case("C15", "beyond", workers=1),
            case("C15", "cross", workers=2, fails=1, order=1),
            case("C15", "free2", workers=2, stop=True, crashes=1),
        ]
    return out
