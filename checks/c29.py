"""C29: the whole system processes every block"""
from .full import ASSUMPTIONS, OUTSIDE, STUBS, case, full  # noqa


def cases(tier):
    q = tier == "quick"
    out = [
        case("one", workers=1, rmax=1, outcomes=("ok", "raise", "status"), fails=2,
             reach=["finished", "failed: raise", "failed: status"]),
        case("one", workers=1, rmax=1, crashes=1, reach=["crash while processing", "crash while waiting"]),
        case("free2", workers=2, rmax=1),
        case("chain2", workers=2, rmax=1),
        case("pair", workers=1, rmax=1, check=("a",)),
        case("pair", workers=1, crashes=1, fails=0),
        case("indep", workers=1, fails=0),
        case("lanes2", workers=1, fails=0),
    ]
    if not q:
        out += [
            case("lanes2", workers=1, fails=1),
            case("indep", workers=1, fails=1),
            case("free2", workers=2, rmax=1, crashes=1, fails=0),
            case("chain2", workers=2, rmax=1, crashes=1, fails=1),
            case("one", workers=2, rmax=2, crashes=2, fails=1, outcomes=("ok", "raise", "status")),
            case("pair", workers=2, rmax=1, fails=1, check=("a", "b")),
            case("tchain", workers=1, rmax=0, fails=1),
            case("fork", workers=1, rmax=0, fails=0),
            case("chain3", workers=2, rmax=0, fails=1),
            case("cross", workers=1, rmax=0, fails=1),
        ]
    return out
