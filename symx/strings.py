"""Symbolic text: a string of known length whose characters are symbolic code
points.  The str itself is a token, by which the characters are found again
after the string went through %-formatting, join or an f-string."""
import re

from . import values as V
from .values import SymInt

TOKEN = re.compile("\ue000([0-9]{8})\ue001")
KNOWN = {}


def reset():
    KNOWN.clear()


def chars(x):
    """code points of a text, symbolic or not"""
    if isinstance(x, SymStr):
        return x.chars
    out = []
    for i, p in enumerate(TOKEN.split(str.__str__(x))):
        out += KNOWN[int(p)] if i % 2 else [ord(c) for c in p]
    return tuple(out)


def text(cs):
    """the text of these characters: an ordinary str if all are known"""
    cs = tuple(cs)
    if not any(isinstance(c, SymInt) for c in cs):
        return "".join(chr(c) for c in cs)
    return SymStr(cs)


def lift(x):
    """make symbolic parts of an ordinary string accessible"""
    if isinstance(x, str) and not isinstance(x, SymStr) and "\ue000" in x:
        return text(chars(x))
    return x


def same(E, a, b):
    a, b = chars(a), chars(b)
    if len(a) != len(b):
        return False
    return E.land(*[x == y for x, y in zip(a, b)])


def match(cs, i, sub):
    """is sub at position i"""
    if i + len(sub) > len(cs):
        return False
    for k, s in enumerate(sub):
        if not bool(cs[i + k] == s):
            return False
    return True


class SymStr(str):
    def __new__(cls, cs):
        n = len(KNOWN)
        self = str.__new__(cls, "\ue000%08d\ue001" % n)
        KNOWN[n] = self.chars = tuple(cs)
        return self

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __iter__(self):
        return (text((c,)) for c in self.chars)

    def __getitem__(self, k):
        return text(self.chars[k] if isinstance(k, slice) else (self.chars[k],))

    def __add__(self, o):
        return text(self.chars + chars(o)) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return text(chars(o) + self.chars) if isinstance(o, str) else NotImplemented

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        o = chars(o)
        if len(o) != len(self.chars):
            return False
        return V.land(*[a == b for a, b in zip(self.chars, o)])

    def __ne__(self, o):
        return V.lnot(self == o)

    def __hash__(self):
        return hash(self.known())

    def known(self):
        """fork over the characters"""
        return "".join(chr(V.ENGINE.concretize(c)) for c in self.chars)

    def find(self, sub, start=0, end=None):
        sub = chars(sub)
        for i in range(start, (len(self.chars) if end is None else end) - len(sub) + 1):
            if match(self.chars, i, sub):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def startswith(self, sub):
        if isinstance(sub, tuple):
            return any(self.startswith(s) for s in sub)
        return match(self.chars, 0, chars(sub))

    def endswith(self, sub):
        s = chars(sub)
        return len(s) <= len(self.chars) and match(self.chars, len(self.chars) - len(s), s)

    def positions(self, sub, limit=-1):
        out, i = [], 0
        while i + len(sub) <= len(self.chars) and limit != 0:
            if match(self.chars, i, sub):
                out.append(i)
                i += len(sub)
                limit -= 1
            else:
                i += 1
        return out

    def count(self, sub):
        return len(self.positions(chars(sub)))

    def replace(self, old, new, count=-1):
        old, new = chars(old), chars(new)
        if not old:
            raise NotImplementedError("replace of nothing")
        out, i = [], 0
        for p in self.positions(old, count):
            out += self.chars[i:p] + new
            i = p + len(old)
        return text(tuple(out) + self.chars[i:])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise NotImplementedError("split at white space")
        sep = chars(sep)
        out, i = [], 0
        for p in self.positions(sep, maxsplit):
            out.append(text(self.chars[i:p]))
            i = p + len(sep)
        return out + [text(self.chars[i:])]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or len(sep) != 1:
            raise NotImplementedError("rsplit")
        s = text(self.chars[::-1])
        if not isinstance(s, SymStr):
            raise NotImplementedError("rsplit")
        return [text(chars(x)[::-1]) for x in s.split(sep, maxsplit)][::-1]

    def partition(self, sep):
        p = self.find(sep)
        if p < 0:
            return (self, "", "")
        return (self[:p], sep, self[p + len(sep):])

    def rpartition(self, sep):
        r = self.rsplit(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else ("", "", self)

    def join(self, xs):
        out = []
        for i, x in enumerate(xs):
            if i:
                out += self.chars
            out += chars(x)
        return text(out)

    def translate(self, table):
        out = []
        for c in self.chars:
            for k, v in table.items():
                if bool(c == k):
                    out += chars(v if isinstance(v, str) else chr(v)) if v is not None else []
                    break
            else:
                out.append(c)
        return text(out)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, p):
        return (str, (self.known(),))


def _unsupported(name):
    def f(self, *a, **k):
        raise NotImplementedError("%s of symbolic text" % name)

    return f


for _n in dir(str):
    if not _n.startswith("_") and _n not in SymStr.__dict__:
        setattr(SymStr, _n, _unsupported(_n))


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str)

    def __subclasscheck__(cls, c):
        return issubclass(c, str)

    def __getattr__(cls, name):
        return getattr(str, name)

    def __eq__(cls, o):
        return o is str or o is cls

    def __hash__(cls):
        return hash(str)


_str = str


class sym_str(metaclass=_StrMeta):
    """str() that keeps symbolic text"""

    def __new__(cls, x="", *a):
        if isinstance(x, SymStr):
            return x
        return lift(_str(x, *a))
