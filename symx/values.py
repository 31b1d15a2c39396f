"""Symbolic values: integers in linear normal form, exact rationals, booleans.

A SymInt is  c + sum(coef_i * atom_i)  over "atoms" owned by the engine (input
variables, floor divisions, if-then-elses, products).  The normal form makes
most arithmetic of the code under test (shifting by an unknown offset and back)
fold without the solver; everything else goes to z3 through the engine.

Anything this module cannot express (use as an index, hash, float, string, ...)
is *concretised*: the engine forks over all feasible values, so results stay
sound and complete; nothing is silently sampled.
"""
import numbers
from fractions import Fraction
from math import gcd

_int = int
_isinstance = isinstance

ENGINE = None  # the engine currently executing


def set_engine(e):
    global ENGINE
    ENGINE = e


def is_plain_int(x):
    return _isinstance(x, _int) or (
        not _isinstance(x, (SymInt, SymRat, SymBool)) and _isinstance(x, numbers.Integral)
    )


def lin(x):
    """(const, {atom: coef}) of an int-like value, or None"""
    if _isinstance(x, SymInt):
        return x.c, x.t
    if _isinstance(x, bool):
        return _int(x), ()
    if _isinstance(x, _int):
        return x, ()
    if _isinstance(x, SymBool):
        return lin(x.as_int())
    if _isinstance(x, numbers.Integral):
        return _int(x), ()
    return None


def make(c, d):
    t = tuple(sorted((a, k) for a, k in d.items() if k))
    if not t:
        return c
    return SymInt(c, t)


def add(a, b, sb=1):
    ca, ta = a
    cb, tb = b
    if not tb:
        return SymInt(ca + sb * cb, ta) if ta else ca + sb * cb
    d = dict(ta)
    for k, v in tb:
        d[k] = d.get(k, 0) + sb * v
    return make(ca + sb * cb, d)


def scale(a, k):
    c, t = a
    if k == 0 or not t:
        return c * k
    return SymInt(c * k, tuple((x, v * k) for x, v in t))


def mul(a, b):
    if not a[1]:
        return scale(b, a[0])
    if not b[1]:
        return scale(a, b[0])
    return ENGINE.atom_mul(a, b)


def floordiv_const(a, d):
    """floor(a / d) for a concrete d != 0"""
    if d < 0:
        a = (-a[0], tuple((x, -v) for x, v in a[1]))
        d = -d
    if d == 1:
        return SymInt(*a) if a[1] else a[0]
    c, t = a
    q = {}
    r = []
    for x, v in t:
        if v % d == 0:
            q[x] = v // d
        else:
            r.append((x, v))
    qc, rc = divmod(c, d)
    if not r:
        return make(qc, q)
    # reduce remaining coefficients to the range (-d, d) keeping exactness
    rr = []
    for x, v in r:
        m = v % d
        if m * 2 > d:
            m -= d
        k = (v - m) // d
        if k:
            q[x] = q.get(x, 0) + k
        rr.append((x, m))
    return add(lin(make(qc, q)), lin(ENGINE.atom_div((rc, tuple(rr)), d)))


def divmod_(a, b):
    la, lb = lin(a), lin(b)
    if lb[1]:
        # symbolic divisor: fork over its feasible values
        bb = SymInt(*lb)
        if bool(bb == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return divmod_(a, ENGINE.concretize(bb))
    d = lb[0]
    if d == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if not la[1]:
        return divmod(la[0], d)
    q = floordiv_const(la, d)
    r = add(la, lin(scale(lin(q), d)), -1)
    return q, r


class SymBool:
    """A symbolic truth value; ``key`` is a canonical hashable expression."""

    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __bool__(self):
        return ENGINE.branch(self)

    def as_int(self):
        return ENGINE.atom_ite(self.key, (1, ()), (0, ()))

    def __and__(self, o):
        if _isinstance(o, (bool, SymBool)):
            return land(self, o)
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if _isinstance(o, (bool, SymBool)):
            return lor(self, o)
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if _isinstance(o, (bool, SymBool)):
            return lnot(iff(self, o))
        return self.as_int() ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if _isinstance(o, (bool, SymBool)):
            return iff(self, o)
        return self.as_int() == o

    def __ne__(self, o):
        return lnot(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return _int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (bool, (bool(self),))


def neg_key(k):
    if k[0] == "not":
        return k[1]
    if k[0] == "le":
        c, t = k[1]
        # not (L <= 0)  <=>  -L + 1 <= 0
        return le_key((1 - c, tuple((x, -v) for x, v in t)))
    return ("not", k)


def le_key(a):
    """canonical key of a <= 0 ; may be True/False"""
    c, t = a
    if not t:
        return c <= 0
    g = 0
    for _, v in t:
        g = gcd(g, v)
    if g > 1:
        t = tuple((x, v // g) for x, v in t)
        # sum <= -c  =>  sum/g <= floor(-c/g)
        c = -((-c) // g)
    r = ENGINE.interval_le(c, t)
    if r is not None:
        return r
    return ("le", (c, t))


def eq_key(a):
    c, t = a
    if not t:
        return c == 0
    g = 0
    for _, v in t:
        g = gcd(g, v)
    if c % g:
        return False
    if g > 1:
        t = tuple((x, v // g) for x, v in t)
        c = c // g
    if t[0][1] < 0:
        c = -c
        t = tuple((x, -v) for x, v in t)
    r = ENGINE.interval_eq(c, t)
    if r is not None:
        return r
    return ("eq", (c, t))


def mkbool(k):
    if k is True or k is False:
        return k
    return SymBool(k)


def lnot(x):
    if _isinstance(x, SymBool):
        return mkbool(neg_key(x.key))
    return not x


def land(*xs):
    ks = []
    for x in xs:
        if _isinstance(x, SymBool):
            if x.key not in ks:
                ks.append(x.key)
        elif not x:
            return False
    if not ks:
        return True
    if len(ks) == 1:
        return SymBool(ks[0])
    return SymBool(("and", tuple(ks)))


def lor(*xs):
    ks = []
    for x in xs:
        if _isinstance(x, SymBool):
            if x.key not in ks:
                ks.append(x.key)
        elif x:
            return True
    if not ks:
        return False
    if len(ks) == 1:
        return SymBool(ks[0])
    return SymBool(("or", tuple(ks)))


def iff(a, b):
    if not _isinstance(a, SymBool):
        return b if a else lnot(b)
    if not _isinstance(b, SymBool):
        return a if b else lnot(a)
    if a.key == b.key:
        return True
    return SymBool(("iff", (a.key, b.key)))


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    if not _isinstance(c, SymBool):
        return a if c else b
    if _isinstance(a, (bool, SymBool)) and _isinstance(b, (bool, SymBool)):
        return lor(land(c, a), land(lnot(c), b))
    la, lb = lin(a), lin(b)
    if la is None or lb is None:
        return a if bool(c) else b
    if la == lb:
        return a
    return ENGINE.atom_ite(c.key, la, lb)


class SymInt:
    __slots__ = ("c", "t")

    def __init__(self, c, t):
        self.c = c
        self.t = t

    # --- arithmetic
    def __add__(self, o):
        b = lin(o)
        if b is None:
            if _isinstance(o, (float, Fraction, SymRat)):
                return SymRat.of(self) + o
            return NotImplemented
        return add((self.c, self.t), b)

    __radd__ = __add__

    def __sub__(self, o):
        b = lin(o)
        if b is None:
            if _isinstance(o, (float, Fraction, SymRat)):
                return SymRat.of(self) - o
            return NotImplemented
        return add((self.c, self.t), b, -1)

    def __rsub__(self, o):
        b = lin(o)
        if b is None:
            if _isinstance(o, (float, Fraction, SymRat)):
                return SymRat.of(o) - self
            return NotImplemented
        return add(b, (self.c, self.t), -1)

    def __mul__(self, o):
        b = lin(o)
        if b is None:
            if _isinstance(o, (float, Fraction, SymRat)):
                return SymRat.of(self) * o
            if _isinstance(o, (tuple, list, str, bytes)):
                return o * ENGINE.concretize(self)
            return NotImplemented
        return mul((self.c, self.t), b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if lin(o) is None:
            if _isinstance(o, (float, Fraction, SymRat)):
                return SymRat.of(self) // o
            return NotImplemented
        return divmod_(self, o)[0]

    def __rfloordiv__(self, o):
        if lin(o) is None:
            if _isinstance(o, (float, Fraction, SymRat)):
                return SymRat.of(o) // self
            return NotImplemented
        return divmod_(o, self)[0]

    def __mod__(self, o):
        if lin(o) is None:
            return NotImplemented
        return divmod_(self, o)[1]

    def __rmod__(self, o):
        if lin(o) is None:
            return NotImplemented
        return divmod_(o, self)[1]

    def __divmod__(self, o):
        if lin(o) is None:
            return NotImplemented
        return divmod_(self, o)

    def __rdivmod__(self, o):
        if lin(o) is None:
            return NotImplemented
        return divmod_(o, self)

    def __truediv__(self, o):
        if lin(o) is None and not _isinstance(o, (float, Fraction, SymRat)):
            return NotImplemented
        return SymRat.of(self) / o

    def __rtruediv__(self, o):
        if lin(o) is None and not _isinstance(o, (float, Fraction, SymRat)):
            return NotImplemented
        return SymRat.of(o) / self

    def __pow__(self, o, m=None):
        if m is not None:
            return pow(ENGINE.concretize(self), ENGINE.concretize(o), m)
        o = ENGINE.concretize(o) if _isinstance(o, SymInt) else o
        if not _isinstance(o, _int) or o < 0 or o > 4:
            return ENGINE.concretize(self) ** o
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        return o ** ENGINE.concretize(self)

    def __neg__(self):
        return SymInt(-self.c, tuple((x, -v) for x, v in self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __invert__(self):
        return -self - 1

    def _bit(name):
        def f(self, o):
            if lin(o) is None:
                return NotImplemented
            return getattr(ENGINE.concretize(self), name)(ENGINE.concretize(o))

        return f

    _and = _bit("__and__")

    def __and__(self, o):
        if _isinstance(o, _int) and o > 0 and o & (o + 1) == 0:
            return self % (o + 1)
        return self._and(o)

    __rand__ = __and__
    __or__ = _bit("__or__")
    __ror__ = _bit("__ror__")
    __xor__ = _bit("__xor__")
    __rxor__ = _bit("__rxor__")

    def __lshift__(self, o):
        return self * (1 << ENGINE.concretize(o))

    def __rlshift__(self, o):
        return o << ENGINE.concretize(self)

    def __rshift__(self, o):
        return self // (1 << ENGINE.concretize(o))

    def __rrshift__(self, o):
        return o >> ENGINE.concretize(self)

    # --- comparison
    def _cmp(self, o):
        b = lin(o)
        if b is None:
            return None
        d = add((self.c, self.t), b, -1)
        return lin(d)

    def __le__(self, o):
        d = self._cmp(o)
        if d is None:
            if _isinstance(o, (float, Fraction, SymRat)):
                return SymRat.of(self) <= o
            return NotImplemented
        return mkbool(le_key(d))

    def __lt__(self, o):
        d = self._cmp(o)
        if d is None:
            if _isinstance(o, (float, Fraction, SymRat)):
                return SymRat.of(self) < o
            return NotImplemented
        return mkbool(le_key((d[0] + 1, d[1])))

    def __ge__(self, o):
        d = self._cmp(o)
        if d is None:
            if _isinstance(o, (float, Fraction, SymRat)):
                return SymRat.of(self) >= o
            return NotImplemented
        return mkbool(le_key((-d[0], tuple((x, -v) for x, v in d[1]))))

    def __gt__(self, o):
        d = self._cmp(o)
        if d is None:
            if _isinstance(o, (float, Fraction, SymRat)):
                return SymRat.of(self) > o
            return NotImplemented
        return mkbool(le_key((1 - d[0], tuple((x, -v) for x, v in d[1]))))

    def __eq__(self, o):
        d = self._cmp(o)
        if d is None:
            if _isinstance(o, (float, Fraction, SymRat)):
                return SymRat.of(self) == o
            return NotImplemented
        return mkbool(eq_key(d))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return lnot(r)

    def __bool__(self):
        return bool(self != 0)

    # --- conversions: concretise
    def __hash__(self):
        return hash(ENGINE.concretize(self))

    def __int__(self):
        return ENGINE.concretize(self)

    __index__ = __int__

    def __float__(self):
        return float(ENGINE.concretize(self))

    def __complex__(self):
        return complex(ENGINE.concretize(self))

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def floor(self):
        return self

    ceil = trunc = rint = conjugate = floor

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def bit_length(self):
        return ENGINE.concretize(self).bit_length()

    def __repr__(self):
        return ENGINE.text(self)

    __str__ = __repr__

    def __format__(self, spec):
        if spec in ("", "d"):
            return ENGINE.text(self)
        return format(ENGINE.concretize(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (_int, (ENGINE.concretize(self),))


numbers.Integral.register(SymInt)


def rat_parts(x):
    """(numerator int-like, positive concrete denominator)"""
    if _isinstance(x, SymRat):
        return x.n, x.d
    if lin(x) is not None:
        return x, 1
    f = Fraction(x)
    return f.numerator, f.denominator


class SymRat:
    """exact rational with a symbolic numerator and a concrete denominator;
    stands in for the float a true division would yield"""

    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n = n
        self.d = d

    @staticmethod
    def of(x):
        n, d = rat_parts(x)
        return SymRat(n, d)

    @staticmethod
    def mk(n, d):
        if not _isinstance(n, SymInt):
            # concrete: an ordinary float (exact below 2**53)
            return n / d
        return SymRat(n, d)

    def _bin(self, o, f):
        try:
            n, d = rat_parts(o)
        except (TypeError, ValueError):
            return NotImplemented
        return f(self.n, self.d, n, d)

    def __add__(self, o):
        return self._bin(o, lambda a, b, c, d: SymRat.mk(a * d + c * b, b * d))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b, c, d: SymRat.mk(a * d - c * b, b * d))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b, c, d: SymRat.mk(c * b - a * d, b * d))

    def __mul__(self, o):
        return self._bin(o, lambda a, b, c, d: SymRat.mk(a * c, b * d))

    __rmul__ = __mul__

    @staticmethod
    def _div(a, b, c, d):
        # (a/b) / (c/d) = a*d / (b*c)
        if _isinstance(c, SymInt):
            if bool(c == 0):
                raise ZeroDivisionError("division by zero")
            c = ENGINE.concretize(c)
        if c == 0:
            raise ZeroDivisionError("division by zero")
        if c < 0:
            a, c = -a, -c
        return SymRat.mk(a * d, b * c)

    def __truediv__(self, o):
        return self._bin(o, SymRat._div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b, c, d: SymRat._div(c, d, a, b))

    def __floordiv__(self, o):
        return (self / o).__floor__()

    def __rfloordiv__(self, o):
        return (SymRat.of(o) / self).__floor__()

    def __mod__(self, o):
        return self - (self // o) * o

    def __neg__(self):
        return SymRat(-self.n, self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self.n >= 0) else -self

    def __le__(self, o):
        return self._bin(o, lambda a, b, c, d: a * d <= c * b)

    def __lt__(self, o):
        return self._bin(o, lambda a, b, c, d: a * d < c * b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b, c, d: a * d >= c * b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b, c, d: a * d > c * b)

    def __eq__(self, o):
        return self._bin(o, lambda a, b, c, d: a * d == c * b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __bool__(self):
        return bool(self.n != 0)

    def __floor__(self):
        return self.n // self.d

    def __ceil__(self):
        return -((-self.n) // self.d)

    def __trunc__(self):
        return self.__floor__() if bool(self.n >= 0) else self.__ceil__()

    def __round__(self, nd=None):
        # banker's rounding
        if nd is not None:
            return round(float(self), nd)
        lo = self.__floor__()
        r2 = (self.n - lo * self.d) * 2
        if bool(r2 < self.d):
            return lo
        if bool(r2 > self.d):
            return lo + 1
        return lo if bool(lo % 2 == 0) else lo + 1

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def trunc(self):
        return self.__trunc__()

    rint = __round__

    def is_integer(self):
        return self.n % self.d == 0

    def __int__(self):
        return ENGINE.concretize(self.__trunc__())

    def __float__(self):
        return ENGINE.concretize(self.n) / self.d

    def __hash__(self):
        return hash(float(self))

    def __repr__(self):
        return ENGINE.text(self.n) + "/" + str(self.d)

    __str__ = __repr__

    def __format__(self, spec):
        if spec == "":
            return repr(self)
        return format(float(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (float, (float(self),))


numbers.Real.register(SymRat)


# --- replacements for builtins, injected into the modules under test


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (_int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (_int, SymInt))

    def __getattr__(cls, name):
        return getattr(_int, name)

    def __eq__(cls, o):
        return o is cls or o is _int

    def __hash__(cls):
        return hash(_int)


class sym_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *args):
        if not args:
            if _isinstance(x, SymInt):
                return x
            if _isinstance(x, SymRat):
                return x.__trunc__()
            if _isinstance(x, SymBool):
                return x.as_int()
        return _int(x, *args)


class SymRange:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        if bool(step == 0):
            raise ValueError("range() arg 3 must not be zero")
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        up = bool(self.step > 0)
        n = 0
        while bool(i < self.stop) if up else bool(i > self.stop):
            n += 1
            if n > ENGINE.max_unroll:
                ENGINE.unroll_exceeded()
            yield i
            i = i + self.step

    def __len__(self):
        return ENGINE.concretize(self._n())

    def _n(self):
        if bool(self.step > 0):
            n = (self.stop - self.start + self.step - 1) // self.step
        else:
            n = (self.start - self.stop - self.step - 1) // (-self.step)
        return sym_max(0, n)

    def __getitem__(self, k):
        if _isinstance(k, slice):
            return list(self)[k]
        n = self._n()
        if bool(k < 0):
            k = k + n
        if bool(k < 0) or bool(k >= n):
            raise IndexError("range object index out of range")
        return self.start + k * self.step

    def __contains__(self, x):
        if lin(x) is None:
            return False
        if bool(self.step > 0):
            if not (bool(x >= self.start) and bool(x < self.stop)):
                return False
        else:
            if not (bool(x <= self.start) and bool(x > self.stop)):
                return False
        return bool((x - self.start) % self.step == 0)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __bool__(self):
        return bool(self._n() > 0)


_range = range


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (_range, SymRange))


class sym_range(metaclass=_RangeMeta):
    def __new__(cls, *args):
        if any(_isinstance(a, (SymInt, SymBool)) for a in args):
            if len(args) == 1:
                return SymRange(0, args[0], 1)
            if len(args) == 2:
                return SymRange(args[0], args[1], 1)
            return SymRange(*args)
        return _range(*args)


_min, _max = min, max


def _minmax(real, pick):
    def f(*args, **kw):
        if kw:
            return real(*args, **kw)
        xs = list(args[0]) if len(args) == 1 else list(args)
        if not any(_isinstance(x, SymInt) for x in xs) or any(lin(x) is None for x in xs):
            return real(xs) if xs else real(*args)
        r = xs[0]
        for x in xs[1:]:
            r = pick(r, x)
        return r

    return f


def _le(a, b):
    d = add(lin(a), lin(b), -1)
    return mkbool(le_key(lin(d)))


sym_min = _minmax(_min, lambda a, b: ite(_le(a, b), a, b))
sym_max = _minmax(_max, lambda a, b: ite(_le(b, a), a, b))

INJECT = {"int": sym_int, "range": sym_range, "min": sym_min, "max": sym_max}
