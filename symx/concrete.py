"""Replay engine: the same harness interface over concrete values."""


class Mismatch(BaseException):
    pass


class Violation(BaseException):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class Done(BaseException):
    pass


class ConcreteEngine:
    symbolic = False
    eager = False

    def __init__(self, assignment):
        self.assignment = assignment
        self.obs = []
        self.labels = set()
        self.ctl = None

    def _raise(self, e):
        self.ctl = e
        raise e

    def int(self, name, lo=None, hi=None, eager=None):
        v = self.assignment.get(name)
        if v is None:
            v = 0
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            self._raise(Mismatch("%s=%r out of range" % (name, v)))
        return v

    def bool(self, name):
        return bool(self.assignment.get(name, False))

    def cint(self, name, lo, hi):
        return self.int(name, lo, hi)

    def choice(self, name, n):
        if n <= 1:
            return 0
        return self.int(name, 0, n - 1)

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    flag = bool

    def concretize(self, x):
        return x

    def branch(self, x):
        return bool(x)

    def assume(self, cond):
        if not cond:
            self._raise(Mismatch("assumption does not hold"))

    def check(self, cond, msg):
        if not cond:
            self.fail(msg)

    def fail(self, msg):
        self._raise(Violation(msg))

    def done(self):
        self._raise(Done())

    def reach(self, label):
        self.labels.add(label)

    def observe(self, *xs):
        self.obs.append(list(xs))

    @staticmethod
    def land(*xs):
        return all(xs)

    @staticmethod
    def lor(*xs):
        return any(xs)

    @staticmethod
    def lnot(x):
        return not x

    @staticmethod
    def implies(a, b):
        return (not a) or b

    @staticmethod
    def iff(a, b):
        return bool(a) == bool(b)

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    smin = staticmethod(min)
    smax = staticmethod(max)
