"""Common parts of the geometry harnesses: symbolic tasks and the block grid
they must produce, computed independently of the code under test."""
from itertools import product

FITS = ("valid", "overhang", "shrink")


# for more dimensions: all axes but one (arbitrary, general) axis are one of
# these (write shape, lower context, upper context, extent)
MIXED = [
    (3, [(2, 0, 0, 3), (1, 1, 0, 2), (3, 0, 2, 4)]),
    (4, [(1, 0, 1, 2), (2, 1, 1, 1)]),
]
PAIR_MIXED = [
    (2, [(1, 0, 0, 3, 0), (2, 1, 0, 3, 0)], [(2, 1, 0, 3, -1), (3, 0, 2, 3, 1)]),
    (3, [(2, 0, 1, 3, 0)], [(1, 1, 0, 2, 1), (3, 0, 1, 2, -3)]),
]


def mixed_bounds(dims, w, c, n, mixed):
    return (f"{dims}-D: an arbitrary axis with write shape 1..{w}, contexts 0..{c} blocks, up to {n} blocks, the others with "
            f"(write shape, lower context, upper context, extent[, offset]) one of {mixed}, otherwise any offsets")


def noop(block):
    pass


class Spec:
    """a task with symbolic geometry and its expected blocks"""

    def __init__(self, E, name, dims, wmax, cmax, nmax, fit, conflict, emin=None, offsets=True,
                 upstream=(), wmin=1, retries=0, check=None, sym=False, cwrel=False, esym=None, origin=None, mixed=None, axis=None):
        from daisy import Roi, Task

        self.E = E
        self.name = name
        self.dims = dims
        self.fit = fit
        self.conflict = conflict
        r = range(dims)
        lo = 1 if emin is None else emin
        self.w, self.ul, self.lr, self.e = [], [], [], []
        # mixed: one (arbitrary) axis is general, the others are one of a list
        # of (write shape, lower context, upper context, extent[, offset])
        if mixed and axis is None:
            axis = E.choice(f"{name}.axis", dims)
        self.axis = axis
        fixed_o = {}
        for i in r:
            if mixed and i != axis:
                m = E.pick(f"{name}.axis{i}", mixed)
                for v, x in zip((self.w, self.ul, self.lr, self.e), m):
                    v.append(x)
                if len(m) > 4:
                    fixed_o[i] = m[4]
                continue
            if isinstance(wmax, (list, tuple)):
                w = E.pick(f"{name}.w{i}", wmax)
            else:
                w = E.cint(f"{name}.w{i}", wmin, wmax)
            cm = cmax * w if cwrel else cmax
            ul = E.int(f"{name}.ul{i}", 0, cm)
            lr = ul if sym else E.int(f"{name}.lr{i}", 0, cm)
            # extent of the region to be written; may be too small for a block
            e = E.int(f"{name}.e{i}", lo, nmax * w)
            for v, x in zip((self.w, self.ul, self.lr, self.e), (w, ul, lr, e)):
                v.append(x)
        if lo <= 0:
            for i in r:
                # the total region itself is not empty
                E.assume(self.e[i] + self.ul[i] + self.lr[i] >= 1)
        if origin is not None:
            self.o = origin
            self.ro = [0 for i in r]
        elif offsets:
            self.o = [fixed_o[i] if i in fixed_o else E.int(f"{name}.o{i}", eager=(-1, 1)) for i in r]
            self.ro = [0 if i in fixed_o else E.int(f"{name}.ro{i}", eager=(0, 1)) for i in r]
        else:
            self.o = [0 for i in r]
            self.ro = [0 for i in r]
        self.total = Roi(self.o, [self.ul[i] + self.e[i] + self.lr[i] for i in r])
        self.read = Roi(self.ro, [self.ul[i] + self.w[i] + self.lr[i] for i in r])
        self.write = Roi([self.ro[i] + self.ul[i] for i in r], self.w)
        self.begin = [self.o[i] + self.ul[i] for i in r]  # of the written region
        self.end = [self.begin[i] + self.e[i] for i in r]
        self.task = Task(
            name, self.total, self.read, self.write, noop, read_write_conflict=conflict, fit=fit,
            max_retries=retries, check_function=check, upstream_tasks=list(upstream),
        )
        self._n = None

    # --- the expected grid
    def n_sym(self):
        """number of blocks per dimension"""
        E = self.E
        if self.fit == "valid":
            return [E.smax(0, self.e[i] // self.w[i]) for i in range(self.dims)]
        return [E.smax(0, -((-self.e[i]) // self.w[i])) for i in range(self.dims)]

    def n(self):
        if self._n is None:
            n = [self.E.concretize(x) for x in self.n_sym()]
            if 0 in n:
                n = [0] * self.dims
            self._n = n
        return self._n

    def count(self):
        c = 1
        for x in self.n():
            c *= x
        return c

    def grid(self):
        return list(product(*[range(x) for x in self.n()]))

    def write_of(self, k):
        """(begin, end) per dimension of the block at grid position k"""
        b = [self.begin[i] + k[i] * self.w[i] for i in range(self.dims)]
        e = [x + w for x, w in zip(b, self.w)]
        if self.fit == "shrink":
            e = [self.E.smin(x, y) for x, y in zip(e, self.end)]
        return b, e

    def read_of(self, k):
        b, e = self.write_of(k)
        return [x - u for x, u in zip(b, self.ul)], [x + l for x, l in zip(e, self.lr)]

    def index_of(self, block):
        """grid position of a block of the code under test (checked)"""
        E = self.E
        k = []
        wb = block.write_roi.begin
        for i in range(self.dims):
            E.check(wb[i] is not None, "block has no write region")
            d = wb[i] - self.begin[i]
            E.check(d % self.w[i] == 0, "block is not on the grid of write blocks")
            k.append(E.concretize(d // self.w[i]))
        return tuple(k)

    def check_block(self, block):
        """the block is exactly the expected one at its grid position"""
        E = self.E
        k = self.index_of(block)
        n = self.n()
        E.check(all(0 <= x < m for x, m in zip(k, n)), "block %s outside of the grid %s" % (k, n))
        wb, we = self.write_of(k)
        rb, re = self.read_of(k)
        for i in range(self.dims):
            E.check(E.land(block.write_roi.begin[i] == wb[i], block.write_roi.end[i] == we[i]),
                    "write region of a block")
            E.check(E.land(block.read_roi.begin[i] == rb[i], block.read_roi.end[i] == re[i]),
                    "read region of a block")
        E.check(block.task_id == self.task.task_id, "task id of a block")
        return k


def overlaps(E, a, b):
    """condition: regions a and b ((begin, end) each) share a point"""
    return E.land(*[E.land(ab < be, bb < ae, ab < ae, bb < be)
                    for ab, ae, bb, be in zip(a[0], a[1], b[0], b[1])])


def conflict(E, s, k1, k2):
    """blocks k1 != k2 of spec s: one reads what the other writes"""
    return E.lor(overlaps(E, s.read_of(k1), s.write_of(k2)), overlaps(E, s.write_of(k1), s.read_of(k2)))


def drain(scheduler, task_ids):
    """process everything successfully; yields the blocks"""
    from daisy import BlockStatus

    while True:
        any_ = False
        for t in task_ids:
            b = scheduler.acquire_block(t)
            if b is not None:
                any_ = True
                yield b
                b.status = BlockStatus.SUCCESS
                scheduler.release_block(b)
        if not any_:
            return
