"""A network for the real TCPStream, TCPServer and TCPClient: an event loop,
connections and (symbolically) the bytes on them.

In symbolic mode a pickled message is an opaque run of bytes of symbolic
length; otherwise real pickles are used and padded to that length."""
import asyncio
import contextlib
import pickle
import re
import struct
import time
import types

from .stub import Stubs, modules

MIN_SIZE = 400
MAX_SIZE = 100 * 2**20


TOKEN = re.compile(rb"\xff<rope:(\d{8})>\xff")


class Rope(bytes):
    """bytes with parts of symbolic length

    parts: bytes | ("byte", n, k): byte k of integer n | ("part", key, start, length)

    The bytes themselves are a token by which the rope is found again after it
    was joined with others."""

    known = {}

    def __new__(cls, parts=()):
        self = super().__new__(cls, b"\xff<rope:%08d>\xff" % len(Rope.known))
        Rope.known[len(Rope.known)] = self
        self.parts = tuple(p for p in parts if not (type(p) is bytes and not p))
        return self

    @staticmethod
    def of(x):
        if isinstance(x, Rope):
            return x
        parts = []
        for i, p in enumerate(TOKEN.split(bytes(x))):
            parts += Rope.known[int(p)].parts if i % 2 else [p]
        return Rope(parts)

    @staticmethod
    def plen(p):
        if isinstance(p, bytes):
            return len(p)
        return 1 if p[0] == "byte" else p[3]

    def size(self):
        n = 0
        for p in self.parts:
            n = n + self.plen(p)
        return n

    def __add__(self, o):
        if not isinstance(o, (Rope, bytes, bytearray, memoryview)):
            return NotImplemented
        return Rope(self.parts + Rope.of(o).parts).merged()

    def __radd__(self, o):
        return Rope.of(o) + self

    def merged(self):
        out = []
        for p in self.parts:
            if out and isinstance(p, bytes) and isinstance(out[-1], bytes):
                out[-1] += p
            elif (out and isinstance(p, tuple) and p[0] == "part" and isinstance(out[-1], tuple) and out[-1][0] == "part"
                  and out[-1][1] == p[1] and bool(out[-1][2] + out[-1][3] == p[2])):
                out[-1] = ("part", p[1], out[-1][2], out[-1][3] + p[3])
            else:
                out.append(p)
        return Rope(out)

    def split(self, E, n):
        """first n bytes and the rest; n may be symbolic, at most the size"""
        head, parts = [], list(self.parts)
        while parts:
            p = parts[0]
            k = self.plen(p)
            if bool(n >= k):
                head.append(parts.pop(0))
                n = n - k
                continue
            if bool(n == 0):
                break
            if isinstance(p, bytes):
                m = E.concretize(n) if not isinstance(n, int) else n
                head.append(p[:m])
                parts[0] = p[m:]
            else:
                head.append(("part", p[1], p[2], n))
                parts[0] = ("part", p[1], p[2] + n, k - n)
            break
        return Rope(head).merged(), Rope(parts)

    def plain(self):
        """ordinary bytes if possible"""
        if not self.parts:
            return b""
        if len(self.parts) == 1 and isinstance(self.parts[0], bytes):
            return self.parts[0]
        return self


def rope_len(x):
    if isinstance(x, (bytes, bytearray)):
        return Rope.of(x).size()
    return len(x)


FORMATS = {"H": (2, 0), "h": (2, 1), "I": (4, 0), "i": (4, 1), "L": (8, 0), "l": (8, 1), "Q": (8, 0), "q": (8, 1), "B": (1, 0),
           "b": (1, 1)}


def unknown(*a, **kw):
    raise NameError("used in a way that this harness does not know")


class Structs:
    """struct for symbolic integers"""

    error = struct.error
    calcsize = staticmethod(struct.calcsize)

    def __init__(self, E):
        self.E = E

    def layout(self, fmt):
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        f = fmt.lstrip("@=<>!")
        if f not in FORMATS:
            raise struct.error("not supported: " + fmt)
        size, signed = struct.calcsize(fmt), FORMATS[f][1]
        big = fmt[0] in ">!"
        return size, signed, [size - 1 - i if big else i for i in range(size)]

    def pack(self, fmt, *vals):
        if not any(hasattr(v, "t") for v in vals):
            return struct.pack(fmt, *vals)
        (n,) = vals
        size, signed, order = self.layout(fmt)
        if bool(n >= 2 ** (8 * size - signed)):
            raise struct.error("argument out of range")
        return Rope([("byte", n, k) for k in order])

    def unpack(self, fmt, data):
        data = Rope.of(data)
        if not isinstance(data.plain(), Rope):
            return struct.unpack(fmt, data.plain())
        size, signed, order = self.layout(fmt)
        if not bool(data.size() == size):
            raise struct.error("unpack requires a buffer of %d bytes" % size)
        bs = []
        for p in data.parts:
            if isinstance(p, bytes):
                bs += list(p)
            elif p[0] == "byte":
                bs.append(p[1] // 256 ** p[2] % 256)
            else:
                for i in range(self.E.concretize(p[3]) if not isinstance(p[3], int) else p[3]):
                    bs.append(self.E.int("byte%d" % id(bs), 0, 255))
        v = 0
        for b, k in zip(bs, order):
            v = v + b * 256**k
        if signed and bool(v >= 2 ** (8 * size - 1)):
            v = v - 2 ** (8 * size)
        return (v,)

    unpack_from = unpack

    def Struct(self, fmt):
        return types.SimpleNamespace(size=struct.calcsize(fmt), format=fmt, pack=lambda *v: self.pack(fmt, *v),
                                     unpack=lambda d: self.unpack(fmt, d))


class Pickles:
    """pickle with symbolic sizes"""

    HIGHEST_PROTOCOL = pickle.HIGHEST_PROTOCOL
    DEFAULT_PROTOCOL = pickle.DEFAULT_PROTOCOL

    def __init__(self, net):
        self.net = net
        self.store = {}

    def dumps(self, obj, *a, **k):
        data = pickle.dumps(obj)
        size = self.net.sizes.get(getattr(obj, "payload", None) if hasattr(obj, "payload") else None)
        if size is None:
            return data
        key = len(self.store)
        self.store[key] = (data, size)
        return Rope([("part", key, 0, size)])

    def loads(self, data, *a, **k):
        data = Rope.of(data).plain()
        if not isinstance(data, Rope):
            return pickle.loads(data)
        if len(data.parts) == 1 and data.parts[0][0] == "part":
            _, key, start, length = data.parts[0]
            whole, size = self.store[key]
            if bool(start == 0) and bool(length == size):
                return pickle.loads(whole)
        raise pickle.UnpicklingError("invalid load key")


class Future:
    def __init__(self, loop):
        self.loop = loop
        self.done = False
        self.value = self.error = self.waiter = None

    def set(self, value=None, error=None):
        if self.done:
            return
        self.done, self.value, self.error = True, value, error
        if self.waiter is not None:
            self.loop.soon(self.waiter, self)

    def __await__(self):
        if not self.done:
            yield self
        if self.error is not None:
            raise self.error
        return self.value


class Loop:
    """callbacks and coroutines in the order of asyncio: first come first
    served"""

    def __init__(self):
        self.ready = []
        self.failures = []

    def soon(self, coro, fut):
        self.ready.append(lambda: self.drive(coro))

    def add_callback(self, f, *a, **k):
        def start():
            r = f(*a, **k)
            if asyncio.iscoroutine(r):
                self.drive(r)

        self.ready.append(start)

    add_callback_from_signal = add_callback

    def call_soon_threadsafe(self, f, *a):
        self.add_callback(f, *a)

    def spawn_callback(self, f, *a, **k):
        self.add_callback(f, *a, **k)

    def start(self):
        pass

    def drive(self, coro):
        try:
            f = coro.send(None)
        except StopIteration:
            return
        except Exception as e:  # tornado only logs these
            self.failures.append(e)
            return
        assert isinstance(f, Future), "awaits something else"
        if f.done:
            self.soon(coro, f)
        else:
            f.waiter = coro

    def step(self):
        self.ready.pop(0)()

    def run(self, limit=2000):
        n = 0
        while self.ready:
            n += 1
            if n > limit:
                return False
            self.step()
        return True


class End:
    """one end of a connection, in place of tornado.iostream.IOStream"""

    def __init__(self, net, name):
        self.net = net
        self.name = name
        self.peer = None
        self.is_closed = False
        self.buffer = Rope()  # received
        self.transit = Rope()  # written by this end, not yet received
        self.flushes = []
        self.read = None

    def closed(self):
        return self.is_closed

    def _error(self):
        import tornado.iostream

        return tornado.iostream.StreamClosedError()

    def write(self, data):
        if self.is_closed:
            raise self._error()
        f = Future(self.net.loop)
        self.transit = self.transit + data
        if self.net.auto_flush:
            f.set()
        else:
            self.flushes.append(f)
        return f

    def read_bytes(self, num_bytes, partial=False):
        assert self.read is None, "already reading"
        f = Future(self.net.loop)
        self.read = (f, num_bytes, partial)
        self.try_read()
        return f

    def try_read(self):
        if self.read is None:
            return
        f, n, partial = self.read
        have = self.buffer.size()
        if bool(have >= n):
            head, self.buffer = self.buffer.split(self.net.E, n)
        elif partial and bool(have > 0):
            head, self.buffer = self.buffer, Rope()
        elif self.is_closed:
            self.read = None
            f.set(error=self._error())
            return
        else:
            return
        self.read = None
        f.set(head.plain())

    def deliver(self, n=None):
        """the next n bytes (all) written by this end reach the other one"""
        if n is None:
            got, self.transit = self.transit, Rope()
        else:
            got, self.transit = self.transit.split(self.net.E, n)
        if not self.peer.is_closed:
            self.peer.buffer = self.peer.buffer + got
            self.peer.try_read()

    def close(self, exc_info=False):
        """bytes in transit are lost unless delivered before"""
        if self.is_closed:
            return
        self.is_closed = True
        for f in self.flushes:
            f.set(error=self._error())
        self.try_read()

    def set_close_callback(self, cb):
        pass

    def set_nodelay(self, v):
        pass


class Net:
    def __init__(self, E):
        self.E = E
        self.loop = Loop()
        self.auto_flush = True
        self.sizes = {}  # payload -> size of the pickled message
        self.server = None
        self.refuse = False
        self.links = []  # (client end, server end)
        self.sleeps = 0
        Rope.known = {}

    def message(self, payload, name, lo=MIN_SIZE, hi=MAX_SIZE):
        """a message with a pickle of symbolic size"""
        from daisy.tcp import TCPMessage

        n = self.E.int(name, lo, hi, eager=(lo + 1, lo + 2))
        if self.E.symbolic and not self.E.eager:
            self.sizes[payload] = n
            return TCPMessage(payload)
        # find a padding for a pickle of n bytes
        for extra in range(40):
            m = TCPMessage((payload, None, "y" * extra))
            k = n - len(pickle.dumps(m)) - 40
            for pad in range(k, k + 40):
                m.payload = (payload, b"\0" * pad, "y" * extra)
                if pad > 2**16 and pad != k:
                    break
                if len(pickle.dumps(m)) == n:
                    return m
            # large: correct in one step
            m.payload = (payload, b"\0" * (k + 0), "y" * extra)
            d = n - len(pickle.dumps(m))
            m.payload = (payload, b"\0" * (k + d), "y" * extra)
            if len(pickle.dumps(m)) == n:
                return m
        return m

    @staticmethod
    def key(m):
        return m.payload[0] if isinstance(m.payload, tuple) else m.payload

    def pair(self, a, b):
        x, y = End(self, a), End(self, b)
        x.peer, y.peer = y, x
        self.links.append((x, y))
        return x, y

    async def accept(self, host, port):
        """connect of the client side"""
        if self.refuse:
            raise ConnectionRefusedError()
        i = len(self.links)
        a, b = self.pair("client%d" % i, "server%d" % i)
        if self.server is not None:
            self.loop.add_callback(self.server.handle_stream, b, ("client%d" % i, i))
        return a

    def pump(self, limit=200):
        """run until nothing more happens"""
        for _ in range(limit):
            if not self.loop.run():
                self.E.fail("event loop does not come to rest")
            busy = False
            for a, b in self.links:
                for x in (a, b):
                    if x.transit.parts:
                        x.deliver()
                        busy = True
                    if x.is_closed and not x.peer.is_closed:
                        x.peer.close()
                        busy = True
            if not busy and not self.loop.ready:
                return
        self.E.fail("network does not come to rest")

    def sleep(self, s):
        self.sleeps += 1
        if self.sleeps > 200:
            self.E.fail("waits forever")
        self.pump()

    @contextlib.contextmanager
    def patched(self):
        import threading
        import tornado.ioloop
        import tornado.netutil
        import tornado.tcpclient
        import tornado.tcpserver
        from daisy.tcp import IOLooper

        net = self

        class Sock:
            def getsockname(self):
                return ("0.0.0.0", 4711)

            def fileno(self):
                return 3

            def close(self):
                pass

        def listen(self, port, *a, **k):
            self._sockets = {3: Sock()}
            if net.server is None:
                net.server = self

        class Connector:
            def __init__(self, *a, **k):
                pass

            def connect(self, host, port, **k):
                return net.accept(host, port)

            def close(self):
                pass

        class Thread:
            """runs the loop for ever"""
            ident = native_id = None

            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
                self.name, self.daemon = name or "Thread-1", bool(daemon)

            def start(self):
                self.ident = self.native_id = 4711

            def is_alive(self):
                return self.ident is not None

            def setDaemon(self, d):
                self.daemon = d

            def isDaemon(self):
                return self.daemon

            def getName(self):
                return self.name

            def setName(self, n):
                self.name = n

            def join(self, timeout=None):
                if timeout is None:
                    raise RuntimeError("waits for the loop to end")

        sym = self.E.symbolic and not self.E.eager
        with Stubs(prefix="daisy.tcp") as stubs:
            stubs.function(time, "sleep", self.sleep)
            stubs.klass(threading, "Thread", Thread)
            if sym:
                pk, st = Pickles(self), Structs(self.E)
                for f in ("dumps", "loads"):
                    stubs.function(pickle, f, getattr(pk, f))
                for f in ("pack", "unpack"):
                    stubs.function(struct, f, getattr(st, f))
                stubs.klass(struct, "Struct", st.Struct)
                for f in ("pack_into", "unpack_from", "iter_unpack"):
                    stubs.function(struct, f, unknown)
                for m in modules("daisy.tcp"):
                    for x in [m] + [c for c in vars(m).values() if isinstance(c, type) and c.__module__ == m.__name__]:
                        for k, v in list(vars(x).items()):
                            if isinstance(v, struct.Struct):
                                stubs.put(x, k, st.Struct(v.format))
                    if "len" not in vars(m):
                        stubs.put(m, "len", rope_len)
            stubs.names(tornado.ioloop.IOLoop, lambda *a, **kw: self.loop)
            stubs.put(tornado.ioloop, "IOLoop", lambda *a, **kw: self.loop)
            stubs.names(tornado.tcpclient.TCPClient, Connector)
            stubs.put(tornado.tcpclient, "TCPClient", Connector)
            stubs.put(tornado.tcpserver.TCPServer, "listen", listen)
            for f in ("add_sockets", "add_socket", "bind", "start"):
                stubs.put(tornado.tcpserver.TCPServer, f, lambda self, *a, **k: listen(self, 0))
            stubs.names(tornado.netutil.bind_sockets, lambda *a, **k: [Sock()])
            stubs.put(tornado.netutil, "bind_sockets", lambda *a, **k: [Sock()])
            stubs.put(IOLooper, "threads", {})
            stubs.put(IOLooper, "ioloops", {})
            yield
