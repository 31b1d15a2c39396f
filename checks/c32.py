"""C32: workers are told an address at which the server can be reached"""
import errno
import socket

from symx.runner import Case
from . import net
from .stub import Stubs

ASSUMPTIONS = [
    "an address at which a listening socket accepts a connection and receives what was sent can be reached by workers on this host; "
    "127.0.0.1 always can",
]
OUTSIDE = "names of hosts given by the user that are wrong; changes of the network after the server was created; IPv6"
STUBS = [
    "socket.socket: every operation may fail in every way or give any of the stated results, as the solver says",
    "tornado TCPServer.listen: fails with OSError or gets a port; IOLoop and its thread: see C17",
]

FAULTS = {
    "os": lambda: OSError(errno.ENOTCONN, "Transport endpoint is not connected"),
    "refused": lambda: ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused"),
    "timeout": lambda: socket.timeout("timed out"),
    "unreachable": lambda: OSError(errno.ENETUNREACH, "Network is unreachable"),
    "denied": lambda: PermissionError(errno.EACCES, "Permission denied"),
}


class World:
    def __init__(self, E, faults, budget):
        self.E, self.faults, self.budget = E, tuple(faults), budget
        self.sockets = []
        self.n = 0
        self.detected = None
        self.reached = set()  # addresses at which data arrived

    def may_fail(self, what):
        self.n += 1
        if self.budget <= 0:
            return
        k = self.E.pick("%s%d" % (what, self.n), ("ok",) + self.faults)
        if k != "ok":
            self.budget -= 1
            self.E.reach("failed: " + what)
            raise FAULTS[k]()


class Sock:
    """socket.socket"""

    def __init__(self, world, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
        world.may_fail("socket")
        self.world, self.family, self.type = world, family, type
        self.closed = False
        self.name = self.peer = None
        self.listening = False
        self.data = b""
        self.backlog = []
        world.sockets.append(self)

    def usable(self):
        if self.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")

    def setsockopt(self, *a):
        self.usable()
        self.world.may_fail("setsockopt")

    def settimeout(self, t):
        self.usable()

    def setblocking(self, b):
        self.usable()

    def bind(self, address):
        self.usable()
        self.world.may_fail("bind")
        self.name = (address[0], address[1] or 2000 + len(self.world.sockets))

    def listen(self, n=0):
        self.usable()
        self.world.may_fail("listen")
        self.listening = True

    def connect(self, address):
        self.usable()
        if self.type == socket.SOCK_DGRAM:
            # decides the route, sends nothing
            self.world.may_fail("route")
            self.name = (self.world.detected, 5555)
            return
        self.world.may_fail("connect")
        for s in self.world.sockets:
            if s.listening and not s.closed and s.name == tuple(address):
                self.peer = Sock.__new__(Sock)
                self.peer.__dict__.update(world=self.world, family=self.family, type=self.type, closed=False, name=s.name, peer=self,
                                          listening=False, data=b"", backlog=[])
                s.backlog.append(self.peer)
                return
        raise FAULTS["refused"]()

    def connect_ex(self, address):
        try:
            self.connect(address)
        except OSError as e:
            return e.errno or 110
        return 0

    def sendall(self, data, *a):
        self.usable()
        self.world.may_fail("send")
        self.peer.data += data

    def send(self, data, *a):
        self.sendall(data)
        return len(data)

    def accept(self):
        self.usable()
        self.world.may_fail("accept")
        if not self.backlog:
            raise FAULTS["timeout"]()
        c = self.backlog.pop(0)
        self.world.sockets.append(c)
        return c, ("peer", 1)

    def recv(self, n, *a):
        self.usable()
        self.world.may_fail("recv")
        if not self.data:
            raise FAULTS["timeout"]()
        if self.world.budget > 0:
            how = self.world.E.pick("arrives", ("all", "nothing", "other"))
            if how != "all":
                self.world.budget -= 1
                self.world.E.reach("arrives: " + how)
                return b"" if how == "nothing" else bytes(len(self.data))[:n]
        out, self.data = self.data[:n], self.data[n:]
        if self.name is not None:
            self.world.reached.add(self.name[0])
        return out

    def getsockname(self):
        self.usable()
        self.world.may_fail("getsockname")
        return self.name

    def getpeername(self):
        self.usable()
        return ("peer", 1)

    def shutdown(self, how):
        self.usable()

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        return 3


def made(world, f):
    s = Sock(world)
    try:
        f(s)
    except BaseException:
        s.close()
        raise
    return s


def address(E, faults, budget, tries, detected, hosts, through=False, busy=99):
    """the address of a new server"""
    import tornado.tcpserver
    from daisy.server import Server
    from daisy.tcp import TCPServer
    from daisy.tcp.exceptions import NoFreePort

    w = World(E, faults, budget)
    w.detected = E.pick("detected", detected)
    host = E.pick("host", hosts)
    calls, failures = [], []

    class Listening:
        def __init__(self, port):
            self.port = port

        def getsockname(self):
            return ("0.0.0.0", self.port)

        def fileno(self):
            return 3

        def close(self):
            pass

    def listen(self, port, *a, **k):
        E.check(port == 0 or isinstance(port, int), "port")
        calls.append(port)
        E.check(len(calls) <= max(tries, 1), "tried %d times to get a port" % len(calls))
        if len(calls) <= busy and E.flag("no port%d" % len(calls)):
            E.reach("no port")
            failures.append(len(calls))
            raise OSError(errno.EADDRINUSE, "Address already in use")
        self._sockets = {3: Listening(port or 4000 + len(calls))}

    with net.Net(E).patched(), Stubs() as stubs:
        stubs.put(tornado.tcpserver.TCPServer, "listen", listen)
        stubs.klass(socket, "socket", lambda *a, **kw: Sock(w, *a, **kw))
        stubs.function(socket, "create_connection", lambda address, *a, **kw: made(w, lambda s: s.connect(address)))
        stubs.function(socket, "create_server", lambda address, *a, **kw: made(w, lambda s: (s.bind(address), s.listen())))
        try:
            if through:
                s = Server(host=host)
                got = s.hostname, s.port
            else:
                s = TCPServer(host=host, max_port_tries=tries)
                got = s.address
        except NoFreePort:
            E.check(len(calls) == len(failures) == tries, "gave up after %d of %d tries" % (len(calls), tries))
            E.reach("no free port")
            E.observe("no free port")
            return
        except OSError as e:
            E.fail("raised %r" % e)
    E.check(len(got) == 2 and got[1] == 4000 + len(calls), "port %s, but the server listens at %s" % (got[1], 4000 + len(calls)))
    E.check(all(x.closed for x in w.sockets), "a socket was not closed")
    ip = got[0]
    if host is not None:
        E.check(ip == host, "host is %s, but %s was given" % (ip, host))
        E.reach("given")
    elif ip == "127.0.0.1":
        E.check(budget > w.budget or w.detected == "127.0.0.1", "only reachable from this host, although nothing failed")
        E.reach("fallback")
    else:
        E.check(ip == w.detected, "unknown address %s" % ip)
        E.check(ip in w.reached, "address %s was not seen to work" % ip)
        E.reach("detected")
    E.observe(got)


def cases(tier):
    q = tier == "quick"
    every = tuple(FAULTS)
    ops = ["failed: " + x for x in ("socket", "bind", "listen", "connect", "send", "accept", "recv", "route", "getsockname")]
    ips = ("10.1.2.3", "127.0.0.1", "127.0.1.1")
    out = [
        Case("address", faults=every, budget=1, tries=1, detected=ips, hosts=(None,),
             reach=ops + ["fallback", "detected", "arrives: nothing", "arrives: other", "no free port"],
             bounds="one operation of a socket fails in any of %d ways, or other data arrives" % len(every)),
        Case("address", faults=("os", "timeout"), budget=0, tries=3 if q else 6, detected=ips, hosts=(None, "host", "127.0.0.1"),
             reach=["no port", "no free port", "given", "detected"], bounds="up to 3 (thorough 6) tries to get a port"),
        Case("address", faults=("refused", "timeout"), budget=2, tries=1, detected=ips[:1], hosts=(None,), reach=["fallback", "detected"],
             bounds="two operations of sockets fail"),
        Case("address", faults=("os", "timeout"), budget=1, tries=1000, detected=ips, hosts=(None, "host"), through=True, busy=1,
             reach=["given", "fallback", "detected"], bounds="the address that Server passes to workers; one operation fails"),
    ]
    if not q:
        out += [
            Case("address", faults=every, budget=3, tries=1, detected=ips[:1], hosts=(None,), reach=["fallback", "detected"],
                 bounds="three operations of sockets fail"),
            Case("address", faults=every, budget=2, tries=2, detected=ips, hosts=(None,), reach=["fallback", "detected"],
                 bounds="two operations of sockets fail in any way"),
        ]
    return out
