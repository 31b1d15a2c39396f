"""C17: messages arrive complete, unchanged and in order"""
from symx.runner import Case
from .net import MAX_SIZE, MIN_SIZE, Net, Rope

ASSUMPTIONS = [
    "tornado keeps its promises: write() appends to the byte stream at once, read_bytes(n) gives the next n bytes or raises if "
    "the stream is closed before, callbacks run in the order in which they were added",
    "pickle restores what it pickled; messages are small enough for the buffer of a connection (100 MiB)",
]
OUTSIDE = "more messages, connections, splits or events than stated; real sockets and threads; messages that cannot be pickled"
STUBS = [
    "tornado IOLoop: first-come-first-served event loop; IOStream: byte pipe split at symbolic positions, closing when the "
    "symbolic schedule says; tornado TCPClient.connect and TCPServer.listen: no sockets",
    "pickle and struct (symbolic execution only): messages are opaque runs of bytes of symbolic length, integers are packed to "
    "symbolic bytes; replays use the real ones",
]


def stream(E, n, cuts, hi=MAX_SIZE, race=True):
    """n messages of any size through a TCPStream, the bytes delivered in
    pieces of any size, then the connection closes"""
    from daisy.tcp import TCPStream, StreamClosedError

    net = Net(E)
    with net.patched():
        a, b = net.pair("a", "b")
        net.auto_flush = not race
        tx, rx = TCPStream(a, ("host", 1)), TCPStream(b, ("host", 2))
        msgs = [net.message("m%d" % i, "size%d" % i, hi=hi) for i in range(n)]
        todo = list(msgs)
        step = 0
        # sending: callbacks, completed writes and further sends in any order
        while todo or net.loop.ready or a.flushes:
            opts = []
            if net.loop.ready:
                opts.append("run")
            if todo:
                opts.append("send")
            if a.flushes and len(a.flushes) > 0:
                opts.append("flush")
            step += 1
            E.check(step < 12 * n + 12, "sending does not end")
            op = E.pick("op%d" % step, opts)
            if op == "send":
                tx.send_message(todo.pop(0))
            elif op == "run":
                net.loop.step()
            else:
                a.flushes.pop(0).set()
        E.check(not net.loop.failures, "sending failed")
        total = a.transit.size()
        ends = []
        # receiving
        got, errors = [], []

        async def receive():
            while True:
                try:
                    m = await rx._get_message()
                except StreamClosedError:
                    errors.append("closed")
                    return
                got.append(m)

        net.loop.add_callback(receive)
        if E.flag("early"):
            net.loop.run()
        seen = 0
        for i in range(cuts):
            k = E.int("piece%d" % i, 1, None, eager=(1, 3))
            E.assume(k <= a.transit.size()) if not a.transit.parts == () else E.done()
            seen = seen + k
            a.deliver(k)
            net.loop.run()
            E.check(not errors, "closed although the connection is open")
        if E.flag("all"):
            a.deliver()
            seen = total
            net.loop.run()
            E.check(len(got) == n, "%d of %d messages received" % (len(got), n))
            E.reach("all received")
        else:
            E.reach("closed early")
        lost = a.transit.size()
        who = E.pick("closes", ["peer", "self"])
        (b if who == "peer" else rx).close()
        net.loop.run()
        E.check(errors == ["closed"], "no error although the connection is closed")
        E.check(not net.loop.failures, "receiving failed: %r" % net.loop.failures)
        E.check(rx.closed(), "stream is not closed")
        E.check([net.key(m) for m in got] == [net.key(m) for m in msgs[: len(got)]], "messages arrive in another order")
        for m in got:
            E.check(m.stream is rx, "message of another stream")
            E.check(type(m) is type(msgs[0]), "another type of message")
            if isinstance(m.payload, tuple):
                i = [net.key(x) for x in msgs].index(net.key(m))
                E.check(m.payload == msgs[i].payload, "message was changed")
        if bool(lost == 0):
            E.check(len(got) == n, "message lost")
        if 0 < len(got) < n:
            E.reach("some received")
        # nothing comes after that
        again = []

        async def once():
            try:
                again.append(await rx._get_message())
            except StreamClosedError:
                again.append("closed")

        net.loop.add_callback(once)
        net.loop.run()
        E.check(again == ["closed"], "received from a closed connection")
        E.observe(len(got), who)


def world(E, nclients, steps, drain):
    """real clients and a real server exchanging messages"""
    from daisy.tcp import StreamClosedError, TCPClient, TCPServer
    from daisy.tcp.exceptions import NotConnected

    net = Net(E)
    clients = []
    with net.patched():
        try:
            server = net.server = TCPServer(host="localhost")
            E.check(server.address == ("localhost", 4711), "address of the server")
            for i in range(nclients):
                clients.append(TCPClient("localhost", 4711))
            net.pump()
            E.check(all(c.connected() for c in clients), "not connected")
            E.check(len(server.client_streams) == nclients, "streams of the server")
            sent = [[] for _ in clients]  # to the server
            back = [[] for _ in clients]  # to the clients
            at_server = [[] for _ in clients]
            at_client = [[] for _ in clients]
            streams = [None] * nclients
            state = ["open"] * nclients  # left: gracefully, dead, closed: by the server
            errors = [0] * nclients
            serr = [0] * nclients
            cnt = [0]

            def server_get():
                try:
                    m = server.get_message(timeout=0)
                except StreamClosedError as e:
                    i = e.args[1]
                    E.check(state[i] in ("dead", "closed"), "server reports a connection as closed that is open")
                    serr[i] += 1
                    return True
                if m is None:
                    return False
                i = m.stream.address[1]
                E.check(streams[i] in (None, m.stream), "one connection, two streams")
                streams[i] = m.stream
                at_server[i].append(net.key(m))
                E.check(at_server[i] == sent[i][: len(at_server[i])], "server received %s, sent %s" % (at_server[i], sent[i]))
                return True

            def client_get(i):
                c = clients[i]
                try:
                    m = c.get_message(timeout=0)
                except (StreamClosedError, NotConnected) as e:
                    E.check(state[i] != "open", "client reports an open connection as closed")
                    if isinstance(e, StreamClosedError):
                        errors[i] += 1
                    return False
                if m is None:
                    return False
                at_client[i].append(net.key(m))
                E.check(at_client[i] == back[i][: len(at_client[i])], "client received %s, sent %s" % (at_client[i], back[i]))
                return True

            for step in range(steps):
                opts = ["end"]
                for i, c in enumerate(clients):
                    if state[i] == "open":
                        opts += [("send", i), ("leave", i), ("die", i)]
                        if net.links[i][0].transit.parts:
                            opts.append(("part", i))
                        if streams[i] is not None:
                            opts.append(("reply", i))
                if "open" in state:
                    opts.append("disconnect")
                op = E.pick("op%d" % step, opts)
                if op == "end":
                    break
                if op == "disconnect":
                    server.disconnect()
                    for i in range(nclients):
                        if state[i] == "open":
                            state[i] = "closed"
                    net.pump()
                    E.reach("server disconnects")
                    continue
                op, i = op
                c = clients[i]
                a = net.links[i][0]
                if op == "send":
                    cnt[0] += 1
                    m = net.message("c%d.%d" % (i, cnt[0]), "size%d" % cnt[0])
                    c.send_message(m)
                    sent[i].append(net.key(m))
                    net.loop.run()
                elif op == "part":
                    # half of a message arrives
                    k = E.int("part%d" % step, 1, None, eager=(1, 2))
                    E.assume(k < a.transit.size())
                    a.deliver(k)
                    net.loop.run()
                    E.reach("part of a message")
                elif op == "reply":
                    cnt[0] += 1
                    m = net.message("s%d.%d" % (i, cnt[0]), "size%d" % cnt[0])
                    streams[i].send_message(m)
                    back[i].append(net.key(m))
                    net.loop.run()
                elif op == "leave":
                    c.disconnect()
                    net.pump()
                    state[i] = "left"
                    E.check(not c.connected(), "connected after disconnecting")
                    E.check(sum(1 for s in server.client_streams) == sum(1 for s in state if s == "open"), "streams of the server")
                    E.reach("client disconnects")
                else:
                    a.close()
                    state[i] = "dead"
                    # what is in transit may arrive or not
                    if a.transit.parts and E.flag("arrives%d" % step):
                        a.deliver()
                    a.transit = Rope()
                    a.peer.close()
                    net.loop.run()
                    E.reach("client dies")
                if E.pick("deliver%d" % step, [True, False]):
                    net.pump()
                if drain:
                    while server_get():
                        pass
                    for j in range(nclients):
                        while client_get(j):
                            pass
            net.pump()
            while server_get():
                pass
            for i in range(nclients):
                if state[i] == "open":
                    while client_get(i):
                        pass
                    E.check(at_server[i] == sent[i], "messages to the server are lost: %s of %s" % (at_server[i], sent[i]))
                    E.check(at_client[i] == back[i], "messages to the client are lost: %s of %s" % (at_client[i], back[i]))
                    E.check(clients[i].connected() and not serr[i], "connection is closed")
                elif state[i] == "left":
                    E.check(at_server[i] == sent[i], "messages sent before disconnecting are lost")
                    E.check(not serr[i], "graceful disconnect reported as error")
                else:
                    E.check(serr[i] == 1, "closed connection reported %d times to the server" % serr[i])
                    client_get(i)
                    if state[i] == "closed":
                        E.check(errors[i] == 1, "closed connection reported %d times to the client" % errors[i])
                        E.reach("client told")
                    n = len(at_client[i])
                    E.check(not client_get(i) and len(at_client[i]) == n, "received from a closed connection")
            E.check(len(server.client_streams) == state.count("open"), "streams of the server")
            E.check(not net.loop.failures, "exception in the event loop: %r" % net.loop.failures)
            E.observe(at_server, at_client, state)
            E.reach("end")
        finally:
            for c in clients:
                c.stream = None


def refused(E):
    from daisy.tcp import TCPClient

    net = Net(E)
    net.refuse = True
    with net.patched():
        try:
            c = TCPClient("localhost", 1)
        except ConnectionRefusedError:
            E.reach("refused")
            return
        c.stream = None
        E.fail("connected to nobody")


def cases(tier):
    q = tier == "quick"
    lab = ["all received", "closed early", "some received"]
    out = []
    for n, cuts, race in ((1, 3, True), (2, 2, False), (3, 0, True), (3, 2, False)) if q else (
            (1, 5, True), (2, 4, False), (2, 2, True), (4, 0, True), (3, 3, False), (4, 2, False)):
        out.append(Case("stream", n=n, cuts=cuts, race=race, hi=2**18, reach=["closed early"] + lab * (n > 1 and cuts > 0),
                        bounds=f"{n} message(s) of {MIN_SIZE} B to 256 KiB, bytes split at {cuts} arbitrary positions"))
        out.append(Case("stream", n=n, cuts=cuts, race=race, reach=["closed early"],
                        bounds=f"{n} message(s) of {MIN_SIZE} B to 100 MiB, bytes split at {cuts} arbitrary positions"))
    for nc, st in ((1, 4), (2, 3)) if q else ((1, 6), (2, 4), (3, 3)):
        for drain in (False, True):
            out.append(Case("world", nclients=nc, steps=st, drain=drain,
                            reach=["end", "server disconnects", "client disconnects", "client dies", "part of a message"],
                            bounds=f"{nc} client(s) and a server, every history of {st} events, messages of any size"))
    out.append(Case("refused", reach=["refused"], bounds="connecting to nobody"))
    return out
