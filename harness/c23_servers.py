"""
C23 -- TCPServer, TLSServer and UDPServer on simulated sockets.  The instants
of arrivals, of the stop, the durations of handlers and of their cleanup are
symbolic; what handlers do (return, echo, raise, work, wait for the client,
clean up) and the options are solver-chosen.
"""
import asyncio
import pathlib
import socket

from symx.api import *
from symx.net import FakeSocket, Network, Refused

import aiomisc
from aiomisc import ThreadPoolExecutor
from aiomisc.service import TCPServer, TLSServer, UDPServer
from aiomisc.utils import bind_socket

BOUNDS = {
    "quick": "3 clients with any arrival times and "
             "durations, any instant of the stop, 7 kinds of handlers; any "
             "port, both reuse flags, 6 addresses, 5 lists of options",
    "thorough": "4 clients with 3 arrival times",
}
ASSUMPTIONS = ["asyncio's start_server and datagram endpoints deliver what "
               "the sockets do"]
OUTSIDE = ["clients which do not read what was written to them when the "
           "server stops"]

CERTS = pathlib.Path(__file__).parent / "certs"
KINDS = ["return", "echo", "raise", "work", "forever", "cleanup", "swallow"]


class Client:
    def __init__(self, i):
        self.i = i
        self.message = b"message of %d\n" % i
        self.calls = 0
        self.began = self.ended = self.cancelled = False
        self.after = False      # came after stop() was called
        self.peer = None
        self.refused = False


class World:
    def __init__(self, kinds, d, c):
        self.clients = []
        self.kinds = kinds
        self.d = d
        self.c = c
        self.phase = "running"
        self.reasons = False

    def client(self, data):
        for x in self.clients:
            if x.message == data:
                return x
        fail("that-peer's-data", repr(data))

    def begin(self, x):
        x.calls += 1
        check(x.calls == 1, "handled-exactly-once")
        check(self.phase != "stopped", "no-handler-after-the-stop")
        check(not x.after, "no-handler-for-late-clients")
        x.began = True

    async def behave(self, x, echo):
        kind = self.kinds[x.i % len(self.kinds)]
        try:
            if kind == "return":
                return
            if kind == "raise":
                raise ValueError("handler of %d" % x.i)
            if kind == "work":
                await asyncio.sleep(self.d)
            if kind in ("work", "echo"):
                echo()
                return
            await asyncio.get_running_loop().create_future()
        except asyncio.CancelledError:
            check(self.phase == "stopping", "cancelled-only-by-the-stop",
                  self.phase)
            x.cancelled = True
            if kind in ("cleanup", "swallow"):
                await asyncio.sleep(self.c)
            if kind != "swallow":
                raise
        finally:
            check(self.phase != "stopped", "handlers-end-before-the-stop")
            x.ended = True

    async def stop(self, svc):
        self.phase = "stopping"
        running = [x for x in self.clients if x.began and not x.ended]
        t0 = now()
        await svc.stop(*pick("reason", [(), (None,), (Err("stop"),)]
                             if self.reasons else [()]))
        self.phase = "stopped"
        took = now() - t0
        for x in self.clients:
            check(not x.began or x.ended, "stop-ends-every-handler",
                  self.kinds[x.i % len(self.kinds)])
        for x in running:
            check(x.cancelled, "stop-cancels-running-handlers")
        slow = [x for x in running
                if self.kinds[x.i % len(self.kinds)] in
                ("cleanup", "swallow")]
        if slow:
            cover("cleanup")
            check(took == self.c, "stop-waits-for-cleanup-only", str(took))
        else:
            check(took == 0, "stop-does-not-wait-for-clients", str(took))
        if running:
            cover("running-at-stop")


def make_tcp(world, kind, sync, net):
    base = TCPServer if kind == "tcp" else TLSServer
    kw = {} if kind == "tcp" else dict(
        cert=CERTS / "server.pem", key=CERTS / "server.key")

    async def handle(self, reader, writer):
        line = await reader.readline()
        x = world.client(line)
        world.begin(x)

        def echo():
            writer.write(b"echo " + line)
        await world.behave(x, echo)
        if world.kinds[x.i % len(world.kinds)] == "echo":
            writer.close()

    def handle_sync(self, reader, writer):
        # the data is there already
        line = bytes(reader._buffer)
        x = world.client(line)
        world.begin(x)
        x.ended = True
        if world.kinds[x.i % len(world.kinds)] == "raise":
            raise ValueError("handler")
        writer.write(b"echo " + line)
        writer.close()

    class S(base):
        handle_client = handle_sync if sync else handle
    return S(address="127.0.0.1", port=4000, **kw)


def tcp(kind, kinds, n, times, sync=False, first=False):
    """clients come, the server is stopped, clients still come"""
    if kind == "tls":
        threads(free_choice=False)
    world = World(kinds, sym_real("d", 0), sym_real("c", 0, strict=True))
    at = [sym_real("a%d" % i, 0) for i in range(times)]
    at += at[:1] * (n - times)
    T = sym_real("stop", 0)

    async def main():
        net = Network.attach()
        if kind == "tls":
            asyncio.get_running_loop().set_default_executor(
                ThreadPoolExecutor(1))
        svc = make_tcp(world, kind, sync, net)
        svc.set_loop(asyncio.get_running_loop())
        check(svc.address is None and svc.port is None, "address-and-port")
        await svc.start()
        (sock, _, ssl, _, _), = net.listening
        check((svc.address, svc.port) == ("127.0.0.1", 4000),
              "address-and-port", repr((svc.address, svc.port)))
        check((ssl is not None) == (kind == "tls"), "uses-tls")
        t0 = now()

        async def client(i):
            x = Client(i)
            world.clients.append(x)
            await asyncio.sleep(at[i])
            x.at = now() - t0
            x.after = world.phase != "running"
            try:
                x.peer = net.connect(sock)
            except Refused:
                x.refused = True
                check(world.phase != "running", "accepts-until-stopped")
                cover("late")
                return
            x.peer.write(x.message)
            check(world.phase != "stopped", "accepts-nobody-then")

        tasks = [asyncio.ensure_future(client(i)) for i in range(n)]
        if first:
            # then clients come first when both are at the same time
            await asyncio.sleep(0)
        await asyncio.sleep(T)
        await world.stop(svc)
        check(sock.closed, "listening-socket-is-closed")
        check(not net.listening, "accepts-nobody-then")
        await asyncio.gather(*tasks)
        await asyncio.sleep(1000)
        for x in world.clients:
            k = kinds[x.i % len(kinds)]
            if not x.calls:
                check(x.at >= T, "every-client-is-handled", k)
            elif x.began and not x.cancelled and \
                    k in ("work", "echo"):
                check(x.peer.data == b"echo " + x.message,
                      "handler-talks-to-its-client", repr(x.peer.data))
                cover("answered")
        cover("stopped")
    return run(main())


def idle(n):
    """clients which keep their connections when the handler has ended"""
    world = World(["return", "work", "raise"], 1, 1)
    T = sym_real("stop", 0)

    async def main():
        net = Network.attach()
        world.reasons = True
        svc = make_tcp(world, "tcp", False, net)
        svc.set_loop(asyncio.get_running_loop())
        await svc.start()
        quiet = [net.connect() for _ in range(choose("quiet", 2))]
        for i in range(n):
            x = Client(i)
            world.clients.append(x)
            x.peer = net.connect()
            x.peer.write(x.message)
            x.at = 0
            if choose("gone%d" % i, 2):
                await settle()
                x.peer.close()
        await asyncio.sleep(T)
        await world.stop(svc)
        cover("stopped")
        del quiet
    return run(main())


def udp(kinds, n, times, sync=False, first=False):
    """the same with datagrams"""
    world = World(kinds, sym_real("d", 0), sym_real("c", 0, strict=True))
    at = [sym_real("a%d" % i, 0) for i in range(times)]
    at += at[:1] * (n - times)
    T = sym_real("stop", 0)

    async def main():
        net = Network.attach()

        async def handle(self, data, addr):
            x = world.client(data)
            check(addr == ("192.0.2.1", 1000 + x.i), "that-peer's-data",
                  repr(addr))
            world.begin(x)
            await world.behave(
                x, lambda: self.sendto(b"echo " + data, addr))

        def handle_sync(self, data, addr):
            x = world.client(data)
            check(addr == ("192.0.2.1", 1000 + x.i), "that-peer's-data",
                  repr(addr))
            world.begin(x)
            x.ended = True
            if kinds[x.i % len(kinds)] == "raise":
                raise ValueError("handler")
            self.sendto(b"echo " + data, addr)

        class S(UDPServer):
            handle_datagram = handle_sync if sync else handle
        svc = S(address="127.0.0.1", port=4000)
        svc.set_loop(asyncio.get_running_loop())
        check(svc.address is None and svc.port is None, "address-and-port")
        await svc.start()
        (t,) = net.datagrams
        check((svc.address, svc.port) == ("127.0.0.1", 4000),
              "address-and-port", repr((svc.address, svc.port)))
        await settle(3)
        t0 = now()

        async def client(i):
            x = Client(i)
            world.clients.append(x)
            await asyncio.sleep(at[i])
            x.at = now() - t0
            x.after = world.phase != "running"
            check(world.phase != "stopped" or t.closed,
                  "accepts-nobody-then")
            if x.after:
                cover("late")
            if not t.closed:
                # as the event loop does
                asyncio.get_running_loop().call_soon(
                    t.feed, x.message, ("192.0.2.1", 1000 + i))
            else:
                check(world.phase != "running", "accepts-until-stopped")

        tasks = [asyncio.ensure_future(client(i)) for i in range(n)]
        if first:
            # then clients come first when both are at the same time
            await asyncio.sleep(0)
        await asyncio.sleep(T)
        await world.stop(svc)
        check(t.closed and t.sock.closed, "listening-socket-is-closed")
        await asyncio.gather(*tasks)
        await asyncio.sleep(1000)
        for x in world.clients:
            k = kinds[x.i % len(kinds)]
            if not x.calls:
                check(x.at >= T, "every-client-is-handled", k)
            elif not x.cancelled and (
                    k in ("work", "echo") or sync and k != "raise"):
                check((b"echo " + x.message, ("192.0.2.1", 1000 + x.i)) in
                      t.sent, "handler-talks-to-its-client", repr(t.sent))
                cover("answered")
        cover("stopped")
    return run(main())


def datagrams(n):
    """any contents, several from one peer, any reason of the stop"""
    contents = [b"", b"x", b"\0" * 3, b"x" * 512, b"y" * 65507]
    sent = [(pick("data%d" % i, contents),
             ("192.0.2.%d" % choose("peer%d" % i, 2), 1000))
            for i in range(n)]
    got = []

    async def main():
        net = Network.attach()

        class S(UDPServer):
            async def handle_datagram(self, data, addr):
                got.append((data, addr))
                check(type(data) is bytes, "that-peer's-data")
                self.sendto(data, addr)
        svc = S(address="127.0.0.1", port=4000)
        svc.set_loop(asyncio.get_running_loop())
        await svc.start()
        (t,) = net.datagrams
        for d, a in sent:
            t.feed(d, a)
            if choose("at_once", 2):
                await settle(3)
        await settle(5)
        check(got == sent, "handled-exactly-once")
        check(t.sent == sent, "handler-talks-to-its-client")
        await svc.stop(*pick("reason", [(), (None,), (Err("stop"),)]))
        check(t.closed and t.sock.closed, "listening-socket-is-closed")
        cover("stopped")
    return run(main())


# -------------------------------------------------------------- the sockets
REUSEADDR = (socket.SOL_SOCKET, socket.SO_REUSEADDR)
REUSEPORT = (socket.SOL_SOCKET, socket.SO_REUSEPORT)
V6ONLY = (socket.IPPROTO_IPV6, socket.IPV6_V6ONLY)
OPTIONS = [
    (), ((socket.SOL_SOCKET, socket.SO_RCVBUF, 4096),),
    [(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096),
     (socket.SOL_SOCKET, socket.SO_KEEPALIVE, 1)],
    (V6ONLY + (1,),), (REUSEADDR + (0,), REUSEPORT + (0,)),
]


def bound_socket(sock, at_bind, family, type, address, port, options,
                 reuse_addr=True, reuse_port=True, detected=True):
    check(isinstance(sock, FakeSocket), "is-a-socket")
    check(sock.family == family and sock.type == type, "family-and-type",
          "%r %r" % (sock.family, sock.type))
    check(sock.getblocking() is False, "is-non-blocking")
    check(len(at_bind) == 1, "is-bound-once")
    (opts, where), = at_bind
    check(where[:2] == (address, port) if family != socket.AF_UNIX
          else where == address, "address-and-port", repr(where))
    values = {}
    for o in opts:
        values[o[:2]] = o[2]
    asked = {tuple(o[:2]): o[2] for o in options}
    for k, v in asked.items():
        check(values.get(k) == v, "requested-options",
              "%r: %r" % (k, values.get(k)))
    for k, flag in ((REUSEADDR, reuse_addr), (REUSEPORT, reuse_port)):
        if k not in asked:
            check(flag if values.get(k) else Not(flag), "reuse-flags",
                  repr(k))
    if detected and family == socket.AF_INET6 and V6ONLY not in asked:
        check(values.get(V6ONLY) == 0, "dual-stack")
    check(sock.options == opts, "options-before-bind")
    extra = {o[:2] for o in opts} - set(asked) - {
        REUSEADDR, REUSEPORT, V6ONLY,
        (socket.IPPROTO_TCP, socket.TCP_NODELAY)}
    check(not extra, "only-requested-options", repr(extra))


def watch(net):
    at_bind = []
    net.bind_hook = lambda s, a: at_bind.append((list(s.options), a))
    return at_bind


def binding():
    """bind_socket with every combination of its parameters"""
    net = Network.attach()
    at_bind = watch(net)
    address = pick("address", ["127.0.0.1", "0.0.0.0", "localhost", "::1",
                               "::", "fe80::1"])
    port = sym_int("port", 0, 65535)
    options = pick("options", OPTIONS)
    ra, rp = sym_bool("reuse_addr"), sym_bool("reuse_port")
    args = pick("args", [(), "tcp", "udp", "unix"])
    family = socket.AF_INET6 if ":" in address else socket.AF_INET
    type_ = socket.SOCK_STREAM
    if args == "udp":
        type_ = socket.SOCK_DGRAM
    if args == "unix":
        family, address = socket.AF_UNIX, "/nowhere/%s" % address
    sock = bind_socket(*(() if not args else (family, type_)),
                       address=address, port=port, options=options,
                       reuse_addr=ra, reuse_port=rp)
    bound_socket(sock, at_bind, family, type_, address, port, options,
                 ra, rp, not args)
    cover("bound")


def service(kind):
    """what a service is given or refuses"""
    if kind == "tls":
        threads(free_choice=False)
    cls = {"tcp": TCPServer, "udp": UDPServer, "tls": TLSServer}[kind]
    address = pick("address", [None, "127.0.0.1", "::1"])
    port = pick("port", [None, 0, 4000])
    options = pick("options", OPTIONS)
    given = pick("sock", [None, "socket", "text", "object"])

    async def main():
        net = Network.attach()
        at_bind = watch(net)

        class S(cls):
            async def handle_client(self, reader, writer):
                pass
            handle_datagram = handle_client
        kw = dict(address=address, port=port, options=options)
        if kind == "tls":
            asyncio.get_running_loop().set_default_executor(
                ThreadPoolExecutor(1))
            kw.update(cert=CERTS / "server.pem", key=CERTS / "server.key")
        mine = None
        if given == "socket":
            mine = FakeSocket(socket.AF_INET, socket.SOCK_STREAM
                              if kind != "udp" else socket.SOCK_DGRAM)
            mine.bind(("192.0.2.3", 7))
            mine.setblocking(False)
            del at_bind[:]
        if given:
            kw["sock"] = {"socket": mine, "text": "127.0.0.1:80",
                          "object": object()}[given]
        bad = given in ("text", "object") or (
            not given and (address is None or port is None))
        try:
            svc = S(**kw)
        except (ValueError, RuntimeError) as e:
            check(bad, "good-parameters-are-accepted", repr(e))
            cover("refused")
            return
        check(not bad, "bad-parameters-are-refused")
        svc.set_loop(asyncio.get_running_loop())
        await svc.start()
        if kind == "udp":
            sock = net.datagrams[0].sock
        else:
            sock = net.listening[0][0]
        if mine is not None:
            check(sock is mine and not at_bind and not mine.options,
                  "uses-the-given-socket")
            check((svc.address, svc.port) == ("192.0.2.3", 7),
                  "address-and-port")
        else:
            bound_socket(
                sock, at_bind,
                socket.AF_INET6 if ":" in address else socket.AF_INET,
                socket.SOCK_DGRAM if kind == "udp" else socket.SOCK_STREAM,
                address, port, options, detected=kind != "udp")
            check(svc.address == address and svc.port == (
                port or sock.bound[1]), "address-and-port")
        await svc.stop()
        check(sock.closed, "listening-socket-is-closed")
        cover("served")
    return run(main())


def scenarios(tier):
    t = tier == "thorough"
    out = []
    for i, a in enumerate(KINDS):
        for b in KINDS[i:]:
            n, times = (4, 3) if t else (3, 3)
            for name, f, kw in (("tcp", tcp, dict(kind="tcp")),
                                ("udp", udp, {})):
                cv = ["stopped", "late"]
                if a in ("work", "echo") or b in ("work", "echo"):
                    cv.append("answered")
                if {a, b} - {"return", "echo", "raise"}:
                    cv.append("running-at-stop")
                if {a, b} & {"cleanup", "swallow"}:
                    cv.append("cleanup")
                out.append(Scenario(
                    "%s-%s-%s" % (name, a, b), f,
                    dict(kinds=[a, b], n=n, times=times, **kw), covers=cv))
    for a in KINDS:
        out.append(Scenario("tie-tcp-%s" % a, tcp, dict(
            kind="tcp", kinds=[a, "forever"], n=2, times=2, first=True),
            covers=["stopped", "late"]))
        out.append(Scenario("tie-udp-%s" % a, udp, dict(
            kinds=[a, "forever"], n=2, times=2, first=True),
            covers=["stopped", "late"]))
        out.append(Scenario("tie-tls-%s" % a, tcp, dict(
            kind="tls", kinds=[a, "forever"], n=2, times=2, first=True),
            covers=["stopped", "late"]))
        out.append(Scenario("tls-%s" % a, tcp, dict(
            kind="tls", kinds=[a, "work"], n=2, times=1),
            covers=["stopped", "late", "answered"]))
    out += [
        Scenario("tcp-three", tcp, dict(
            kind="tcp", kinds=["raise", "cleanup", "work"], n=3, times=1),
            covers=["stopped"]),
        Scenario("udp-three", udp, dict(
            kinds=["raise", "cleanup", "work"], n=3, times=1),
            covers=["stopped"]),
        Scenario("tcp-sync", tcp, dict(
            kind="tcp", kinds=["raise", "return"], n=2, times=2, sync=True),
            covers=["stopped", "late"]),
        Scenario("udp-sync", udp, dict(
            kinds=["raise", "return"], n=2, times=2, sync=True),
            covers=["stopped", "late", "answered"]),
        Scenario("idle", idle, dict(n=3), covers=["stopped"]),
        Scenario("datagrams", datagrams, dict(n=3 if t else 2),
                 covers=["stopped"]),
        Scenario("binding", binding, {}, covers=["bound"]),
        Scenario("service-tcp", service, dict(kind="tcp"),
                 covers=["served", "refused"]),
        Scenario("service-udp", service, dict(kind="udp"),
                 covers=["served", "refused"]),
        Scenario("service-tls", service, dict(kind="tls"),
                 covers=["served", "refused"]),
    ]
    return out
