"""
symx.net -- stand-ins for sockets and transports; nothing leaves the process.
The library above them (asyncio.Server, StreamReader, StreamWriter,
protocols) is the real one.
"""
import asyncio
import socket

from . import core
from . import sim as _simmod

Real = socket.socket        # the patched class, for isinstance


class FakeSocket(socket.socket):
    """records what is done to a listening or datagram socket"""

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        # the real one is never initialised: no descriptor exists
        self.sx_family = socket.AF_INET if family == -1 else family
        self.sx_type = socket.SOCK_STREAM if type == -1 else type
        self.options = []
        self.sx_blocking = True
        self.bound = None
        self.listening = False
        self.closed = False
        net = _simmod.SIM.net
        if net is not None:
            net.sockets.append(self)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    family = property(lambda self: self.sx_family)
    type = property(lambda self: self.sx_type)
    proto = property(lambda self: 0)
    timeout = property(lambda self: None if self.sx_blocking else 0.0)

    def __repr__(self):
        return "<FakeSocket %r>" % (self.bound,)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def fileno(self):
        return -1 if self.closed else 100

    def setblocking(self, flag):
        self.sx_blocking = bool(flag)

    def getblocking(self):
        return self.sx_blocking

    def settimeout(self, value):
        self.sx_blocking = value is None or value > 0

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, level, option, *value):
        self.options.append((level, option) + value)

    def getsockopt(self, level, option, *args):
        for o in reversed(self.options):
            if o[:2] == (level, option):
                return o[2]
        return 0

    def bind(self, address):
        net = _simmod.SIM.net
        if net is not None and net.bind_hook is not None:
            net.bind_hook(self, address)
        if isinstance(address, tuple):
            host, port = address[:2]
            if port == 0:
                port = 40000 + len(net.sockets if net else ())
            address = (host, port)
            if self.sx_family == socket.AF_INET6:
                address += (0, 0)
        self.bound = address

    def listen(self, backlog=0):
        self.listening = True

    def set_inheritable(self, flag):
        pass

    def getsockname(self):
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        return self.bound or ("0.0.0.0", 0)

    def getpeername(self):
        raise OSError(107, "not connected")

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def detach(self):
        self.closed = True
        return -1


class Transport(asyncio.Transport):
    """one end of a stream; what is written goes to ``peer``"""

    def __init__(self, loop, protocol, server=None, extra=None,
                 half_close=True):
        super().__init__(extra or {})
        self.loop = loop
        self.protocol = protocol
        self.server = server
        self.half_close = half_close
        self.closed = False
        self.lost = False
        self.wrote_eof = False
        self.reading = True
        self.peer = None
        self._inbox = []
        self._conn_lost_exc = None
        if server is not None:
            server._attach()

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def get_protocol(self):
        return self.protocol

    def set_protocol(self, protocol):
        self.protocol = protocol

    # writing
    def write(self, data):
        if self.wrote_eof:
            raise RuntimeError("Cannot call write() after write_eof()")
        if self.lost or self.closed:
            return
        if data and self.peer is not None:
            self.peer.on_data(bytes(data))

    def writelines(self, data):
        self.write(b"".join(data))

    def can_write_eof(self):
        return self.half_close

    def write_eof(self):
        if not self.half_close:
            raise NotImplementedError
        if self.wrote_eof or self.closed:
            return
        self.wrote_eof = True
        if self.peer is not None:
            self.peer.on_eof()

    def get_write_buffer_size(self):
        return 0

    def get_write_buffer_limits(self):
        return 0, 65536

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    # reading
    def is_reading(self):
        return self.reading and not self.closed

    def pause_reading(self):
        self.reading = False

    def resume_reading(self):
        self.reading = True
        inbox, self._inbox = self._inbox, []
        for f in inbox:
            self.loop.call_soon(f)

    def _in(self, f):
        if self.closed or self.lost:
            return
        if not self.reading:
            self._inbox.append(f)
        else:
            f()

    def feed(self, data):
        self._in(lambda: self.protocol.data_received(data))

    def feed_eof(self):
        def f():
            if not self.protocol.eof_received():
                self.close()
        self._in(f)

    def reset(self, exc=None):
        """the peer is gone"""
        self._lose(exc or ConnectionResetError(104, "reset by peer"))

    # the end
    def is_closing(self):
        return self.closed

    def close(self):
        self._lose(None)

    def abort(self):
        self._lose(None)

    def _lose(self, exc):
        if self.closed:
            return
        self.closed = True
        self.loop.call_soon(self._call_lost, exc)

    def _call_lost(self, exc):
        if self.lost:
            return
        self.lost = True
        self.protocol.connection_lost(exc)
        if self.server is not None:
            self.server._detach()
            self.server = None
        if self.peer is not None:
            self.peer.on_close()


class Peer:
    """the other end, driven by the harness"""

    def __init__(self, transport):
        self.transport = transport
        transport.peer = self
        self.data = b""
        self.eof = False
        self.closed = False
        self._wake = None

    def _notify(self):
        if self._wake is not None and not self._wake.done():
            self._wake.set_result(None)

    def on_data(self, data):
        self.data += data
        self._notify()

    def on_eof(self):
        self.eof = True
        self._notify()

    def on_close(self):
        self.eof = True
        self.closed = True
        self._notify()

    async def wait(self):
        """something changed"""
        self._wake = asyncio.get_running_loop().create_future()
        await self._wake

    async def read(self, n):
        while len(self.data) < n and not self.eof:
            await self.wait()
        if len(self.data) < n:
            raise EOFError("%d of %d bytes" % (len(self.data), n))
        out, self.data = self.data[:n], self.data[n:]
        return out

    async def read_all(self):
        while not self.eof:
            await self.wait()
        out, self.data = self.data, b""
        return out

    def write(self, data):
        self.transport.feed(data)

    def write_eof(self):
        self.transport.feed_eof()

    def close(self):
        """both directions"""
        self.transport.feed_eof()

    def reset(self, exc=None):
        self.transport.reset(exc)


class DatagramTransport(asyncio.DatagramTransport):
    def __init__(self, loop, sock, protocol):
        super().__init__({"sockname": sock.getsockname(), "socket": sock})
        self.loop = loop
        self.sock = sock
        self.protocol = protocol
        self.closed = False
        self.sent = []
        self.on_send = None

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def sendto(self, data, addr=None):
        if self.closed:
            return
        self.sent.append((bytes(data), addr))
        if self.on_send is not None:
            self.on_send(bytes(data), addr)

    def feed(self, data, addr):
        if not self.closed:
            self.protocol.datagram_received(data, addr)

    def is_closing(self):
        return self.closed

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.sock.close()
        self.loop.call_soon(self.protocol.connection_lost, None)

    abort = close


class Refused(ConnectionRefusedError):
    pass


class Network:
    """of one path; ``attach()`` makes it the network of the simulation"""

    def __init__(self):
        self.listening = []     # (sock, factory, ssl, server, loop)
        self.sockets = []
        self.datagrams = []
        self.transports = []
        self.bind_hook = None
        self.connect_hook = None
        self.attempts = 0

    @classmethod
    def attach(cls):
        net = cls()
        _simmod.SIM.net = net
        _simmod.SIM.os["socket"] = FakeSocket
        return net

    def start_serving(self, loop, factory, sock, ssl, server):
        self.listening.append((sock, factory, ssl, server, loop))

    def stop_serving(self, sock):
        self.listening = [x for x in self.listening if x[0] is not sock]

    def connect(self, sock=None, half_close=True, extra=None):
        """a client connects to the server listening on ``sock``"""
        for s, factory, ssl, server, loop in self.listening:
            if sock is None or s is sock:
                break
        else:
            raise Refused(111, "nobody listens")
        info = {"sockname": s.getsockname(), "peername": ("127.0.0.1", 5),
                "sslcontext": ssl}
        info.update(extra or {})
        protocol = factory()
        t = Transport(loop, protocol, server, info,
                      half_close and ssl is None)
        self.transports.append(t)
        peer = Peer(t)
        loop.call_soon(protocol.connection_made, t)
        return peer

    async def create_connection(self, loop, factory, host, port, **kw):
        """``connect_hook(host, port, **kw)`` is a coroutine function
        returning when connected or raising"""
        self.attempts += 1
        if self.connect_hook is None:
            raise Refused(111, "nobody listens")
        on_peer = await self.connect_hook(host, port, **kw)
        protocol = factory()
        t = Transport(loop, protocol, None, {
            "peername": (host, port), "sslcontext": kw.get("ssl")},
            kw.get("ssl") is None)
        self.transports.append(t)
        peer = Peer(t)
        protocol.connection_made(t)
        if on_peer is not None:
            on_peer(peer)
        return t, protocol

    def datagram_transport(self, loop, sock, protocol, address, waiter):
        t = DatagramTransport(loop, sock, protocol)
        self.datagrams.append(t)
        loop.call_soon(protocol.connection_made, t)
        if waiter is not None:
            loop.call_soon(
                lambda: waiter.done() or waiter.set_result(None))
        return t
