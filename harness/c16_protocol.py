import asyncio

from symx.api import *

from aiomisc_worker.protocol import (
    AsyncProtocol, FileIOProtocol, SocketIOProtocol,
)

BOUNDS = {
    "quick": "1-3 messages of 5 kinds (also of 300 bytes and of 64 KiB "
             "to 1 MiB); the byte "
             "stream is split at every pair of places on its way in and "
             "out, and cut at every place",
    "thorough": "as quick with every triple of places",
}
ASSUMPTIONS = ["files are buffered ones: what is written to them is "
               "accepted as a whole; pickle restores what it stored"]
OUTSIDE = ["a receive which was cancelled in the middle of a message",
           "messages of 4 GiB and more"]

KINDS = [
    None, 7, b"a\x00", ("t", [1.5]), "\xe9",
]
BATCHES = [(0, 1, 2), (3, 0), (2, 4, 1), (4,)]
LOST = (ConnectionError, EOFError)


class Stream:
    """the bytes under way; cut after ``limit`` bytes"""

    def __init__(self):
        self.data = b""
        self.limit = None

    def end(self):
        return len(self.data) if self.limit is None else self.limit


class Splits:
    """where the transport stops although more was possible"""

    def __init__(self, name, n, total, places=None):
        places = list(range(1, total)) if places is None else places
        self.at = []
        lo = 0
        for i in range(n):
            # index len(places): no (further) split
            k = lo + choose("%s%d" % (name, i), len(places) + 1 - lo)
            if k == len(places):
                break
            self.at.append(places[k])
            lo = k

    def cut(self, pos, size):
        for at in self.at:
            if pos < at < pos + size:
                return at - pos
        return size


class End:
    """one end of a blocking transport"""

    def __init__(self, stream, send_splits=None, recv_splits=None):
        self.stream = stream
        self.send_splits = send_splits
        self.recv_splits = recv_splits
        self.pos = 0
        self.at_end = 0

    # writing
    def _put(self, data):
        self.stream.data += bytes(data)

    def send(self, data, flags=0):
        n = len(data)
        if self.send_splits is not None:
            n = self.send_splits.cut(len(self.stream.data), n)
        self._put(data[:n])
        return n

    def sendall(self, data, flags=0):
        self._put(data)

    def write(self, data):
        self._put(data)
        return len(data)

    def flush(self):
        pass

    # reading
    def recv(self, size, flags=0):
        left = self.stream.end() - self.pos
        n = min(size, left)
        if self.recv_splits is not None:
            n = self.recv_splits.cut(self.pos, n)
        if n <= 0 and size:
            self.at_end += 1
            check(self.at_end < 20, "end-of-stream-ends-the-receiver")
        out = self.stream.data[self.pos:self.pos + n]
        self.pos += n
        return out

    def recv_into(self, buf, nbytes=0, flags=0):
        chunk = self.recv(nbytes or len(buf))
        buf[:len(chunk)] = chunk
        return len(chunk)

    readinto = recv_into

    def read(self, size=-1):
        if size < 0:
            size = self.stream.end() - self.pos
        return self.recv(size)


def same(a, b):
    return type(a) is type(b) and a == b


def batch(batches=BATCHES):
    return [KINDS[i] for i in pick("batch", batches)]


def wire(cls, objs):
    """the bytes a sender makes of the objects when nothing is split"""
    stream = Stream()
    proto = cls(End(stream))
    for o in objs:
        proto.send(o)
    return stream.data


def read_all(proto, objs, whole):
    """receive ``whole`` objects and then the end"""
    for o in objs[:whole]:
        try:
            got = proto.receive()
        except Exception as e:
            fail("whole-messages-are-received", repr(e))
        check(same(got, o), "same-objects-in-order", repr(got))
    try:
        got = proto.receive()
    except LOST:
        cover("end-of-stream-reported")
    except Exception as e:
        fail("end-of-stream-is-a-connection-error", repr(e))
    else:
        fail("nothing-but-whole-messages", repr(got))


def blocking(cls, sends=0, recvs=0, cut=False):
    objs = batch()
    ref = wire(cls, objs)
    ends = []
    for i in range(len(objs)):
        ends.append(len(wire(cls, objs[:i + 1])))
    total = len(ref)
    stream = Stream()
    out = cls(End(stream, send_splits=Splits("out", sends, total)))
    for o in objs:
        out.send(o)
    if cut:
        stream.limit = choose("cut", total + 1)
    inn = cls(End(stream, recv_splits=Splits("in", recvs, total)))
    if sends:
        cover("sent-in-pieces")
    limit = stream.end()
    whole = sum(1 for e in ends if e <= limit)
    if cut and whole < len(objs):
        cover("cut")
    if not cut:
        whole = len(objs)
    read_all(inn, objs, whole)


def big(cls):
    """a message whose size needs more than one byte"""
    objs = [b"x" * 300, 5]
    ref = wire(cls, objs)
    total = len(ref)
    places = [1, 2, 3, 4, 5, 255, 256, 257, 260, total - 10, total - 9,
              total - 8, total - 1]
    stream = Stream()
    out = cls(End(stream, send_splits=Splits("out", 1, total, places)))
    for o in objs:
        out.send(o)
    inn = cls(End(stream, recv_splits=Splits("in", 2, total, places)))
    read_all(inn, objs, 2)
    cover("big")


SIZES = [65535, 65536, 70001, 262145, 1 << 20]


def large_objects(size):
    # positions can be told apart
    body = b"".join(i.to_bytes(4, "big") for i in range(size // 4 + 1))
    return [body[:size], 5]


def large_places(total):
    return [at for at in (4, 65536, 65540, 131072, total - 20)
            if at < total]


def large(cls, sizes=SIZES):
    """messages larger than the usual buffers"""
    objs = large_objects(pick("size", sizes))
    total = len(wire(cls, objs))
    places = large_places(total)
    stream = Stream()
    out = cls(End(stream))
    for o in objs:
        out.send(o)
    check(len(stream.data) == total, "same-objects-in-order")
    inn = cls(End(stream, recv_splits=Splits("in", 2, total, places)))
    read_all(inn, objs, 2)
    cover("large")


def async_large(sizes=SIZES):
    """a large message each way"""
    async def main():
        objs = large_objects(pick("size", sizes))
        proto, reader, transport, sp = async_end()
        for o in objs:
            await proto.send(o)
        data = transport.stream.data
        read_all(SocketIOProtocol(End(transport.stream)), objs, 2)
        splits = Splits("in", 2, len(data), large_places(len(data)))

        async def feed():
            pos = 0
            while pos < len(data):
                n = splits.cut(pos, len(data) - pos)
                sp.data_received(data[pos:pos + n])
                pos += n
                await asyncio.sleep(1)
            sp.eof_received()
        feeder = asyncio.ensure_future(feed())
        for o in objs:
            k, v = await outcome(proto.receive())
            check(k == "ok", "whole-messages-are-received", repr(v))
            check(same(v, o), "same-objects-in-order")
        await feeder
        k, v = await outcome(proto.receive())
        check(k == "exc" and isinstance(v, LOST),
              "end-of-stream-is-a-connection-error")
        cover("large")
    run(main())


# ---- asynchronous streams ---------------------------------------------------
class Transport(asyncio.Transport):
    """a recording stand-in for a stream transport"""

    def __init__(self, half_close=True, stream=None):
        super().__init__()
        self.stream = stream or Stream()
        self.half_close = half_close
        self.ended = False
        self.closed = False
        self.on_end = []
        self.protocol = None

    def write(self, data):
        check(not self.ended, "written-after-the-end")
        self.stream.data += bytes(data)

    def writelines(self, list_of_data):
        self.write(b"".join(list_of_data))

    def can_write_eof(self):
        return self.half_close

    def _end(self):
        if self.ended:
            return
        self.ended = True
        for f in self.on_end:
            f()

    def write_eof(self):
        if not self.half_close:
            raise NotImplementedError
        self._end()

    def is_closing(self):
        return self.closed

    def close(self):
        if self.closed:
            return
        self.closed = True
        self._end()
        if self.protocol is not None:
            asyncio.get_running_loop().call_soon(
                self.protocol.connection_lost, None)

    abort = close

    def get_extra_info(self, name, default=None):
        return default

    def get_write_buffer_size(self):
        return 0


def async_end(half_close=True):
    """AsyncProtocol over a stand-in transport"""
    loop = asyncio.get_running_loop()
    reader = asyncio.StreamReader(loop=loop)
    sp = asyncio.StreamReaderProtocol(reader, loop=loop)
    transport = Transport(half_close)
    transport.protocol = sp
    sp.connection_made(transport)
    writer = asyncio.StreamWriter(transport, sp, reader, loop)
    return AsyncProtocol(reader, writer), reader, transport, sp


def async_receive(recvs=1, cut=False):
    async def main():
        objs = batch(BATCHES[1::2] if cut else BATCHES)
        proto, reader, transport, sp = async_end()
        ref = wire(SocketIOProtocol, objs)
        ends = [len(wire(SocketIOProtocol, objs[:i + 1]))
                for i in range(len(objs))]
        limit = choose("cut", len(ref) + 1) if cut else len(ref)
        splits = Splits("in", recvs, len(ref))
        broken = cut and sym_bool("reset")
        whole = sum(1 for e in ends if e <= limit)
        early = sym_bool("receiver-waits-first")

        async def feed():
            pos = 0
            while pos < limit:
                n = splits.cut(pos, limit - pos)
                sp.data_received(ref[pos:pos + n])
                pos += n
                await asyncio.sleep(1)
            if broken:
                cover("reset")
                sp.connection_lost(ConnectionResetError("reset"))
            else:
                sp.eof_received()

        if not early:
            feeder = asyncio.ensure_future(feed())
            await settle(3)
        else:
            feeder = None

        async def receive():
            got = []
            while True:
                try:
                    got.append(await proto.receive())
                except LOST:
                    cover("async-end-reported")
                    return got
                except Exception as e:
                    fail("end-of-stream-is-a-connection-error", repr(e))
                check(len(got) <= len(objs), "nothing-but-whole-messages")

        task = asyncio.ensure_future(receive())
        await settle(3)
        if feeder is None:
            feeder = asyncio.ensure_future(feed())
        await feeder
        done, pending = await asyncio.wait([task], timeout=10)
        check(not pending, "end-of-stream-ends-the-receiver")
        got = task.result()
        if broken:
            # a reset may overtake what was not yet read
            check(len(got) <= whole, "nothing-but-whole-messages")
            if early:
                check(len(got) == whole, "whole-messages-are-received")
        else:
            check(len(got) == whole, "whole-messages-are-received",
                  "%r of %r" % (got, whole))
        check(all(same(a, b) for a, b in zip(got, objs)),
              "same-objects-in-order", repr(got))
        if cut and whole < len(objs):
            cover("async-cut")

    run(main())


def async_send():
    """what two tasks send while the transport is sometimes full, read by
    the other, blocking, side"""
    async def main():
        proto, reader, transport, sp = async_end(sym_bool("half-close"))
        first = [KINDS[1], KINDS[3]]
        second = [KINDS[2], KINDS[4]]
        d1, d2 = pos_real("d1"), pos_real("d2")
        assume(And(d1 < 5, d2 < 5))

        async def sender(objs, delay):
            for o in objs:
                await asyncio.sleep(delay)
                await proto.send(o)

        async def transport_life():
            sp.pause_writing()
            await asyncio.sleep(pos_real("paused"))
            sp.resume_writing()

        await asyncio.gather(
            sender(first, d1), sender(second, d2), transport_life())
        close = sym_bool("close")
        if close:
            proto.close()
            await settle(5)
            check(transport.ended, "closing-ends-the-stream")
            cover("closed")
        total = len(transport.stream.data)
        inn = SocketIOProtocol(
            End(transport.stream, recv_splits=Splits("in", 1, total)))
        got = [inn.receive() for _ in range(4)]
        check([x for x in got if any(same(x, o) for o in first)] == first,
              "same-objects-in-order", repr(got))
        check([x for x in got if any(same(x, o) for o in second)] == second,
              "same-objects-in-order", repr(got))
        if close:
            read_all(inn, [], 0)

    run(main())


def end_to_end():
    """parent and child ends talking through two streams"""
    async def main():
        half = sym_bool("half-close")
        proto, reader, transport, sp = async_end(half)
        back = Stream()
        total = len(wire(SocketIOProtocol, [KINDS[3]]))
        child = SocketIOProtocol(_Duplex(
            End(transport.stream, recv_splits=Splits("c-in", 1, total)),
            End(back, send_splits=Splits("c-out", 1, total)),
        ))
        fed = 0
        for obj in batch():
            await proto.send(obj)
            got = child.receive()
            check(same(got, obj), "same-objects-in-order", repr(got))
            child.send(got)
            sp.data_received(back.data[fed:])
            fed = len(back.data)
            task = asyncio.ensure_future(proto.receive())
            done, pending = await asyncio.wait([task], timeout=1)
            check(not pending, "whole-messages-are-received")
            check(same(task.result(), obj), "same-objects-in-order")
        proto.close()
        await settle(5)
        check(transport.ended, "closing-ends-the-stream")
        read_all(child, [], 0)
        cover("end-to-end")

    run(main())


class _Duplex:
    def __init__(self, inn, out):
        self.recv = inn.recv
        self.recv_into = inn.recv_into
        self.send = out.send
        self.sendall = out.sendall


def scenarios(tier):
    n = 3 if tier == "thorough" else 2
    S, F = SocketIOProtocol, FileIOProtocol
    return [
        Scenario("socket-writes", blocking, dict(cls=S, sends=n),
                 covers=["sent-in-pieces", "end-of-stream-reported"]),
        Scenario("socket-reads", blocking, dict(cls=S, recvs=n)),
        Scenario("socket-both", blocking, dict(cls=S, sends=1, recvs=1)),
        Scenario("socket-cut", blocking, dict(cls=S, recvs=n - 1, cut=True),
                 covers=["cut"]),
        Scenario("file-reads", blocking, dict(cls=F, recvs=n)),
        Scenario("file-cut", blocking, dict(cls=F, recvs=n - 1, cut=True),
                 covers=["cut"]),
        Scenario("socket-big", big, dict(cls=S), covers=["big"]),
        Scenario("file-big", big, dict(cls=F), covers=["big"]),
        Scenario("socket-large", large, dict(cls=S), covers=["large"]),
        Scenario("file-large", large, dict(cls=F), covers=["large"]),
        Scenario("async-large", async_large, {}, covers=["large"]),
        Scenario("async-reads", async_receive, dict(recvs=n - 1),
                 covers=["async-end-reported"]),
        Scenario("async-cut", async_receive, dict(recvs=1, cut=True),
                 covers=["async-cut", "reset"]),
        Scenario("async-send", async_send, {}, covers=["closed"]),
        Scenario("end-to-end", end_to_end, {}, covers=["end-to-end"]),
    ]
