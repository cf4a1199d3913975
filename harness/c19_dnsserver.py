"""
C19 -- the DNS servers, driven through simulated sockets.  The size a client
announces is a symbolic integer (parsed by dnslib from the request), so are
the arrival times; the number and sizes of the records, the requests and the
places where the stream is split are solver-chosen.
"""
import asyncio
import struct

import dnslib
import dnslib.buffer

from symx.api import *
from symx.net import Network

from aiomisc.service.dns import (
    DNSStore, DNSZone, TCPDNSServer, UDPDNSServer,
)
from aiomisc.service.dns.records import (
    A, AAAA, CAA, CNAME, DNAME, DNSKEY, DS, HTTPS, LOC, MX, NAPTR, NS, NSEC,
    PTR, RP, RRSIG, SOA, SRV, SSHFP, TLSA, TXT, RecordType,
)

BOUNDS = {
    "quick": "any announced size (0..65535); answers of 1..3 records with a "
             "total size around 512, 1232 and 65535 bytes and one of 100 "
             "records; 1..3 requests per TCP connection, the stream split "
             "at any two places; all 21 record types",
    "thorough": "the stream split at any three places, more sizes",
}
ASSUMPTIONS = ["dnslib packs and parses messages correctly"]
OUTSIDE = ["EDNS versions and options", "the limit of the IP layer on UDP"]

H = struct.Struct("!H")

# -- dnslib reads the announced size from the request's bytes and writes it
# to the reply's; a symbolic one is put in between
_pack = dnslib.buffer.Buffer.pack
_parse = dnslib.DNSRecord.__dict__["parse"].__func__
_announced = [None]


def sx_pack(self, fmt, *args):
    return _pack(self, fmt, *[4096 if is_sym(a) else a for a in args])


def sx_parse(cls, packet):
    r = _parse(cls, packet)
    if _announced[0] is not None:
        for rr in r.ar:
            if rr.rtype == dnslib.QTYPE.OPT:
                rr.edns_len = rr.rclass = _announced[0]
    return r


dnslib.buffer.Buffer.pack = sx_pack
dnslib.DNSRecord.parse = classmethod(sx_parse)


def parse(packet):
    """by the client: nothing symbolic"""
    keep, _announced[0] = _announced[0], None
    try:
        r = dnslib.DNSRecord.parse(packet)
        # every byte is a part of the message
        b = dnslib.dns.DNSBuffer(packet)
        dnslib.dns.DNSHeader.parse(b)
        for _ in r.questions:
            dnslib.dns.DNSQuestion.parse(b)
        for _ in range(len(r.rr) + len(r.auth) + len(r.ar)):
            dnslib.RR.parse(b)
        if b.remaining():
            fail("reply-is-well-formed", "%d extra bytes" % b.remaining())
        return r
    except dnslib.DNSError as e:
        fail("reply-is-well-formed", repr(e))
    finally:
        _announced[0] = keep


def request(name, qtype, id, edns=False, extra=False):
    r = dnslib.DNSRecord(
        dnslib.DNSHeader(id=id, rd=1), q=dnslib.DNSQuestion(name, int(qtype)))
    if extra:
        # another additional record comes first
        r.add_ar(dnslib.RR("other.", 1, rdata=dnslib.A("192.0.2.9")))
    if edns:
        r.add_ar(dnslib.EDNS0(udp_len=4096))
    return r.pack()


def store_of(*records):
    zones = {}
    for r in records:
        zones.setdefault(r.name.split(".", 1)[-1] if r.name.count(".") > 1
                         else r.name, []).append(r)
    s = DNSStore()
    for name, rs in zones.items():
        z = DNSZone(name)
        for r in rs:
            z.add_record(r)
        s.add_zone(z)
    return s


async def serve(cls, store):
    net = Network.attach()
    svc = cls(store=store, address="127.0.0.1", port=5353)
    svc.set_loop(asyncio.get_running_loop())
    await svc.start()
    return net, svc


ADDR = ("192.0.2.7", 3333)


async def ask_udp(net, svc, *packets):
    """the replies to datagrams sent at once"""
    (t,) = net.datagrams
    t.sent.clear()
    for i, p in enumerate(packets):
        t.feed(p, (ADDR[0], ADDR[1] + i))
    await settle()
    return list(t.sent)


async def ask_tcp(net, svc, packet):
    peer = net.connect()
    peer.write(H.pack(len(packet)) + packet)
    try:
        size, = H.unpack(await peer.read(2))
        body = await peer.read(size)
    except EOFError:
        fail("every-request-is-answered")
    await settle()
    check(not peer.data, "exactly-one-answer")
    peer.write_eof()
    await settle()
    check(peer.closed, "connection-is-closed-at-its-end")
    return body


async def ask(proto, net, svc, packet):
    if proto == "udp":
        got = await ask_udp(net, svc, packet)
        check(len(got) == 1, "exactly-one-answer", str(len(got)))
        check(got[0][1] == ADDR, "answer-goes-to-the-asker")
        return got[0][0]
    return await ask_tcp(net, svc, packet)


SERVERS = {"udp": UDPDNSServer, "tcp": TCPDNSServer}


def same_head(reply, name, qtype, id):
    check(reply.header.id == id, "answer-has-the-id")
    check(reply.header.qr == 1, "answer-is-a-response")
    check(len(reply.questions) == 1 and
          str(reply.q.qname) == name and reply.q.qtype == qtype,
          "answer-has-the-question")


def rr_key(rr):
    return str(rr.rname), rr.rtype, rr.rclass, rr.ttl, repr(rr.rdata)


def full_reply(name, qtype, records, edns):
    """as large as the complete answer is"""
    r = dnslib.DNSRecord(
        dnslib.DNSHeader(id=1, qr=1), q=dnslib.DNSQuestion(name, int(qtype)))
    if edns:
        r.add_ar(dnslib.EDNS0(udp_len=4096))
    for rec in records:
        r.add_answer(rec.rr(int(qtype)))
    return r.pack()


# ---------------------------------------------------------------- sizes

def sizes(tier):
    """announced size against the size of the answer"""
    proto = pick("proto", ["udp", "tcp"])
    edns = sym_bool("edns")
    target = pick("target", [60, 512, 1232, 4000, 65535] + (
        [513, 4096, 30000] if tier else []))
    over = pick("over", [-1, 0, 1])
    extra = target == 1232 and bool(sym_bool("extra"))
    base = len(full_reply("x.a.", 16, [TXT.create("x.a.", "")], edns))
    # one more TXT record (with an index, compressed name): 12 + 1 + text
    recs, left = [], target + over
    overhead = 12
    i = 0
    size = len(full_reply("x.a.", 16, [], edns))
    while size < left:
        room = left - size - overhead
        # a text of at least 6 bytes, the last one fits exactly
        n = min(room - 1, 200)
        if 0 < room - 1 - n < 30:
            n -= 30
        text = ("%05d" % i).ljust(n, "x")[:max(n, 0)]
        recs.append(TXT.create("x.a.", text))
        size += overhead + 1 + len(text)
        i += 1
        if n < 6 and size < left:
            assume(False)
    want = full_reply("x.a.", 16, recs, edns)
    if len(want) != left:
        fail("harness", "%d instead of %d" % (len(want), left))
    size = None
    _announced[0] = None
    if edns:
        # the client takes no less than 512 bytes whatever it announces
        size = sym_int("announced", 0, 65535)
    limit = 65535 if proto == "tcp" else \
        smax(size, 512) if edns else 512
    out = {}

    async def main():
        net, svc = await serve(SERVERS[proto], store_of(*recs))
        _announced[0] = size
        out["body"] = await ask(
            proto, net, svc, request("x.a.", 16, 77, bool(edns), extra))

    try:
        run(main())
    finally:
        _announced[0] = None
    body = out["body"]
    check(len(body) <= limit, "answer-fits")
    r = parse(body)
    same_head(r, "x.a.", 16, 77)
    check(r.header.rcode == 0, "answer-is-no-error")
    got = sorted(map(rr_key, r.rr))
    all_ = sorted(rr_key(rec.rr(16)) for rec in recs)
    if got == all_:
        check(not r.header.tc, "complete-answer-is-not-marked-as-cut")
        cover("whole")
    else:
        check(bool(r.header.tc), "cut-answer-says-so")
        check(all(g in all_ for g in got), "only-records-of-the-store")
        check(limit < len(want), "cut-only-when-too-large")
        cover("cut")


# ---------------------------------------------------------------- types

TYPES = [
    lambda: A.create("x.a.", "192.0.2.1", 5),
    lambda: AAAA.create("x.a.", "2001:db8::1", 6),
    lambda: CNAME.create("x.a.", "y.a.", 7),
    lambda: NS.create("x.a.", "y.a."),
    lambda: PTR.create("x.a.", "y.a."),
    lambda: DNAME.create("x.a.", "y.b."),
    lambda: MX.create("x.a.", "mx.a.", 10),
    lambda: TXT.create("x.a.", "text"),
    lambda: SOA.create("x.a.", "ns.a.", "root.a.", 1, 2, 3, 4, 5),
    lambda: SRV.create("x.a.", 1, 2, 3, "y.a."),
    lambda: CAA.create("x.a.", 0, "issue", "ca"),
    lambda: NAPTR.create("x.a.", 1, 2, "U", "E2U+sip", "!^.*$!sip:a@b!", "."),
    lambda: DS.create("x.a.", 1, 2, 3, "abcd"),
    lambda: DNSKEY.create("x.a.", 256, 3, 8, "key"),
    lambda: RRSIG.create("x.a.", 1, 8, 2, 3600, 1700000000, 1600000000, 5,
                         "a.", "sig"),
    lambda: NSEC.create("x.a.", "b.", [1, 16]),
    lambda: HTTPS.create("x.a.", 1, "b.a.", ["alpn=h2", "port=443"]),
    lambda: LOC.create("x.a.", 37.5, -122.25, 10.0, 1.0, 10000.0, 10.0),
    lambda: RP.create("x.a.", "x.b.", "y.b."),
    lambda: TLSA.create("x.a.", 3, 1, 1, "abcd"),
    lambda: SSHFP.create("x.a.", 1, 1, "abcd"),
]

EXPECT = [
    (1, 5, "192.0.2.1"), (28, 6, "2001:db8::1"), (5, 7, "y.a."),
    (2, 3600, "y.a."), (12, 3600, "y.a."), (39, 3600, "\\# 5 0179016200"),
    (15, 3600, "10 mx.a."), (16, 3600, '"text"'),
    (6, 3600, "ns.a. root.a. 1 2 3 4 5"), (33, 3600, "1 2 3 y.a."),
    (257, 3600, '0 issue "ca"'),
    (35, 3600, '1 2 "U" "E2U+sip" "!^.*$!sip:a@b!" .'),
    (43, 3600, "1 2 3 61626364"), (48, 3600, "256 3 8 a2V5"),
    (46, 3600, "A 8 2 3600 20231114221320 20200913122640 5 a. c2ln"),
    (47, 3600, "b. A TXT"), (65, 3600, "1 b.a. alpn=h2 port=443"),
    (29, 3600, "37 30 N 122 15 W 10.00m"), (17, 3600, "x.b. y.b."),
    (52, 3600, "3 1 1 61626364"), (44, 3600, "1 1 61626364"),
]


def types(tier):
    """each type of records is sent as it is; nothing else is"""
    proto = pick("proto", ["udp", "tcp"])
    i = choose("type", len(TYPES))
    j = choose("asked", 4)
    rec = TYPES[i]()
    extra = TYPES[(i + 1) % len(TYPES)]()
    name, qtype = [
        ("x.a.", EXPECT[i][0]),     # found
        ("x.a.", EXPECT[(i + 2) % len(TYPES)][0]),      # another type
        ("y.a.", EXPECT[i][0]),     # another name
        ("x.b.", EXPECT[i][0]),     # no such zone
    ][j]
    out = {}

    async def main():
        net, svc = await serve(SERVERS[proto], store_of(rec, extra))
        out["body"] = await ask(proto, net, svc, request(name, qtype, 513))

    run(main())
    r = parse(out["body"])
    same_head(r, name, qtype, 513)
    if j == 0:
        check(r.header.rcode == 0, "answer-is-no-error", str(r.header.rcode))
        got = [(x.rtype, x.ttl, repr(x.rdata)) for x in r.rr]
        check(got == [EXPECT[i]], "record-is-sent-as-it-is",
              "%r instead of %r" % (got, EXPECT[i]))
        check([str(x.rname) for x in r.rr] == ["x.a."],
              "record-has-the-name")
        cover("found")
    else:
        check(r.header.rcode == 3, "name-error", str(r.header.rcode))
        check(not r.rr, "no-records-with-an-error")
        cover("absent")


# ---------------------------------------------------------------- stream

def stream(cuts):
    """requests on one connection, however they arrive"""
    n = pick("n", [1, 2, 3])
    end = pick("end", ["eof", "half", "reset"])
    recs = [A.create("x%d.a." % i, "192.0.2.%d" % i) for i in range(3)]
    data, order = b"", []
    for i in range(n):
        k = i * 2 % 3
        p = request("x%d.a." % k, 1, 100 + i)
        order.append((k, 100 + i))
        data += H.pack(len(p)) + p
    one = len(data) // n
    if end == "half":
        # the last request is not complete
        data = data[:-1 - choose("missing", one - 1)]
        order.pop()
    at = [0]
    for c in range(cuts):
        # around the borders of headers, inside of a header and of a body
        spots = sorted({p for k in range(n) for p in (
            k * one, k * one + 1, k * one + 2, k * one + 3, k * one + 17,
            k * one + one - 1) if at[-1] <= p <= len(data)})
        at.append(pick("cut%d" % c, spots))
    at.append(len(data))
    parts = [data[a:b] for a, b in zip(at, at[1:])]
    gap = sym_real("gap", 0, 10)
    out = {}

    async def main():
        net, svc = await serve(TCPDNSServer, store_of(*recs))
        other = net.connect()
        peer = net.connect()
        for p in parts:
            if p:
                peer.write(p)
            await asyncio.sleep(gap)
        await settle()
        if end == "reset":
            peer.reset()
        else:
            peer.write_eof()
        await settle()
        out["data"] = peer.data
        out["closed"] = peer.closed
        # others are served as before
        q = request("x1.a.", 1, 9)
        other.write(H.pack(len(q)) + q)
        await settle()
        out["other"] = other.data
        other.write_eof()
        await settle()
        new = await ask_tcp(net, svc, request("x2.a.", 1, 10))
        out["new"] = new

    run(main())
    check(out["closed"], "connection-is-closed-at-its-end")
    got, data = [], out["data"]
    while data:
        if len(data) < 2 or len(data) < 2 + H.unpack(data[:2])[0]:
            fail("answers-are-whole")
        size, = H.unpack(data[:2])
        got.append(parse(data[2:2 + size]))
        data = data[2 + size:]
    check([r.header.id for r in got] == [x[1] for x in order],
          "every-request-is-answered-in-order",
          "%r instead of %r" % ([r.header.id for r in got], order))
    for r, (k, id) in zip(got, order):
        same_head(r, "x%d.a." % k, 1, id)
        check([repr(x.rdata) for x in r.rr] == ["192.0.2.%d" % k],
              "exactly-the-records")
    check(len(out["other"]) > 2, "other-connections-are-served")
    r = parse(out["other"][2:])
    check(r.header.id == 9 and len(r.rr) == 1, "other-connections-are-served")
    r = parse(out["new"])
    check(r.header.id == 10 and len(r.rr) == 1, "other-connections-are-served")
    cover("stream-" + end)


# ---------------------------------------------------------------- odd

class Broken(DNSStore):
    def query(self, name, record_type):
        raise Err("store")


def odd():
    """requests which cannot be processed"""
    proto = pick("proto", ["udp", "tcp"])
    kind = pick("kind", ["unknown-type", "store", "record"])
    recs = [A.create("x.a.", "192.0.2.1"), A.create("ok.a.", "192.0.2.2")]
    qtype = 1
    if kind == "unknown-type":
        qtype = pick("qtype", [0, 54, 1000, 65534])
        s = store_of(*recs)
    elif kind == "store":
        s = Broken()
    else:
        # cannot be packed
        recs[0] = MX.create("x.a.", "y.a.", 1)
        recs[0].data.label = dnslib.DNSLabel([b"x" * 100])
        qtype = 15
        s = store_of(*recs)
    out = {}

    async def main():
        net, svc = await serve(SERVERS[proto], s)
        out["body"] = await ask(proto, net, svc, request("x.a.", qtype, 5))
        out["next"] = await ask(proto, net, svc, request("ok.a.", 1, 6))

    run(main())
    r = parse(out["body"])
    same_head(r, "x.a.", qtype, 5)
    check(not r.rr, "no-records-with-an-error")
    if kind == "unknown-type":
        check(r.header.rcode in (2, 3, 4), "request-is-refused",
              str(r.header.rcode))
    else:
        check(r.header.rcode == 2, "server-failure", str(r.header.rcode))
    r = parse(out["next"])
    same_head(r, "ok.a.", 1, 6)
    if kind != "store":
        check(len(r.rr) == 1, "exactly-the-records")
    cover("odd-" + kind)


def garbage():
    """malformed datagrams and requests do not stop the server"""
    proto = pick("proto", ["udp", "tcp"])
    bad = pick("bad", [b"", b"\0", b"\xff" * 12, b"x" * 40])
    good = request("x.a.", 1, 8)
    pos = choose("pos", 3)
    packets = [good, good]
    packets.insert(pos, bad)
    out = {}

    async def main():
        asyncio.get_running_loop().set_exception_handler(lambda *a: None)
        net, svc = await serve(
            SERVERS[proto], store_of(A.create("x.a.", "192.0.2.1")))
        if proto == "udp":
            got = await ask_udp(net, svc, *packets)
            for i, p in enumerate(packets):
                mine = [b for b, addr in got if addr[1] == ADDR[1] + i]
                if p is good:
                    check(len(mine) == 1, "exactly-one-answer")
                    check(len(parse(mine[0]).rr) == 1, "exactly-the-records")
        else:
            peer = net.connect()
            peer.write(H.pack(len(bad)) + bad)
            await settle()
            for _ in range(2):
                body = await ask_tcp(net, svc, good)
                check(len(parse(body).rr) == 1, "exactly-the-records")

    run(main())
    cover("garbage")


def large(tier):
    """few but large records"""
    proto = pick("proto", ["udp", "tcp"])
    edns = pick("edns", [None, 512, 1232, 4096])
    n = choose("n", 3) + 1
    recs = [DNSKEY.create("x.a.", 256, 3, 8, "%d" % i + "k" * pick(
        "size%d" % i, [10, 480, 600, 1300, 5000])) for i in range(n)]
    limit = 65535 if proto == "tcp" else max(edns or 0, 512)
    out = {}

    async def main():
        net, svc = await serve(SERVERS[proto], store_of(*recs))
        q = dnslib.DNSRecord(dnslib.DNSHeader(id=4),
                             q=dnslib.DNSQuestion("x.a.", 48))
        if edns:
            q.add_ar(dnslib.EDNS0(udp_len=edns))
        out["body"] = await ask(proto, net, svc, q.pack())

    run(main())
    body = out["body"]
    check(len(body) <= limit, "answer-fits")
    r = parse(body)
    same_head(r, "x.a.", 48, 4)
    want = full_reply("x.a.", 48, recs, bool(edns))
    if len(want) <= limit:
        check(not r.header.tc and len(r.rr) == n,
              "cut-only-when-too-large")
        cover("large-whole")
    else:
        check(bool(r.header.tc), "cut-answer-says-so")
        cover("large-cut")


def changing(n):
    """the store changes between the requests"""
    proto = pick("proto", ["udp", "tcp"])
    first = A.create("x.a.", "192.0.2.1")
    second = A.create("x.a.", "192.0.2.2")
    store = store_of(first)
    content = {"192.0.2.1"}
    keep = proto == "tcp" and bool(sym_bool("one-connection"))

    async def main():
        nonlocal content
        net, svc = await serve(SERVERS[proto], store)
        peer = net.connect() if keep else None
        for i in range(n):
            q = request("x.a.", 1, 50 + i)
            if peer is not None:
                peer.write(H.pack(len(q)) + q)
                size, = H.unpack(await peer.read(2))
                body = await peer.read(size)
            else:
                body = await ask(proto, net, svc, q)
            r = parse(body)
            same_head(r, "x.a.", 1, 50 + i)
            check({repr(x.rdata) for x in r.rr} == content and
                  len(r.rr) == len(content), "exactly-the-records")
            check(r.header.rcode == (0 if content else 3), "name-error")
            op = pick("op%d" % i, ["add", "remove", "replace", "gone", "back"])
            zone = store.get_zone("a.")
            if op == "gone" and zone is not None:
                store.remove_zone("a.")
                content = set()
            elif op == "back" and zone is None:
                store.add_zone(DNSZone("a.", second))
                content = {"192.0.2.2"}
            elif op == "replace":
                store.replace({"a.": [second]})
                content = {"192.0.2.2"}
            elif zone is None:
                assume(False)
            elif op == "add":
                zone.add_record(second)
                content = content | {"192.0.2.2"}
            elif op == "remove":
                zone.remove_record(first)
                content = content - {"192.0.2.1"}
            else:
                assume(False)
    run(main())
    cover("changing")


def scenarios(tier):
    t = tier == "thorough"
    return [
        Scenario("sizes", sizes, dict(tier=t), covers=["whole", "cut"]),
        Scenario("types", types, dict(tier=t), covers=["found", "absent"]),
        Scenario("stream", stream, dict(cuts=3 if t else 2), covers=[
            "stream-eof", "stream-half", "stream-reset"]),
        Scenario("large", large, dict(tier=t), covers=[
            "large-whole", "large-cut"]),
        Scenario("changing", changing, dict(n=4 if t else 3),
                 covers=["changing"]),
        Scenario("odd", odd, {}, covers=[
            "odd-unknown-type", "odd-store", "odd-record"]),
        Scenario("garbage", garbage, {}, covers=["garbage"]),
    ]
