"""
C36 -- DNS records of every type.  All their numbers, and their time to live,
are symbolic; their names, texts and addresses are solver-chosen.  A record is
made by its ``create``, packed by the real code into a buffer which keeps
symbolic numbers, and read back by a decoder made from the RFCs.
"""
import ipaddress
import struct

import dnslib
from dnslib.label import DNSBuffer

from symx.api import *

from aiomisc.service.dns import records as R
from aiomisc.service.dns.records import DNSClass, DNSRecord, RecordType

BOUNDS = {
    "quick": "all 20 types of records; all values of every number, fitting its "
             "field or not; 5 names, 5 texts of up to 256 bytes, 5 addresses "
             "of each family; two records with each of their fields equal or "
             "not",
    "thorough": "as quick, with two fields chosen freely at a time",
}
ASSUMPTIONS = ["dnslib encodes names"]
OUTSIDE = ["malformed addresses and unknown service parameters (refused, or "
           "not, by dnslib), tags of CAA which are not ASCII", "names of more than 63 bytes per label"]

NAMES = ["y.a.", "x.y.b.", "other", ".", "A-b.C_d."]
TEXTS = ["text", "", "\xe9\u20ac", "x" * 255, "x" * 256]
IP4 = ["192.0.2.1", "0.0.0.0", "255.255.255.255", "1.2.3.4", "127.0.0.1"]
IP6 = ["2001:db8::1", "::", "::1", "fe80::1:2:3:4",
       "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"]
TYPESETS = [[1], [1, 16, 28], [1, 2, 46, 257], [257, 1], [65]]
LAT = [37.5, -90.0, 0.0, 90.0, 12.125]
LON = [-122.25, 180.0, 0.0, -180.0, 12.125]
ALT = [10.0, -100000.0, 0.0, 1234.5, 8849.0]
SIZE = [(1.0, 0x12), (10000.0, 0x16), (10.0, 0x13), (0.0, 0), (3000.0, 0x35)]
PARAMS = [
    ([], b""),
    (["alpn=h2"], b"\0\1\0\3\2h2"),
    (["alpn=h2,h3"], b"\0\1\0\6\2h2\2h3"),
    (["port=443"], b"\0\3\0\2\1\xbb"),
    (["alpn=h2", "port=8443"], b"\0\1\0\3\2h2\0\3\0\2\x20\xfb"),
]

# name -> (number of the type, arguments of create, RDATA)
# arguments: name:kind, in order; H, B, I are numbers of 16, 8 and 32 bits
TYPES = {
    "A": (1, "ip:ip4", "ip"),
    "AAAA": (28, "ipv6:ip6", "ipv6"),
    "CNAME": (5, "label:name", "label"),
    "NS": (2, "label:name", "label"),
    "PTR": (12, "label:name", "label"),
    "DNAME": (39, "label:name", "label"),
    "MX": (15, "exchange:name preference:H", "preference exchange"),
    "TXT": (16, "text:string", "text"),
    "SOA": (6, "mname:name rname:name serial:I refresh:I retry:I expire:I "
            "minimum:I",
            "mname rname serial refresh retry expire minimum"),
    "SRV": (33, "priority:H weight:H port:H target:name",
            "priority weight port target"),
    "CAA": (257, "flags:B tag:token value:rest", "flags tag value"),
    "NAPTR": (35, "order:H preference:H flags:string service:string "
              "regexp:string replacement:name",
              "order preference flags service regexp replacement"),
    "DS": (43, "key_tag:H algorithm:B digest_type:B digest:rest",
           "key_tag algorithm digest_type digest"),
    "DNSKEY": (48, "flags:H protocol:B algorithm:B key:rest",
               "flags protocol algorithm key"),
    "RRSIG": (46, "type_covered:H algorithm:B labels:B original_ttl:I "
              "expiration:I inception:I key_tag:H signer:name "
              "signature:rest",
              "type_covered algorithm labels original_ttl expiration "
              "inception key_tag signer signature"),
    "NSEC": (47, "next_domain:name rrtypes:types", "next_domain rrtypes"),
    "HTTPS": (65, "priority:few target:target params:params",
              "priority target params"),
    "LOC": (29, "latitude:lat longitude:lon altitude:alt size:size "
            "h_precision:size v_precision:size",
            "=0 size h_precision v_precision latitude longitude altitude"),
    "RP": (17, "mbox:name txt:name", "mbox txt"),
    "TLSA": (52, "usage:B selector:B mtype:B cert:rest",
             "usage selector mtype cert"),
    "SSHFP": (44, "algorithm:B fptype:B fingerprint:rest",
              "algorithm fptype fingerprint"),
}
BYTES = {"B": 1, "H": 2, "I": 4}


class Refused(Exception):
    """a value which does not fit"""


class Wire(DNSBuffer):
    """a buffer which keeps symbolic numbers"""

    def __init__(self):
        super().__init__()
        self.symbols = {}

    def pack(self, fmt, *args):
        if not any(is_sym(a) for a in args):
            return super().pack(fmt, *args)
        order = fmt.lstrip("!<>=@")
        check(len(order) == len(args) and (
            fmt[0] in "!>" or set(order) == {"B"}), "in network order", fmt)
        for c, a in zip(order, args):
            n = BYTES[c]
            if is_sym(a):
                if not And(a >= 0, a < 1 << (8 * n)):
                    raise struct.error("does not fit")
                self.symbols[self.offset] = n, a
                a = 0
            super().pack("!" + c, a)


class Reader:
    def __init__(self, wire):
        self.w, self.data, self.at = wire, bytes(wire.data), 0

    def number(self, n):
        at = self.at
        self.at += n
        check(self.at <= len(self.data), "long enough")
        if at in self.w.symbols:
            size, v = self.w.symbols[at]
            check(size == n, "a number of its size", (at, size, n))
            return v
        check(not any(x in self.w.symbols for x in range(at, at + n)),
              "a number of its size")
        return int.from_bytes(self.data[at:at + n], "big")

    def get(self, n):
        out = self.data[self.at:self.at + n]
        check(not any(x in self.w.symbols
                      for x in range(self.at, self.at + n)),
              "a number of its size")
        self.at += n
        return out

    def name(self):
        out, back = [], None
        while True:
            n = self.data[self.at]
            if n & 0xc0:
                to = int.from_bytes(self.data[self.at:self.at + 2],
                                    "big") & 0x3fff
                check(to < self.at, "names refer backwards")
                back = self.at + 2 if back is None else back
                self.at = to
                continue
            self.at += 1
            if not n:
                break
            out.append(self.data[self.at:self.at + n].decode())
            self.at += n
        if back is not None:
            self.at = back
        return ".".join(out) + "."


def full(name):
    return name if name.endswith(".") else name + "."


def bitmap(data):
    out, i = set(), 0
    while i < len(data):
        window, n = data[i], data[i + 1]
        check(0 < n <= 32, "a bit map")
        for j, byte in enumerate(data[i + 2:i + 2 + n]):
            out |= {window * 256 + j * 8 + k for k in range(8)
                    if byte & 0x80 >> k}
        i += 2 + n
    return out


class Value:
    """an argument: what is given, whether it fits, what is to be sent"""

    def __init__(self, label, kind, free):
        self.kind, self.fits = kind, True

        def some(values):
            return pick(label, values) if free else values[0]
        if kind in BYTES:
            v = self.given = self.number = sym_int(
                label, -1, 1 << (8 * BYTES[kind]))
            self.fits = And(v >= 0, v < 1 << (8 * BYTES[kind]))
        elif kind == "few":
            self.given = self.number = some([1, 0, 2, 65535, 443])
        elif kind in ("name", "target"):
            self.given = some(NAMES)
        elif kind in ("string", "rest", "token"):
            self.given = some(TEXTS if kind != "token" else
                              ["issue", "a1", "x" * 255, "x" * 256])
            self.sent = self.given.encode()
            self.fits = kind == "rest" or len(self.sent) <= 255
        elif kind == "ip4":
            self.given = some(IP4)
            self.sent = ipaddress.IPv4Address(self.given).packed
        elif kind == "ip6":
            self.given = some(IP6)
            self.sent = ipaddress.IPv6Address(self.given).packed
        elif kind == "types":
            self.types = some(TYPESETS)
            way = pick(label + "-way", [list, tuple, iter, "members"])
            self.given = [RecordType(t) for t in self.types] \
                if way == "members" else way(self.types)
        elif kind == "params":
            self.given, self.sent = some(PARAMS)
        elif kind == "size":
            self.given, self.number = some(SIZE)
        elif kind in ("lat", "lon"):
            self.given = some(LAT if kind == "lat" else LON)
            self.number = int(self.given * 3600000) + 2 ** 31
        elif kind == "alt":
            self.given = some(ALT)
            self.number = int((self.given + 100000) * 100)

    def read(self, r, end):
        """is it what comes next?"""
        k = self.kind
        if k in ("B", "H", "I", "few", "size", "lat", "lon", "alt"):
            n = BYTES.get(k) or {"few": 2, "size": 1}.get(k, 4)
            got = r.number(n)
            check(got == self.number, "the number", (got, self.number))
        elif k in ("name", "target"):
            got = r.name()
            check(got == full(self.given), "the name", (got, self.given))
        elif k in ("string", "token"):
            got = r.get(r.number(1))
            check(got == self.sent, "the text", got)
        elif k == "types":
            got = bitmap(r.get(end - r.at))
            check(got == set(self.types), "the types", (got, self.types))
        else:
            n = {"ip4": 4, "ip6": 16}.get(k, end - r.at)
            got = r.get(n)
            check(got == self.sent, "the bytes", (got, self.sent))


def arguments(kind, tag, free):
    out = {}
    for k, a in enumerate(TYPES[kind][1].split()):
        name, type_ = a.split(":")
        out[name] = Value(tag + name, type_, k in free)
    return out


def create(kind, name, args, by_name, **kw):
    if by_name:
        return getattr(R, kind).create(
            name=name, **{k: v.given for k, v in args.items()}, **kw)
    return getattr(R, kind).create(
        name, *[v.given for v in args.values()], **kw)


def free_fields(kind, n):
    """which arguments, other than numbers, are chosen freely"""
    args = [i for i, a in enumerate(TYPES[kind][1].split())
            if a.split(":")[1] not in BYTES]
    free = set()
    for k in range(min(n, len(args))):
        free.add(args[choose("free%d" % k, len(args))])
    return free


def sent(kind, n):
    """what is sent is what was given, in the format of the type"""
    args = arguments(kind, "", free_fields(kind, n))
    name = pick("name", ["x.a.", "a.", "x.a", "q.y.a."])
    by_name = bool(choose("by-name", 2))
    ttl = sym_int("ttl", -1, 1 << 32)
    kw = {} if choose("default-ttl", 2) else {"ttl": ttl}
    ttl = kw.get("ttl", 3600)
    fits = And(ttl >= 0, ttl < 1 << 32, *[v.fits for v in args.values()])
    wire = Wire()
    try:
        rec = create(kind, name, args, by_name, **kw)
        check(isinstance(rec, DNSRecord), "a record")
        check(rec.type == TYPES[kind][0] and
              rec.type is RecordType[kind], "its type", rec.type)
        check(rec.cls == DNSClass.IN, "its class")
        rec.rr(rec.type).pack(wire)
    except (ValueError, struct.error, dnslib.DNSError):
        check(Not(fits), "every value which fits is taken")
        return cover("refused")
    check(fits, "a value which does not fit is refused")
    r = Reader(wire)
    check(r.name() == full(name), "its name")
    check(r.number(2) == TYPES[kind][0], "its type")
    check(r.number(2) == 1, "its class")
    got = r.number(4)
    check(got == ttl, "its time to live", (got, ttl))
    size = r.number(2)
    end = r.at + size
    check(end == len(r.data), "its length", (end, len(r.data)))
    for field in TYPES[kind][2].split():
        if field[0] == "=":
            check(r.number(1) == int(field[1:]), "the version")
        else:
            args[field].read(r, end)
    check(r.at == end, "nothing else", (r.at, end))
    cover("sent")


def equal(kind):
    """records are equal when everything but the time to live is"""
    fields = TYPES[kind][1].split()
    # one other field may differ at a time; numbers may always
    k = choose("differs", len(fields) + 1)
    free = {k} if k < len(fields) and fields[k].split(":")[1] not in BYTES \
        else set()
    one, two = arguments(kind, "a.", free), arguments(kind, "b.", free)
    for v in list(one.values()) + list(two.values()):
        assume(v.fits)
    names = ["x.a.", pick("other-name", ["x.a.", "y.a."])]
    a = create(kind, names[0], one, False, ttl=1)
    b = create(kind, names[1], two, True, ttl=2)
    if kind == "NSEC":          # what was given might be consumed
        one["rrtypes"].given = one["rrtypes"].types
    c = create(kind, names[0], one, True, ttl=3)
    same = names[0] == names[1] and bool(And(*[
        full(one[x].given) == full(two[x].given)
        if one[x].kind == "name" else
        set(one[x].types) == set(two[x].types)
        if one[x].kind == "types" else one[x].given == two[x].given
        for x in one]))
    check(bool(a == b) == same, "equal when everything is", (kind, same))
    check(bool(a != b) == (not same), "equal when everything is")
    check(bool(a.data == b.data) or not same, "equal when everything is")
    check(a == c and hash(a) == hash(c), "equal to itself")
    if same:
        cover("equal")
        check(hash(a) == hash(b), "equal ones have one hash")
        check(len({a, b, c}) == 1, "equal ones are one")
    else:
        cover("different")
        check(len({a, b, c}) == 2, "different ones are two")


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for kind in TYPES:
        covers = ["sent", "refused"]
        out.append(Scenario("sent %s" % kind, sent, dict(
            kind=kind, n=2 if deep else 1), covers=covers))
        out.append(Scenario("equal %s" % kind, equal, dict(kind=kind),
                            covers=["equal", "different"]))
    return out
