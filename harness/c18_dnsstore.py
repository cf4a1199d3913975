import itertools

from symx.api import *

from aiomisc.service.dns import DNSStore, DNSZone
from aiomisc.service.dns import records as R
from aiomisc.service.dns.records import A, AAAA, TXT, RecordType

BOUNDS = {
    "quick": "histories of 3 operations on any zones whose names have <=3 "
             "labels out of {a, ba} (15 names), each with and without "
             "trailing dot, queries for all names of <=4 labels; histories "
             "of 3 record operations in one zone; 40 records, names and "
             "zones; all record types (of the "
             "histories of 3 operations: the first zone has <=2 labels, "
             "records of at most 3 neighbouring names)",
    "thorough": "all histories of 3 operations",
}
ASSUMPTIONS = ["records are given absolute names"]
OUTSIDE = ["letter case of names", "equal records with different TTLs"]

LABELS = ("a", "ba")


def names(depth):
    out = []
    for n in range(depth + 1):
        for labels in itertools.product(LABELS, repeat=n):
            out.append(".".join(labels) + ".")
    return out


ZONES = names(3)
QUERIES = names(4) + ["c.", "c.a.", "a.c.", "aba.", "a.aba."]


def labels_of(name):
    return tuple(x for x in name.split(".") if x)


def below(name, zone):
    """by whole labels"""
    n, z = labels_of(name), labels_of(zone)
    return n[len(n) - len(z):] == z if len(z) <= len(n) else False


def dotted(name, dot):
    return name if dot or name == "." else name[:-1]


_n = [0]


def filled(zone, dot, tag):
    """a zone with a record for each of the names it may have"""
    z = DNSZone(dotted(zone, dot))
    for q in QUERIES:
        if below(q, zone):
            z.add_record(TXT.create(q, "%s#%d" % (zone, tag)))
    return z


def verify(store, zones, label):
    """``zones``: name -> tag"""
    for q in QUERIES:
        best = None
        for z in zones:
            if below(q, z) and (best is None or
                                len(labels_of(z)) > len(labels_of(best))):
                best = z
        for dot in (True, False):
            if q == "." and not dot:
                continue
            found = store.query(dotted(q, dot), RecordType.TXT)
            got = sorted(r.data.data[0].decode() for r in found)
            want = [] if best is None else ["%s#%d" % (best, zones[best])]
            check(got == want, label, "%s: %r instead of %r in %r" % (
                dotted(q, dot), got, want, dict(zones)))
            check(all(r.name == q for r in found), label, "names")
        check(store.query(q, RecordType.A) == () or
              not list(store.query(q, RecordType.A)), label, "other type")
    for z in ZONES:
        for dot in (True, False):
            got = store.get_zone(dotted(z, dot) if z != "." else ".")
            check((got is not None) == (z in zones), "get-zone",
                  "%s: %r" % (z, got))
            if got is not None:
                check(got.name == z, "get-zone", got.name)


def refused(f, *args):
    try:
        f(*args)
    except ValueError:
        return True
    return False


def history(steps, first=15, narrow=False):
    store = DNSStore()
    zones = {}
    tag = 0
    # the names below are symmetric as far as the first label goes
    for step in range(steps):
        if step == 0:
            op = "add"
        else:
            op = pick("op%d" % step, ["add", "remove", "replace",
                                      "bad-replace"])
        tag += 1
        if op in ("add", "remove"):
            zone = ZONES[choose("zone%d" % step,
                                len(ZONES) if step else first)]
            dot = sym_bool("dot%d" % step) \
                if step == steps - 1 and not narrow else step % 2 == 0
            if op == "add":
                was = refused(store.add_zone, filled(zone, dot, tag))
                check(was == (zone in zones), "existing-zone-is-refused",
                      zone)
                if not was:
                    zones[zone] = tag
                else:
                    cover("add-refused")
            else:
                was = refused(store.remove_zone, dotted(zone, dot))
                check(was == (zone not in zones), "absent-zone-is-refused",
                      zone)
                zones.pop(zone, None)
                cover("remove-refused" if was else "removed")
        else:
            first = ZONES[choose("new%d" % step, 5)]
            second = pick("second%d" % step, ["a.ba.", "ba.ba.a."])
            new = {}
            for z in {first: 0, second: 0}:
                new[dotted(z, step % 2)] = [
                    TXT.create(q, "%s#%d" % (z, tag))
                    for q in QUERIES if below(q, z)]
            if op == "bad-replace":
                key = pick("bad%d" % step, list(new))
                bad = TXT.create("x.c.", "bad")
                if key == ".":
                    def gen():
                        raise ValueError("broken source")
                        yield
                    new[key] = gen()
                else:
                    new[key] = new[key] + [bad]
                check(refused(store.replace, new), "bad-replace-is-refused")
                cover("bad-replace")
            else:
                store.replace(new)
                zones = {first: tag, second: tag}
                cover("replace")
        verify(store, zones, "exactly-the-records-of-the-longest-zone")


def zone_history(steps, narrow=False):
    """records come to and go from one zone"""
    zone = ["a.", "a.a.", "ba.a.", "."][choose("zone", 4)]
    z = DNSZone(dotted(zone, sym_bool("dot")))
    store = DNSStore()
    store.add_zone(z)
    where = [q for q in ("a.", "ba.", "a.a.", "aa.a.", "ba.a.", "a.ba.a.",
                         "aba.a.")]
    kinds = [lambda n: A.create(n, "10.0.0.1"),
             lambda n: A.create(n, "10.0.0.2"),
             lambda n: AAAA.create(n, "::1")]
    content = set()

    def put(record, target):
        target.add((record.name, record.type, repr(record.data)))

    for step in range(steps):
        op = pick("op%d" % step, ["add", "remove", "replace"]) \
            if step else "add"
        if not step or not narrow:
            at = choose("name%d" % step, len(where))
            kind = choose("kind%d" % step, len(kinds))
        else:
            at = (at + choose("name%d" % step, 2)) % len(where)
            kind = 2 if op == "replace" else \
                (kind + choose("kind%d" % step, 2)) % len(kinds)
        name = where[at]
        record = kinds[kind](name)
        if op == "add":
            was = refused(z.add_record, record)
            check(was == (not below(name, zone)),
                  "only-records-of-the-zone-are-accepted",
                  "%s in %s" % (name, zone))
            if was:
                cover("foreign-record")
            else:
                put(record, content)
        elif op == "remove":
            z.remove_record(record)
            content.discard((record.name, record.type, repr(record.data)))
        else:
            other = kinds[0](where[3])
            records = [record, other, kinds[2](zone if zone != "." else "a.")]
            good = all(below(r.name, zone) for r in records)
            was = refused(z.replace, records)
            check(was == (not good), "only-records-of-the-zone-are-accepted")
            if not was:
                content = set()
                for r in records:
                    put(r, content)
                cover("records-replaced")
            else:
                cover("records-replace-refused")
        for q in where:
            for t in (RecordType.A, RecordType.AAAA, RecordType.TXT):
                want = sorted(c for c in content if c[0] == q and c[1] == t)
                for dot in (True, False):
                    found = z.get_records(dotted(q, dot), t)
                    got = sorted((r.name, r.type, repr(r.data))
                                 for r in found)
                    check(got == want, "exactly-the-records-of-the-zone",
                          "%r instead of %r" % (got, want))
                    asked = store.query(dotted(q, dot), t)
                    check(sorted((r.name, r.type, repr(r.data))
                                 for r in asked) == want,
                          "query-answers-the-records-of-the-zone")


def many(n):
    """a name with many records, a zone with many names, many zones"""
    how = pick("how", ["records", "names", "zones", "deep"])
    store = DNSStore()
    if how == "deep":
        chain = [".".join(["a"] * i) + "." for i in range(1, n + 1)]
        for i, name in enumerate(chain):
            z = DNSZone(name)
            z.add_record(TXT.create("x." + name, str(i)))
            z.add_record(TXT.create(name, str(i)))
            store.add_zone(z)
        k = choose("gone", n)
        store.remove_zone(chain[k])
        for i, name in enumerate(chain):
            for q in (name, "x." + name):
                got = [r.data.data[0].decode()
                       for r in store.query(q, RecordType.TXT)]
                check(got == ([] if i == k else [str(i)]),
                      "exactly-the-records-of-the-longest-zone")
        return
    recs = [A.create(
        "a." if how == "records" else "n%d.a." % i if how == "names"
        else "z%d." % i, "10.0.%d.%d" % divmod(i, 256)) for i in range(n)]
    if how == "zones":
        for r in recs:
            store.add_zone(DNSZone(r.name, r))
    elif choose("replace", 2):
        z = DNSZone("a.")
        store.add_zone(z)
        z.replace(iter(recs))
    else:
        store.add_zone(DNSZone("a.", *recs))
    gone = choose("gone", n)
    victim = recs.pop(gone)
    if how == "zones":
        store.remove_zone(victim.name)
    else:
        store.get_zone("a.").remove_record(victim)
    for name in {r.name for r in recs} | {victim.name}:
        want = sorted(repr(r.data) for r in recs if r.name == name)
        got = sorted(repr(r.data)
                     for r in store.query(name, RecordType.A))
        check(got == want, "exactly-the-records-of-the-zone")


KINDS = [
    lambda v: R.A.create("a.", "10.0.0.%d" % v),
    lambda v: R.AAAA.create("a.", "::%d" % v),
    lambda v: R.CNAME.create("a.", "x%d.b." % v),
    lambda v: R.NS.create("a.", "x%d.b." % v),
    lambda v: R.PTR.create("a.", "x%d.b." % v),
    lambda v: R.MX.create("a.", "x.b.", v),
    lambda v: R.MX.create("a.", "x%d.b." % v, 5),
    lambda v: R.TXT.create("a.", "text %d" % v),
    lambda v: R.SOA.create("a.", "b.", "c.", v, 2, 3, 4, 5),
    lambda v: R.SOA.create("a.", "b.", "c%d." % v, 1, 2, 3, 4, 5),
    lambda v: R.SRV.create("a.", v, 2, 3, "b."),
    lambda v: R.SRV.create("a.", 7, 2, v, "b."),
    lambda v: R.CAA.create("a.", 0, "issue", "v%d" % v),
    lambda v: R.NAPTR.create("a.", 1, 2, "S", "s", "r%d" % v, "."),
    lambda v: R.DS.create("a.", v, 5, 1, "ab"),
    lambda v: R.DNSKEY.create("a.", 256, 3, 5, "ab%d" % v),
    lambda v: R.RRSIG.create("a.", 1, 5, 2, 300, 9, 8, v, "a.", "ab"),
    lambda v: R.NSEC.create("a.", "b.", [1, 28 + v]),
    lambda v: R.HTTPS.create("a.", v, "b.", ["p"]),
    lambda v: R.HTTPS.create("a.", 1, "b.", ["p%d" % v]),
    lambda v: R.LOC.create("a.", 1.0 + v, 2.0, 3.0, 1.0, 1.0, 1.0),
    lambda v: R.RP.create("a.", "b%d." % v, "c."),
    lambda v: R.TLSA.create("a.", 1, 1, 1, "ab%d" % v),
    lambda v: R.SSHFP.create("a.", 1, v, "ab"),
]


def types():
    """records of every type can be kept, told apart and removed"""
    make = KINDS[choose("kind", len(KINDS))]
    other = KINDS[choose("other", len(KINDS))]
    z = DNSZone("a.")
    same = sym_bool("same")
    recs = [make(1), make(1) if same else make(2), other(3)]
    # equal records (the same type and data) are one record
    distinct = []
    for r in recs:
        if r is recs[1] and same:
            continue
        distinct.append(r)
    try:
        for r in recs:
            z.add_record(r)
    except Exception as e:
        fail("every-record-type-is-accepted", repr(e))
    gone = pick("gone", [None, 0, 1])
    if gone is not None:
        z.remove_record(recs[gone])
        distinct = [r for r in distinct if r is not recs[0]] if same else \
            [r for r in distinct if r is not recs[gone]]
    for t in {r.type for r in recs}:
        got = sorted(repr(vars(r.data)) for r in z.get_records("a.", t))
        want = sorted(repr(vars(r.data)) for r in distinct if r.type == t)
        check(got == want, "exactly-the-records-of-the-zone",
              "%r instead of %r" % (got, want))
    cover("types")


def scenarios(tier):
    t = tier == "thorough"
    zc = ["add-refused", "removed", "remove-refused", "replace",
          "bad-replace"]
    rc = ["foreign-record", "records-replaced", "records-replace-refused"]
    return [
        Scenario("zones", history,
                 dict(steps=3) if t else dict(steps=3, first=7, narrow=True),
                 covers=zc),
        Scenario("records", zone_history, dict(steps=3, narrow=not t),
                 covers=rc),
        Scenario("records-two", zone_history, dict(steps=2),
                 covers=["foreign-record", "records-replaced"]),
        Scenario("zones-two", history, dict(steps=2), covers=["removed"]),
        Scenario("many", many, dict(n=40)),
        Scenario("types", types, {}, covers=["types"]),
    ]
