"""
C22 -- SSLOptions with symbolic verify / require_client_cert over all
purposes, certificates, version ranges and ciphers; the resulting contexts are
examined and then made to shake hands (in memory) with good and rogue peers.
TLSServer, AIOHTTPSSLService, TLSClient and RobustTLSClient are driven up to
the point where the context is handed to asyncio.
"""
import pathlib
import socket
import ssl

from symx.api import *
from symx.net import Network

import asyncio
from aiomisc import ThreadPoolExecutor
from aiomisc.service.tls import (
    RobustTLSClient, SSLOptions, TLSClient, TLSServer,
)

BOUNDS = {
    "quick": "both purposes; verify and require_client_cert symbolic; ca "
             "absent, given as text or path, or missing; certificate absent "
             "or given; all ranges of TLS 1.2 and 1.3; three cipher lists; "
             "peers with a good, foreign, wrongly named or no certificate",
    "thorough": "in addition every handshake with every range of versions",
}
ASSUMPTIONS = ["OpenSSL does what an SSLContext's settings say"]
OUTSIDE = ["TLS below 1.2 (this OpenSSL does not offer it)", "uvicorn, gRPC"]

HERE = pathlib.Path(__file__).parent / "certs"


def C(name):
    return HERE / name


V2, V3 = ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3
RANGES = [(V3, V3), (V2, V3), (V2, V2)]
CIPHERS = [None, ("ECDHE-RSA-AES128-GCM-SHA256",),
           ("ECDHE-RSA-CHACHA20-POLY1305", "ECDHE-RSA-AES256-GCM-SHA384")]
DEFAULT = (
    "ECDHE-RSA-AES256-GCM-SHA384", "ECDHE-ECDSA-AES256-GCM-SHA384",
    "ECDHE-RSA-CHACHA20-POLY1305", "ECDHE-ECDSA-CHACHA20-POLY1305",
    "ECDHE-RSA-AES128-GCM-SHA256", "ECDHE-ECDSA-AES128-GCM-SHA256",
)
SERVER, CLIENT = ssl.Purpose.CLIENT_AUTH, ssl.Purpose.SERVER_AUTH


def settings(ctx, purpose, verify, require, lo, hi, ciphers):
    """what the context says, for every value of verify and require"""
    check((ctx.minimum_version, ctx.maximum_version) == (lo, hi),
          "protocol-range", "%r" % ((ctx.minimum_version,
                                     ctx.maximum_version),))
    check(ctx.options & ssl.OP_NO_COMPRESSION, "no-compression")
    got = {c["name"] for c in ctx.get_ciphers()
           if c["protocol"] != "TLSv1.3"}
    check(got == set(ciphers or DEFAULT), "ciphers", repr(sorted(got)))
    if purpose is SERVER:
        demanded = require
        named = False
    else:
        demanded = Or(verify, require)
        named = verify
    if ctx.verify_mode == ssl.CERT_REQUIRED:
        check(demanded, "verification-only-when-requested")
    else:
        check(Not(demanded), "peer-is-verified", repr(ctx.verify_mode))
    if purpose is CLIENT:
        if ctx.check_hostname:
            check(named, "verification-only-when-requested", "name")
        else:
            check(Not(named), "name-is-verified")


def flags():
    return sym_bool("verify"), sym_bool("require")


def contexts(purpose, ca):
    """every combination of options"""
    verify, require = flags()
    purpose = {"server": SERVER, "client": CLIENT}[purpose]
    lo, hi = pick("range", RANGES)
    ciphers = pick("ciphers", CIPHERS)
    given = pick("cert", ["none", "both", "text"])
    cert = key = None
    if given != "none":
        cert, key = C("server.pem"), C("server.key")
        if given == "text":
            cert, key = str(cert), str(key)
    path = {"none": None, "path": C("ca.pem"), "text": str(C("ca.pem")),
            "missing": C("nothing.pem"), "empty": ""}[ca]
    kw = {}
    if ciphers:
        kw["ciphers"] = ciphers
    if (lo, hi) != (V3, V3):
        kw.update(minimum_version=lo, maximum_version=hi)
    o = SSLOptions(cert, key, path, verify, require, purpose, **kw)
    try:
        ctx = o.create_context()
    except FileNotFoundError:
        check(ca == "missing", "missing-ca-is-an-error")
        cover("missing")
        return
    check(ca != "missing", "missing-ca-is-an-error")
    settings(ctx, purpose, verify, require, lo, hi, ciphers)
    cover("context")
    if ca in ("path", "text"):
        names = [dict(x[0] for x in c["subject"]).get("commonName")
                 for c in ctx.get_ca_certs()]
        check("ca" in names, "ca-is-loaded", repr(names))
    # a second context of the same options is the same
    settings(o.create_context(), purpose, verify, require, lo, hi, ciphers)


# ------------------------------------------------------------- handshakes
def shake(server, client, host="localhost"):
    """both sides' outcome, one message each way included"""
    a, b = ssl.MemoryBIO(), ssl.MemoryBIO()
    s = server.wrap_bio(a, b, server_side=True)
    c = client.wrap_bio(b, a, server_hostname=host)
    state = {}
    got = {}
    for _ in range(12):
        for name, o in (("c", c), ("s", s)):
            if name in state:
                continue
            try:
                o.do_handshake()
                state[name] = "ok"
            except ssl.SSLWantReadError:
                pass
            except ssl.SSLError as e:
                state[name] = repr(e)
    if state == {"c": "ok", "s": "ok"}:
        c.write(b"to server")
        s.write(b"to client")
        for name, o in (("s", s), ("c", c)):
            try:
                got[name] = o.read()
            except ssl.SSLError as e:
                got[name] = repr(e)
    ok = got == {"s": b"to server", "c": b"to client"}
    return ok, "%s %s" % (state, got), c.version() if ok else None, s


def raw(purpose, cert=None, ca=None, lo=V2, hi=V3):
    """a peer which is not the code under test"""
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER if purpose == "server"
                         else ssl.PROTOCOL_TLS_CLIENT)
    ctx.check_hostname = False
    ctx.verify_mode = ssl.CERT_NONE
    ctx.minimum_version, ctx.maximum_version = lo, hi
    if ca:
        ctx.load_verify_locations(C(ca))
        ctx.verify_mode = ssl.CERT_REQUIRED
        ctx.check_hostname = True
    if cert:
        ctx.load_cert_chain(C(cert + ".pem"), C(cert + ".key"))
    return ctx


def same_range(version, theirs, mine, ok):
    common = [v for v in (V2, V3)
              if theirs[0] <= v <= theirs[1] and mine[0] <= v <= mine[1]]
    if version:
        names = {"TLSv1.2": V2, "TLSv1.3": V3}
        check(names.get(version) in common, "protocol-range", version)
    return bool(common)


def judge_server(ctx, require, ca, rng, cert, theirs):
    peer = raw("client", cert, "ca.pem", *theirs)
    ok, detail, version, s = shake(ctx, peer)
    common = same_range(version, theirs, rng, ok)
    trusted = cert == "client" and ca
    if ok:
        check(Or(Not(require), bool(trusted)),
              "client-certificate-is-demanded", "%s: %s" % (cert, detail))
        cover("client-accepted")
        if require:
            check(s.getpeercert() and dict(
                x[0] for x in s.getpeercert()["subject"])["commonName"] ==
                "client", "client-certificate-is-demanded", "not available")
            cover("client-known")
    elif common:
        check(And(require, not trusted), "welcome-client-is-served", detail)
        cover("client-refused")
    else:
        cover("no-common-version")


def judge_client(ctx, verify, require, ca, rng, cert, theirs):
    peer = raw("server", cert, None, *theirs)
    ok, detail, version, _ = shake(peer, ctx)
    common = same_range(version, theirs, rng, ok)
    chain = {"server": "ca", "wrongname": "ca", "rogue": "other"}[cert] == ca
    named = cert != "wrongname"
    fine = And(Or(Not(Or(verify, require)), chain), Or(Not(verify), named))
    if ok:
        check(fine, "server-is-verified", "%s, ca %s" % (cert, ca))
        cover("server-accepted")
    elif common:
        check(Not(fine), "good-server-is-accepted", detail)
        cover("server-refused")
    else:
        cover("no-common-version")


def handshake_server(wide):
    verify, require = flags()
    rng = pick("range", RANGES)
    theirs = pick("theirs", RANGES if wide else [(V2, V3), (V2, V2)])
    ca = pick("ca", ["ca.pem", None])
    cert = pick("cert", ["client", "rogueclient", None])
    ctx = SSLOptions(
        C("server.pem"), C("server.key"), ca and C(ca), verify, require,
        SERVER, minimum_version=rng[0], maximum_version=rng[1],
    ).create_context()
    judge_server(ctx, require, ca, rng, cert, theirs)


def handshake_client(wide):
    verify, require = flags()
    rng = pick("range", RANGES)
    theirs = pick("theirs", RANGES if wide else [(V2, V3), (V2, V2)])
    ca = pick("ca", ["ca", "other", None])
    cert = pick("cert", ["server", "wrongname", "rogue"])
    mine = pick("mine", [None, "client"])
    ctx = SSLOptions(
        mine and C("client.pem"), mine and C("client.key"),
        ca and C(ca + ".pem"), verify, require, CLIENT,
        minimum_version=rng[0], maximum_version=rng[1],
    ).create_context()
    judge_client(ctx, verify, require, ca, rng, cert, theirs)


def both_sides():
    """a server and a client made from options: mutual authentication"""
    require, verify = sym_bool("require"), sym_bool("verify")
    cert = pick("cert", ["server", "rogue", "wrongname"])
    mine = pick("mine", ["client", "rogueclient", None])
    server = SSLOptions(C(cert + ".pem"), C(cert + ".key"), C("ca.pem"),
                        True, require, SERVER).create_context()
    client = SSLOptions(mine and C(mine + ".pem"), mine and C(mine + ".key"),
                        C("ca.pem"), verify, False, CLIENT).create_context()
    ok, detail, _, _ = shake(server, client)
    fine = And(Or(Not(require), mine == "client"),
               Or(Not(verify), cert == "server"))
    if ok:
        check(fine, "mutual-authentication", detail)
        cover("met")
    else:
        check(Not(fine), "good-peers-meet", detail)
        cover("apart")


# --------------------------------------------------------------- services
def prepare():
    net = Network.attach()
    asyncio.get_running_loop().set_default_executor(ThreadPoolExecutor(1))
    return net


def server_service(kind):
    """the options of a service reach the listening socket"""
    threads(free_choice=False)
    verify, require = flags()
    ca = pick("ca", ["ca.pem", None, "nothing.pem"])
    cert = pick("cert", ["client", "rogueclient", None])
    rng, ciphers = (V3, V3), None
    kw = dict(cert=C("server.pem"), key=C("server.key"), verify=verify,
              require_client_cert=require, ca=ca and C(ca))
    if kind == "tls":
        rng = pick("range", RANGES)
        ciphers = pick("ciphers", CIPHERS[:2])
        kw.update(minimum_version=rng[0], maximum_version=rng[1])
        if ciphers:
            kw.update(ciphers=ciphers)

    async def main():
        net = prepare()
        if kind == "tls":
            class S(TLSServer):
                async def handle_client(self, reader, writer):
                    pass
            s = S(address="127.0.0.1", port=4000, **kw)
        else:
            from aiomisc.service.aiohttp import AIOHTTPSSLService as S
            s = S(address="127.0.0.1", port=4000, **kw)
        s.set_loop(asyncio.get_running_loop())
        try:
            await s.start()
        except FileNotFoundError:
            check(ca == "nothing.pem", "missing-ca-is-an-error")
            check(not net.listening, "no-insecure-server")
            cover("missing")
            return
        check(ca != "nothing.pem", "missing-ca-is-an-error")
        check(len(net.listening) == 1, "listens")
        ctx = net.listening[0][2]
        check(isinstance(ctx, ssl.SSLContext), "listens-with-tls", repr(ctx))
        settings(ctx, SERVER, verify, require, *rng, ciphers)
        judge_server(ctx, require, ca, rng, cert, (V2, V3))
        await s.stop()
    return run(main())


def client_service(kind):
    """the options of a client reach the connection"""
    threads(free_choice=False)
    verify = sym_bool("verify")
    ca = pick("ca", ["ca", "other", None])
    cert = pick("cert", ["server", "wrongname", "rogue"])
    fails = choose("fails", 3)
    seen = []

    async def main():
        net = prepare()

        async def connected(host, port, **kw):
            seen.append((host, port, kw))
            if len(seen) <= fails:
                raise ConnectionRefusedError(111, "refused")
        net.connect_hook = connected

        class S(TLSClient if kind == "plain" else RobustTLSClient):
            connect_retry_timeout = 1

            async def handle_connection(self, reader, writer):
                await asyncio.sleep(3)
        host_ = pick("host", ["localhost", "db.example", "192.0.2.4"])
        s = S(host_, 4000, cert=C("client.pem"), key=C("client.key"),
              ca=ca and C(ca + ".pem"), verify=verify)
        s.set_loop(asyncio.get_running_loop())
        t = asyncio.ensure_future(outcome(s.start()))
        await asyncio.sleep(fails + 1.5)
        check(len(seen) == fails + 1, "connects", repr(len(seen)))
        for host, port, kw in seen:
            check((host, port) == (host_, 4000), "connects-there")
            ctx = kw.get("ssl")
            check(isinstance(ctx, ssl.SSLContext), "connects-with-tls",
                  repr(ctx))
            check(kw.get("server_hostname") in (None, host_),
                  "name-is-verified", repr(kw))
            settings(ctx, CLIENT, verify, False, V3, V3, None)
            if host_ == "localhost":
                judge_client(ctx, verify, False, ca, (V3, V3), cert,
                             (V2, V3))
        t.cancel()
        await t
        cover("connected")
    return run(main())


def scenarios(tier):
    wide = tier == "thorough"
    out = []
    for p in "server", "client":
        for ca in "none", "path", "text", "missing", "empty":
            out.append(Scenario(
                "contexts-%s-%s" % (p, ca), contexts,
                dict(purpose=p, ca=ca),
                covers=["missing" if ca == "missing" else "context"]))
    out += [
        Scenario("handshake-server", handshake_server, dict(wide=wide),
                 covers=["client-accepted", "client-refused",
                         "client-known", "no-common-version"]),
        Scenario("handshake-client", handshake_client, dict(wide=wide),
                 covers=["server-accepted", "server-refused",
                         "no-common-version"]),
        Scenario("both-sides", both_sides, {}, covers=["met", "apart"]),
        Scenario("server-tls", server_service, dict(kind="tls"),
                 covers=["missing", "client-accepted", "client-refused"]),
        Scenario("server-aiohttp", server_service, dict(kind="aiohttp"),
                 covers=["missing", "client-accepted", "client-refused"]),
        Scenario("client-plain", client_service, dict(kind="plain"),
                 covers=["connected", "server-accepted", "server-refused"]),
        Scenario("client-robust", client_service, dict(kind="robust"),
                 covers=["connected", "server-accepted", "server-refused"]),
    ]
    return out
