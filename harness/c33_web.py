"""
C33 -- AIOHTTPService, AIOHTTPSSLService, ASGIHTTPService and UvicornService
with the real aiohttp, aiohttp_asgi and uvicorn on simulated sockets, and
GRPCService with a stand-in for the server of grpcio.  The instants of the
requests, of the stop and of disconnecting clients and the durations of the
handlers are symbolic; what fails and the settings are solver-chosen.
"""
import asyncio
import functools
import logging
import os
import pathlib
import signal
import socket
import ssl

from symx.api import *
from symx.net import FakeSocket, Network, Refused

import aiohttp.abc
import aiohttp.web
import aiohttp.web_response
import grpc
import grpc.aio
import grpc.aio._server
import grpc_reflection.v1alpha.reflection as grpc_reflection
import uvicorn
import uvicorn.config
import uvicorn.server
from aiomisc import ThreadPoolExecutor
from aiomisc.service.aiohttp import AIOHTTPService, AIOHTTPSSLService
from aiomisc.service.asgi import ASGIHTTPService, ASGIHTTPSSLService
from aiomisc.service.grpc_server import GRPCService
from aiomisc.service.uvicorn import UvicornService

BOUNDS = {
    "quick": "2 clients with any instants and durations of their requests, "
             "any instant of the stop and shutdown timeout; one failing "
             "step of 4; uvicorn: 1 client, 3 instants of the stop, 2 "
             "values for each of 30 settings; gRPC: 3 ports, any duration "
             "of the rpcs",
    "thorough": "3 clients; uvicorn: 5 instants of the stop",
}
ASSUMPTIONS = ["aiohttp, aiohttp_asgi, uvicorn and grpcio do what they are "
               "documented to do"]
OUTSIDE = ["the signal handlers uvicorn installs over the entrypoint's ones",
           "uvicorn's startup after start() has returned",
           "port futures made outside of the loop of the service"]

CERTS = pathlib.Path(__file__).parent / "certs"
REQUEST = b"GET /%d HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n"

# the current date is not of interest
aiohttp.web_response.rfc822_formatted_time = lambda: "now"
uvicorn.server.formatdate = lambda *args, **kwargs: "now"
logging.getLogger("aiohttp").setLevel(logging.CRITICAL)
logging.getLogger("aiohttp.access").setLevel(logging.CRITICAL)
logging.getLogger("uvicorn").setLevel(logging.CRITICAL)
logging.getLogger("aiohttp_asgi").setLevel(logging.CRITICAL)


def listen_sock():
    s = FakeSocket()
    s.bind(("127.0.0.1", 4000))
    return s


class World:
    def __init__(self, d):
        self.d = d
        self.phase = "new"
        self.state = {}         # of the request of each client
        self.log = []

    async def work(self, i):
        check(i not in self.state, "handled-exactly-once")
        check(self.phase in ("running", "stopping"),
              "no-handler-after-the-stop", self.phase)
        self.state[i] = "running"
        try:
            await asyncio.sleep(self.d[i])
            self.state[i] = "done"
        except asyncio.CancelledError:
            self.state[i] = "cancelled"
            raise
        check(self.phase in ("running", "stopping"),
              "no-handler-after-the-stop", self.phase)

    def application(self):
        self.log.append("create")
        app = aiohttp.web.Application()

        async def handler(request):
            i = int(request.path[1:])
            await self.work(i)
            return aiohttp.web.Response(text="answer %d" % i)

        async def on_startup(app):
            self.log.append("startup")

        async def on_shutdown(app):
            self.log.append("shutdown")

        async def on_cleanup(app):
            self.log.append("cleanup")
        app.router.add_get("/{x}", handler)
        app.on_startup.append(on_startup)
        app.on_shutdown.append(on_shutdown)
        app.on_cleanup.append(on_cleanup)
        return app

    async def asgi(self, scope, receive, send):
        if scope["type"] == "lifespan":
            while True:
                m = await receive()
                self.log.append(m["type"].split(".")[1])
                await send({"type": m["type"] + ".complete"})
                if m["type"] == "lifespan.shutdown":
                    return
        check(scope["type"] == "http", "scope", repr(scope))
        check(scope["method"] == "GET", "scope", repr(scope))
        i = int(scope["path"][1:])
        await self.work(i)
        body = b"answer %d" % i
        await send({"type": "http.response.start", "status": 200,
                    "headers": [(b"content-length", b"%d" % len(body))]})
        await send({"type": "http.response.body", "body": body,
                    "more_body": False})


def make(kind, world, **kw):
    if kind in ("aiohttp", "aiohttp-ssl"):
        base = AIOHTTPService if kind == "aiohttp" else AIOHTTPSSLService

        class S(base):
            async def create_application(self):
                return world.application()
    else:
        base = ASGIHTTPService if kind == "asgi" else ASGIHTTPSSLService

        class S(base):
            async def create_asgi_app(self):
                world.log.append("create")
                return world.asgi
    if kind.endswith("ssl"):
        kw.setdefault("cert", CERTS / "server.pem")
        kw.setdefault("key", CERTS / "server.key")
        asyncio.get_running_loop().set_default_executor(ThreadPoolExecutor(1))
    svc = S(**kw)
    svc.set_loop(asyncio.get_running_loop())
    return svc


def answered(data, i):
    head, _, body = data.partition(b"\r\n\r\n")
    return head.startswith(b"HTTP/1.1 200") and body == b"answer %d" % i


def requests(kind, n, given=True):
    """clients come and the service is stopped at any time"""
    if kind.endswith("ssl"):
        threads(free_choice=False)
    d = [sym_real("d%d" % i, 0) for i in range(n)]
    at = [sym_real("at%d" % i, 0) for i in range(n)]
    T = sym_real("stop", 0)
    # longer timeouts are rounded up to whole seconds by aiohttp
    timeout = sym_real("timeout", 0, 4, strict=True) if given else 5
    world = World(d)

    async def main():
        net = Network.attach()
        sock = listen_sock()
        kw = dict(shutdown_timeout=timeout) if given else {}
        svc = make(kind, world, sock=sock, **kw)
        check(not net.listening and not world.log, "nothing-before-the-start")
        await svc.start()
        check(world.log[:2] == ["create", "startup"] and len(world.log) == 2,
              "application-is-started-once", repr(world.log))
        check([x[0] for x in net.listening] == [sock],
              "listens-on-the-socket")
        check((net.listening[0][2] is not None) == kind.endswith("ssl"),
              "uses-tls")
        world.phase = "running"
        answers, sent = {}, {}

        async def client(i):
            await asyncio.sleep(at[i])
            try:
                p = net.connect(sock)
            except Refused:
                check(world.phase != "running", "accepts-until-stopped")
                cover("late")
                return
            check(world.phase != "stopped", "accepts-nobody-then")
            await asyncio.sleep(0)
            p.write(REQUEST % i)
            sent[i] = now()
            answers[i] = await p.read_all()
            if answered(answers[i], i):
                check(now() == sent[i] + d[i], "answered-when-done",
                      str(now() - sent[i]))
        tasks = [asyncio.ensure_future(client(i)) for i in range(n)]
        await asyncio.sleep(T)
        t0 = now()
        running = [i for i in sent if world.state.get(i) == "running"]
        finished = [i for i in sent if world.state.get(i) == "done"]
        world.phase = "stopping"
        task = asyncio.ensure_future(svc.stop())
        await settle()
        check(sock.closed and not net.listening, "stops-listening-at-once")
        await task
        took = now() - t0
        await settle()
        world.phase = "stopped"
        check(world.log[2:] == ["shutdown", "cleanup"]
              if kind.startswith("aiohttp") else
              world.log[2:] == ["shutdown"],
              "application-is-stopped-once", repr(world.log))
        check(took <= timeout * 2, "stop-does-not-take-longer", str(took))
        check("running" not in world.state.values(),
              "no-handler-after-the-stop")
        for i in running:
            left = d[i] - (t0 - sent[i])
            if left < timeout:
                check(world.state[i] == "done",
                      "running-requests-get-their-time", world.state[i])
                cover("finished")
            elif left > timeout * 2:
                check(world.state[i] == "cancelled",
                      "overdue-requests-are-cancelled", world.state[i])
                cover("overdue")
        if not running and all(i in finished for i in sent):
            check(took == 0, "stop-waits-for-requests-only", str(took))
        await asyncio.gather(*tasks)
        for i in answers:
            if i in finished or world.state.get(i) == "done":
                check(answered(answers[i], i), "answered-by-the-application",
                      repr(answers[i]))
                cover("answered")
        await asyncio.sleep(100)
        check(len(world.log) <= 4, "application-is-stopped-once",
              repr(world.log))
        cover("stopped")
    return run(main())


def disconnect(kind):
    """the client goes away while its request is handled"""
    d, T = sym_real("d", 0, strict=True), sym_real("gone", 0, strict=True)
    world = World([d])
    how = pick("how", ["default", "on", "off", "kwargs-on", "kwargs-off",
                       "shared-on", "shared-off"])
    # these settings are shared with another service
    shared = {"keepalive_timeout": 75}
    kw = {
        "shared-on": dict(runner_kwargs=shared, handler_cancellation=True),
        "shared-off": dict(runner_kwargs=shared, handler_cancellation=False),
        "default": {}, "on": dict(handler_cancellation=True),
        "off": dict(handler_cancellation=False),
        # the more specific setting
        "kwargs-on": dict(runner_kwargs={"handler_cancellation": True}),
        "kwargs-off": dict(runner_kwargs=[("handler_cancellation", False)]),
    }[how]
    assume(d != T)

    async def main():
        net = Network.attach()
        sock = listen_sock()
        if how.startswith("shared"):
            make(kind, world, sock=sock, runner_kwargs=shared,
                 handler_cancellation=how.endswith("off"))
        svc = make(kind, world, sock=sock, **kw)
        await svc.start()
        world.phase = "running"
        p = net.connect(sock)
        await asyncio.sleep(0)
        p.write(REQUEST % 0)
        await asyncio.sleep(T)
        p.reset()
        await asyncio.sleep(d)
        await settle()
        if d < T:
            check(world.state[0] == "done", "answered-by-the-application")
        elif how.endswith("off"):
            check(world.state[0] == "done", "handler-goes-on-when-asked-to")
            cover("kept")
        else:
            check(world.state[0] == "cancelled",
                  "handler-of-a-gone-client-is-cancelled", world.state[0])
            cover("cancelled")
        await svc.stop()
    return run(main())


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def access_log(kind):
    """every request is logged as asked"""
    how = pick("how", ["default", "format", "class", "off"])
    n = pick("requests", [0, 1, 2])
    world = World([0] * n)
    own = []

    class Own(aiohttp.abc.AbstractAccessLogger):
        def log(self, request, response, time):
            own.append((request.path, response.status))
    kw = {"default": {}, "off": {"access_log": None},
          "format": {"access_log_format": "%s of %r"},
          "class": {"access_log_class": Own}}[how]

    async def main():
        net = Network.attach()
        sock = listen_sock()
        logger = logging.getLogger("aiohttp.access")
        lines = Lines()
        logger.addHandler(lines)
        logger.setLevel(logging.INFO)
        logger.propagate = False
        try:
            svc = make(kind, world, sock=sock, runner_kwargs=kw or None)
            await svc.start()
            world.phase = "running"
            for i in range(n):
                p = net.connect(sock)
                await asyncio.sleep(0)
                p.write(REQUEST % i)
                check(answered(await p.read_all(), i),
                      "answered-by-the-application")
            await settle()
            await svc.stop()
        finally:
            logger.removeHandler(lines)
            logger.setLevel(logging.CRITICAL)
        got = lines.lines
        if how == "class":
            check(own == [("/%d" % i, 200) for i in range(n)],
                  "requests-are-logged-as-asked", repr(own))
        elif how == "off":
            check(not got, "requests-are-logged-as-asked", repr(got))
        else:
            check(len(got) == n, "requests-are-logged-as-asked", repr(got))
        for i in range(len(got)):
            if how == "format":
                check(got[i] == "200 of GET /%d HTTP/1.1" % i,
                      "requests-are-logged-as-asked", got[i])
            else:
                check('"GET /%d HTTP/1.1" 200' % i in got[i] and
                      '"-" "-"' in got[i],
                      "requests-are-logged-as-asked", got[i])
        cover(how)
    return run(main())


def failing(kind):
    """the start fails at some step or is interrupted"""
    step = pick("step", ["create", "startup", "site", "listen", "interrupt",
                         "none", "not-started"])
    T, I = sym_real("startup", 0), sym_real("interrupt", 0)
    if kind.endswith("ssl"):
        threads(free_choice=False)
    world = World([0])

    async def main():
        net = Network.attach()
        sock = listen_sock()
        log = []

        async def on_startup(app):
            await asyncio.sleep(T)
            log.append("startup")
            if step == "startup":
                raise Err("startup")

        async def on_cleanup(app):
            log.append("cleanup")
        base = AIOHTTPService if kind == "aiohttp" else AIOHTTPSSLService

        class S(base):
            async def create_application(self):
                if step == "create":
                    raise Err("create")
                app = aiohttp.web.Application()
                app.on_startup.append(on_startup)
                app.on_cleanup.append(on_cleanup)
                return app

            async def create_site(self):
                if step == "site":
                    raise Err("site")
                return await super().create_site()
        kw = {}
        if kind != "aiohttp":
            asyncio.get_running_loop().set_default_executor(
                ThreadPoolExecutor(1))
            kw = dict(cert=CERTS / "server.pem", key=CERTS / "server.key")
        svc = S(sock=sock, **kw)
        svc.set_loop(asyncio.get_running_loop())
        if step == "listen":
            def no(*args):
                raise OSError(98, "Address already in use")
            net.start_serving = no
        if step != "not-started":
            task = asyncio.ensure_future(svc.start())
            if step == "interrupt":
                await asyncio.sleep(I)
                task.cancel()
            r = await outcome(task)
            if step == "none":
                check(r[0] == "ok", "starts", repr(r))
                r = await outcome(svc.start())
                check(r[0] == "exc" and isinstance(r[1], RuntimeError),
                      "second-start-is-refused", repr(r))
                check(len(net.listening) == 1 and log == ["startup"],
                      "second-start-is-refused", repr(log))
            elif step == "listen":
                check(r[0] == "exc" and isinstance(r[1], OSError),
                      "failure-of-the-start-is-raised", repr(r))
            elif step != "interrupt":
                check(r[0] == "exc" and isinstance(r[1], Err) and
                      r[1].args == (step,),
                      "failure-of-the-start-is-raised", repr(r))
            if r[0] != "ok" and step != "none":
                check(not net.listening, "nothing-listens-after-a-failure")
        task = asyncio.ensure_future(
            svc.stop(*pick("exc", [(), (None,), (Err("stop"),)])))
        r = await outcome(task)
        check(r[0] == "ok", "stops-after-any-start", "%s %r" % (step, r))
        check(not net.listening, "stops-listening-at-once")
        if log[:1] == ["startup"] and step != "startup":
            check(log.count("cleanup") == 1, "application-is-stopped-once",
                  "%s %r" % (step, log))
        cover(step)
    return run(main())


def arguments():
    """what a service can be constructed of"""
    address = pick("address", [None, "", "127.0.0.1", "::1", "localhost"])
    port = pick("port", [None, 0, 4000])
    given = pick("sock", [None, "socket", "string"])
    ctx = pick("class", ["plain", "ssl", "asgi"])

    async def main():
        net = Network.attach()
        sock = {None: None, "socket": listen_sock(), "string": "sock"}[given]
        net.sockets.clear()
        cls = {"plain": AIOHTTPService, "ssl": AIOHTTPSSLService,
               "asgi": ASGIHTTPService}[ctx]
        kw = dict(address=address, port=port, sock=sock)
        if ctx == "ssl":
            kw.update(cert="c", key="k")
        try:
            svc = cls(x=5, **kw)
        except ValueError:
            check(given == "string", "valid-arguments-are-accepted")
            cover("value-error")
            return
        except RuntimeError:
            check(given is None and not (address and port),
                  "valid-arguments-are-accepted", repr(kw))
            cover("runtime-error")
            return
        check(given == "socket" or given is None and address and port,
              "a-socket-or-an-address-is-required", repr(kw))
        check(svc.x == 5, "other-arguments-are-parameters")
        if given == "socket":
            check(not net.sockets, "uses-the-socket-only")
        else:
            s, = net.sockets
            check(s.bound[:2] == (address, port), "bound-as-asked",
                  repr(s.bound))
            check((s.family == socket.AF_INET6) == (address == "::1"),
                  "bound-as-asked")
            svc.set_loop(asyncio.get_running_loop())
            if ctx == "plain":
                await svc.start()
                check([x[0] for x in net.listening] == [s],
                      "listens-on-the-socket")
                await svc.stop()
        cover("made")
    return run(main())


def certificates(kind):
    """the context is the one described by the arguments"""
    threads(free_choice=False)
    require = pick("require", [None, False, True])
    ca = pick("ca", [None, CERTS / "ca.pem"])
    world = World([1])

    async def main():
        net = Network.attach()
        kw = {}
        if require is not None:
            kw["require_client_cert"] = require
        if ca:
            kw["ca"] = ca
        svc = make(kind, world, sock=listen_sock(), **kw)
        await svc.start()
        world.phase = "running"
        c = net.listening[0][2]
        check(isinstance(c, ssl.SSLContext), "uses-tls")
        check((c.verify_mode == ssl.CERT_REQUIRED) == bool(require),
              "client-certificates-are-required-as-asked",
              repr(c.verify_mode))
        check(c.cert_store_stats()["x509"] >= (1 if ca else 0),
              "the-ca-is-used")
        await svc.stop()
        check(not net.listening, "stops-listening-at-once")
        cover("required" if require else "not")
    return run(main())


# ---- uvicorn -----------------------------------------------------------------

async def _notify():
    pass

notify = functools.partial(_notify)

SETTINGS = {
    "host": ["127.0.0.1", "::1", "0.0.0.0"],
    "port": [8080, 4000],
    "http": ["auto", "h11"],
    "ws": ["auto", "none"],
    "ws_max_size": [2 ** 24, 1000],
    "ws_ping_interval": [20.0, 5.0, None],
    "ws_ping_timeout": [20.0, 5.0, None],
    "ws_per_message_deflate": [True, False],
    "lifespan": ["auto", "on", "off"],
    "access_log": [True, False],
    "interface": ["auto", "asgi3"],
    "proxy_headers": [True, False],
    "server_header": [True, False],
    "date_header": [True, False],
    "root_path": ["", "/root"],
    "limit_concurrency": [None, 5],
    "limit_max_requests": [None, 7],
    "backlog": [2048, 5],
    "timeout_keep_alive": [5, 1],
    "timeout_notify": [30, 3],
    "timeout_graceful_shutdown": [None, 9],
    "callback_notify": [None, notify],
    "ssl_version": [uvicorn.config.SSL_PROTOCOL_VERSION,
                    ssl.PROTOCOL_TLS_SERVER],
    "ssl_cert_reqs": [ssl.CERT_NONE, ssl.CERT_REQUIRED],
    "ssl_ciphers": ["TLSv1", "ECDHE"],
    "ssl_keyfile_password": [None, "secret"],
    "ssl_ca_certs": [None, str(CERTS / "ca.pem")],
    "h11_max_incomplete_event_size": [None, 70000],
    "headers": [[], [("x", "y")]],
    "forwarded_allow_ips": [os.environ.get(
        "FORWARDED_ALLOW_IPS", "127.0.0.1"), "192.0.2.1", ["192.0.2.1"]],
    "factory": [False, True],
    "ssl_keyfile": [None, str(CERTS / "server.key")],
    "ssl_certfile": [None, str(CERTS / "server.pem")],
    "uds": [None, "/nonexistent/socket"],
    "fd": [None, 7],
}
# they are bound to, unless there is a socket
WHERE = ["uds", "fd"]


class Recorded:
    """the configurations which are made"""

    def __init__(self):
        self.configs = []
        self.served = []

    def __enter__(self):
        self.init = uvicorn.config.Config.__init__
        me = self

        def init(config, *args, **kwargs):
            me.configs.append(config)
            me.init(config, *args, **kwargs)
        uvicorn.config.Config.__init__ = init
        self.serve = uvicorn.server.Server.serve
        return self

    def __exit__(self, *exc):
        uvicorn.config.Config.__init__ = self.init
        uvicorn.server.Server.serve = self.serve


def uvicorn_settings(how):
    """every setting reaches uvicorn"""
    names = sorted(SETTINGS)
    which = pick("setting", [n for n in names
                             if how == "sock" or n not in WHERE])
    value = pick("value", SETTINGS[which][1:] if how != "default"
                 else SETTINGS[which][:1])

    async def main():
        net = Network.attach()
        sim().os["getpid"] = lambda: 1

        async def app(scope, receive, send):
            pass

        class S(UvicornService):
            async def create_application(self):
                return app
        kw = {}
        if how == "class":
            setattr(S, which, value)
        elif how != "default":
            kw[which] = value
        if how == "sock":
            kw["sock"] = listen_sock()
        svc = S(**kw)
        svc.set_loop(asyncio.get_running_loop())
        with Recorded() as rec:
            async def serve(self, sockets=None):
                rec.served.append((self, sockets))
                self.started = True
                while not self.should_exit:
                    await asyncio.sleep(1)
            uvicorn.server.Server.serve = serve
            await svc.start()
            await settle()
            config, = rec.configs
            (server, sockets), = rec.served
            check(server.config is config, "uses-the-settings")
            check(config.log_config is None, "leaves-the-logging-alone")
            check(config.app is app, "serves-the-application")
            for name in names:
                want = value if name == which else SETTINGS[name][0]
                got = getattr(config, name)
                check(got == want, "setting-reaches-the-server",
                      "%s: %r instead of %r" % (name, got, want))
            s, = sockets
            check([s] == net.sockets, "bound-as-asked")
            check(s.bound == ("127.0.0.1", 4000) if how == "sock" else
                  s.bound[:2] == (config.host, config.port),
                  "bound-as-asked", repr(s.bound))
            await svc.stop()
            check(server.should_exit, "stops")
        cover(how)
    return run(main())


def uvicorn_requests(kind, times, n=1):
    """requests, and the end of the service"""
    d = [sym_real("d%d" % i, 0, 0.3) for i in range(n)]
    at = [sym_real("at%d" % i, 0, 1) for i in range(n)]
    T = pick("stop", times)
    world = World(d)

    async def main():
        net = Network.attach()
        sim().os["getpid"] = lambda: 1

        class S(UvicornService):
            port = 4000
            date_header = False
            http = "h11"
            ws = "none"

            async def create_application(self):
                world.log.append("create")
                check(not net.sockets or kind == "sock",
                      "application-before-listening")

                async def app(scope, receive, send):
                    await world.asgi(scope, receive, send)
                return app
        kw = {}
        if kind == "sock":
            kw["sock"] = listen_sock()
        svc = S(**kw)
        svc.set_loop(asyncio.get_running_loop())
        await svc.start()
        world.phase = "running"
        await settle()
        check(world.log == ["create", "startup"],
              "application-is-started-once", repr(world.log))
        sock, = net.sockets
        check([x[0] for x in net.listening] == [sock],
              "listens-on-the-socket")
        check(sock.bound == ("127.0.0.1", 4000), "bound-as-asked")
        answers = {}

        async def client(i):
            await asyncio.sleep(at[i])
            try:
                p = net.connect(sock)
            except Refused:
                check(world.phase != "running", "accepts-until-stopped")
                return
            check(world.phase != "stopped", "accepts-nobody-then")
            await asyncio.sleep(0)
            p.write(REQUEST % i)
            answers[i] = await p.read_all()
        tasks = [asyncio.ensure_future(client(i)) for i in range(n)]
        await asyncio.sleep(T)
        await settle()
        running = [i for i in world.state if world.state[i] == "running"]
        world.phase = "stopping"
        t0 = now()
        await svc.stop()
        world.phase = "stopped"
        took = now() - t0
        check("running" not in world.state.values(),
              "stop-waits-for-running-requests")
        check(sock.closed and not net.listening, "stops-listening")
        check(world.log == ["create", "startup", "shutdown"],
              "application-is-stopped-once", repr(world.log))
        check(took <= 1, "stop-does-not-take-longer", str(took))
        for i in running:
            check(world.state[i] == "done",
                  "running-requests-get-their-time", world.state[i])
            cover("finished")
        await asyncio.gather(*tasks)
        for i in answers:
            if world.state.get(i) == "done":
                check(answered(answers[i], i), "answered-by-the-application",
                      repr(answers[i]))
                cover("answered")
        cover("stopped")
    return run(main())


def uvicorn_failing():
    """the application can't be created"""
    step = pick("step", ["create", "config", "none", "not-started"])
    T = sym_real("T", 0)

    async def main():
        net = Network.attach()
        sim().os["getpid"] = lambda: 1

        async def app(scope, receive, send):
            raise ValueError

        class S(UvicornService):
            async def create_application(self):
                await asyncio.sleep(T)
                if step == "create":
                    raise Err("create")
                return app
        svc = S(**({"interface": "auto", "ssl_keyfile": "absent",
                    "ssl_certfile": "absent"} if step == "config" else {}))
        svc.set_loop(asyncio.get_running_loop())
        if step != "not-started":
            r = await outcome(svc.start())
            if step == "create":
                check(r[0] == "exc" and isinstance(r[1], Err),
                      "failure-of-the-start-is-raised", repr(r))
                check(not net.sockets, "nothing-listens-after-a-failure")
        if step != "config":
            r = await outcome(svc.stop())
            check(r[0] == "ok", "stops-after-any-start", "%s %r" % (step, r))
        check(not net.listening, "stops-listening")
        cover(step)
    return run(main())


# ---- grpc --------------------------------------------------------------------

class Rpc(grpc.ServiceRpcHandler):
    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, other):
        return self is other

    def service_name(self):
        return self.name

    def service(self, details):
        return None


class FakeServer(grpc.aio.Server):
    """records what is done to it"""

    def __init__(self, *args):
        (self.pool, self.handlers, self.interceptors, self.options,
         self.maximum, self.compression) = args
        self.generic = list(self.handlers)
        self.methods = {}
        self.ports = []
        self.state = "new"
        self.grace = None
        FakeServer.made.append(self)

    def add_generic_rpc_handlers(self, handlers):
        check(self.state == "new", "handlers-before-the-start")
        self.generic += handlers

    def add_registered_method_handlers(self, name, handlers):
        check(self.state == "new", "handlers-before-the-start")
        self.methods.setdefault(name, {}).update(handlers)

    def add_insecure_port(self, address):
        return self.add_secure_port(address, None)

    def add_secure_port(self, address, credentials):
        check(self.state == "new", "ports-before-the-start")
        if address.startswith("busy"):
            raise RuntimeError("Failed to bind to address " + address)
        self.ports.append((address, credentials))
        return 50000 + int(address.rpartition(":")[2])

    async def start(self):
        check(self.state == "new", "started-once")
        self.state = "started"

    async def stop(self, grace):
        self.grace = grace
        was, self.state = self.state, "stopping"
        if was == "started":
            await asyncio.sleep(smin(FakeServer.rpcs, grace))
        self.state = "stopped"

    async def wait_for_termination(self, timeout=None):
        pass


class Grpc:
    def __enter__(self):
        self.old = grpc.aio._server.Server
        grpc.aio._server.Server = FakeServer
        self.enable = grpc_reflection.enable_server_reflection
        self.reflected = []

        def enable(names, *args, **kwargs):
            names = list(names)
            self.reflected += names
            return self.enable(names, *args, **kwargs)
        grpc_reflection.enable_server_reflection = enable
        FakeServer.made = []
        FakeServer.rpcs = 0
        return self

    def __exit__(self, *exc):
        grpc.aio._server.Server = self.old
        grpc_reflection.enable_server_reflection = self.enable


def grpc_settings():
    """everything reaches the server before it is started"""
    options = pick("options", [None, [("grpc.so_reuseport", 0)]])
    interceptors = pick("interceptors", [None, ["interceptor"]])
    maximum = pick("maximum", [None, 5])
    compression = pick("compression", [None, grpc.Compression.Gzip])
    given = pick("handlers", [None, [Rpc("given")]])
    pool = pick("pool", [None, "pool"])
    reflect = choose("reflection", 2)
    added = pick("added", [0, 1, 2])
    registered = pick("registered", [0, 1, 2])

    async def main():
        with Grpc() as world:
            kw = {k: v for k, v in dict(
                options=options, interceptors=interceptors,
                maximum_concurrent_rpcs=maximum, compression=compression,
                handlers=given, migration_thread_pool=pool,
                reflection=bool(reflect) or None).items() if v is not None}
            svc = GRPCService(x=5, **kw)
            check(svc.x == 5, "other-arguments-are-parameters")
            more = [Rpc("added%d" % i) for i in range(added)]
            if more:
                svc.add_generic_rpc_handlers(more[:1])
                svc.add_generic_rpc_handlers(tuple(more[1:]))
            want = {}
            for i in range(registered):
                for part in ({"a%d" % i: 1}, {"b": i}):
                    svc.add_registered_method_handlers("s%d" % i, part)
                    want.setdefault("s%d" % i, {}).update(part)
            svc.set_loop(asyncio.get_running_loop())
            await svc.start()
            s, = FakeServer.made
            check(s.state == "started", "starts")
            check(s.options == (options or ()) and
                  s.interceptors == (interceptors or ()) and
                  s.maximum == maximum and s.compression is compression and
                  s.pool == pool, "setting-reaches-the-server")
            own = [h for h in s.generic if isinstance(h, Rpc)]
            check(sorted(h.name for h in own) == sorted(
                h.name for h in (given or []) + more),
                "every-handler-is-served", repr(own))
            check(s.methods == want or reflect and
                  {k: v for k, v in s.methods.items() if "." not in k}
                  == want, "every-method-is-served", repr(s.methods))
            names = [h.service_name() for h in s.generic
                     if not isinstance(h, Rpc)]
            check((grpc_reflection.SERVICE_NAME in names) == bool(reflect),
                  "reflection-as-asked", repr(names))
            check(sorted(world.reflected) == (sorted(
                [h.name for h in more] + [grpc_reflection.SERVICE_NAME])
                if reflect else []), "reflection-as-asked",
                repr(world.reflected))
            await svc.stop()
            check(s.state == "stopped", "stops")
            cover("reflection" if reflect else "plain")
    return run(main())


def grpc_ports(n):
    """ports, those which wait for them, and the stop"""
    kinds = [pick("port%d" % i, ["insecure", "secure", "unix", "busy"])
             for i in range(n)]
    waits = [pick("wait%d" % i, ["wait", "give-up", "ignore"])
             for i in range(n)]
    rpcs = sym_real("rpcs", 0)
    grace = pick("grace", [None, "class"])
    g = sym_real("g", 0)

    async def main():
        with Grpc():
            FakeServer.rpcs = rpcs

            class S(GRPCService):
                pass
            if grace:
                S.GRACEFUL_STOP_TIME = g
            svc = S()
            svc.set_loop(asyncio.get_running_loop())
            futures, want = [], []
            for i, kind in enumerate(kinds):
                if kind == "insecure":
                    f = svc.add_insecure_port("[::]:%d" % i)
                    want.append(("[::]:%d" % i, None))
                elif kind == "unix":
                    f = svc.add_insecure_port("unix:/No/Such:%d" % i)
                    want.append(("unix:/No/Such:%d" % i, None))
                elif kind == "secure":
                    f = svc.add_secure_port("localhost:%d" % i, "cred%d" % i)
                    want.append(("localhost:%d" % i, "cred%d" % i))
                else:
                    f = svc.add_insecure_port("busy:%d" % i)
                futures.append(f)
            waiters = {}
            for i, w in enumerate(waits):
                if w == "ignore":
                    continue

                async def waiter(f=futures[i]):
                    return await f
                waiters[i] = asyncio.ensure_future(waiter())
            await settle()
            for i, w in enumerate(waits):
                if w == "give-up":
                    waiters[i].cancel()
            await settle()
            r = await outcome(svc.start())
            await settle()
            s, = FakeServer.made
            if "busy" in kinds:
                check(r[0] == "exc" and isinstance(r[1], RuntimeError) and
                      "bind" in str(r[1]),
                      "failure-of-the-start-is-raised", repr(r))
                check(s.state == "new", "nothing-listens-after-a-failure")
                cover("busy")
            else:
                check(r[0] == "ok", "starts", repr(r))
                check(s.state == "started", "starts")
                check(sorted(s.ports) == sorted(want),
                      "listens-on-every-port", repr(s.ports))
                for i in range(n):
                    if waits[i] == "wait":
                        check(waiters[i].done() and
                              waiters[i].result() == 50000 + i,
                              "the-port-is-told", repr(waiters[i]))
                        cover("told")
                    elif waits[i] == "ignore":
                        check(futures[i].done() and
                              futures[i].result() == 50000 + i,
                              "the-port-is-told", repr(futures[i]))
            t0 = now()
            r = await outcome(svc.stop())
            check(r[0] == "ok", "stops-after-any-start", repr(r))
            check(s.state == "stopped", "stops")
            if "busy" not in kinds:
                limit = g if grace else 60
                check(s.grace == limit, "running-requests-get-their-time",
                      str(s.grace))
                check(now() - t0 == smin(rpcs, limit),
                      "stop-waits-for-running-requests", str(now() - t0))
            for i in range(n):
                if waits[i] == "wait":
                    check(waiters[i].done(), "nobody-waits-forever",
                          kinds[i])
                    if not waiters[i].cancelled():
                        waiters[i].exception()
            cover("stopped")
    return run(main())


def scenarios(tier):
    deep = tier == "thorough"
    n = 3 if deep else 2
    out = [
        Scenario("aiohttp", requests, dict(kind="aiohttp", n=n),
                 ["stopped", "answered", "late", "finished", "overdue"]),
        Scenario("aiohttp-default", requests,
                 dict(kind="aiohttp", n=1, given=False),
                 ["stopped", "answered", "finished", "overdue"]),
        Scenario("aiohttp-ssl", requests, dict(kind="aiohttp-ssl", n=1),
                 ["stopped", "answered", "finished", "overdue"]),
        Scenario("asgi", requests, dict(kind="asgi", n=n),
                 ["stopped", "answered", "finished", "overdue"]),
        Scenario("asgi-ssl", requests, dict(kind="asgi-ssl", n=1),
                 ["stopped", "answered", "finished", "overdue"]),
        Scenario("disconnect", disconnect, dict(kind="aiohttp"),
                 ["kept", "cancelled"]),
        Scenario("disconnect-asgi", disconnect, dict(kind="asgi"),
                 ["kept", "cancelled"]),
        Scenario("access-log", access_log, dict(kind="aiohttp"),
                 ["default", "format", "class", "off"]),
        Scenario("access-log-asgi", access_log, dict(kind="asgi"),
                 ["default", "format", "class", "off"]),
        Scenario("failing", failing, dict(kind="aiohttp"),
                 ["create", "startup", "site", "listen", "interrupt",
                  "none", "not-started"]),
        Scenario("failing-ssl", failing, dict(kind="aiohttp-ssl"),
                 ["create", "startup", "site", "listen", "interrupt",
                  "none", "not-started"]),
        Scenario("arguments", arguments, {},
                 ["value-error", "runtime-error", "made"]),
        Scenario("certificates", certificates, dict(kind="aiohttp-ssl"),
                 ["required", "not"]),
        Scenario("certificates-asgi", certificates, dict(kind="asgi-ssl"),
                 ["required", "not"]),
        Scenario("uvicorn", uvicorn_requests,
                 dict(kind="address", times=[0, 0.05, 0.55]
                      + [0.3, 0.8] * deep),
                 ["stopped", "answered", "finished"]),
        Scenario("uvicorn-sock", uvicorn_requests,
                 dict(kind="sock", times=[0.25]),
                 ["stopped", "answered", "finished"]),
        Scenario("uvicorn-failing", uvicorn_failing, {},
                 ["create", "config", "none", "not-started"]),
        Scenario("grpc-settings", grpc_settings, {},
                 ["reflection", "plain"]),
        Scenario("grpc-ports", grpc_ports, dict(n=3 if deep else 2),
                 ["busy", "told", "stopped"]),
    ]
    for how in ("default", "class", "argument", "sock"):
        out.append(Scenario("uvicorn-by-" + how, uvicorn_settings,
                            dict(how=how), [how]))
    return out
