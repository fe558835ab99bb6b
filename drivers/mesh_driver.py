"""Drives the real mesh client, the listeners' publication and the clients' subscription against an HTTP stub."""
import asyncio
import fcntl
import json
import os
import socket
import struct
import threading
import time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

import dlib
from dlib import Driver, Log
import wire

os.environ["VERIF_LOOP"] = "std"  # whose dialling can be observed
drv = Driver()
LOCK = open("/tmp/verif-mesh-port.lock", "a")
fcntl.flock(LOCK, fcntl.LOCK_EX)
import anthunder
from anthunder import SERVICE_MAP, AioClient, AioListener, Client, SockListener
from anthunder.mesh.mesh_client import ApplicationInfo, MeshClient, ProviderMetaInfo, PublishServiceRequest
from mytracer import SpanContext
dlib.fast_loops()

drv.ready()


def canon(o):
    return json.dumps(o, sort_keys=True)


class Stub:
    log = None
    n = 0
    plan = {}      # <path, service or app> -> list of answers
    seen = []
    lock = threading.RLock()
    server = None
    conns = set()


ANSWERS = {
    "good": (200, b'{"success": true}'), "goodx": (200, b'{"success": true, "errorMessage": "warn", "x": [1]}'),
    "500": (500, b'{"success": true}'), "404": (404, b"not found"), "201": (201, b'{"success": true}'),
    "503": (503, b""), "202": (202, b'{"success": true}'), "400": (400, b'{"success": true}'),
    "false": (200, b'{"success": false, "errorMessage": "no"}'), "falsebare": (200, b'{"success": false}'),
    "missing": (200, b"{}"), "null": (200, b'{"success": null}'), "nonjson": (200, b"ok"), "list": (200, b"[]"),
    "empty": (200, b""), "str": (200, b'{"success": "true"}'), "one": (200, b'{"success": 1}'),
    "strfalse": (200, b'{"success": "false"}'), "jnull": (200, b"null"), "error": (200, b'{"errorMessage": "x"}')}


class H(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def setup(self):
        super().setup()
        self.connection.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        with Stub.lock:
            Stub.conns.add(self.connection)

    def handle(self):
        try:
            super().handle()
        except OSError:
            pass
        with Stub.lock:
            Stub.conns.discard(self.connection)

    def any(self):
        body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
        path = self.path.lstrip("/")
        try:
            o = json.loads(body)
            key = path + "|" + str(o.get("serviceName", o.get("appName", "")) if isinstance(o, dict) else "")
            data = canon(o)
        except ValueError:
            key, data = path + "|", "raw:" + repr(body)
        if self.command != "POST":
            path = self.command + " " + path
        with Stub.lock:
            Stub.n += 1
            pid = Stub.n
            log = Stub.log
            q = Stub.plan.get(key) or [["good", 0]]
            kind, delay = q.pop(0) if len(q) > 1 else q[0]
            log.add("post", id=pid, path=path, data=data)
            Stub.seen.append((path, o.get("serviceName") if isinstance(o, dict) else None))
        if delay:
            time.sleep(delay / 1000)
        good = kind in ("good", "goodx")
        log.add("ans", id=pid, good=good)
        if kind == "reset":
            self.close_connection = True
            try:
                self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                self.connection.close()
            except OSError:
                pass
            return
        if kind == "hang up":
            self.close_connection = True
            return
        st, b = ANSWERS[kind]
        self.send_response(st)
        self.send_header("Content-Length", str(len(b)))
        self.send_header("Content-Type", "application/json")
        self.end_headers()
        self.wfile.write(b)

    do_POST = do_GET = do_PUT = do_DELETE = do_PATCH = do_HEAD = any


class Srv(ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 100

    def handle_error(self, *a):
        pass


def up():
    if Stub.server is None:
        end = time.time() + 60
        while True:
            try:
                Stub.server = Srv(("127.0.0.1", 13330), H)
                break
            except OSError:
                if time.time() > end:
                    raise
                time.sleep(0.05)
        threading.Thread(target=Stub.server.serve_forever, kwargs=dict(poll_interval=0.02), daemon=True).start()


def down():
    if Stub.server is not None:
        Stub.server.shutdown()
        Stub.server.server_close()
        Stub.server = None
        with Stub.lock:
            cs, Stub.conns = Stub.conns, set()
        for c in cs:
            try:
                c.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass


class Svc(object):
    def __init__(self, ctx):
        pass


def run_mesh(s):
    log = Log()
    Stub.log, Stub.plan, Stub.n, Stub.seen = log, json.loads(json.dumps(s["plan"])), 0, []
    objs = {}

    def make(o):
        a = o["a"]
        if o["what"] == "mesh":
            return MeshClient(ApplicationInfo(*a, **o.get("kw", {})))
        if o["what"] in ("aiol", "sockl"):
            port = wire.free_port()
            o["port"] = port
            L = (AioListener if o["what"] == "aiol" else SockListener)(("127.0.0.1", port), *a, **o.get("kw", {}))
            for i in o["infs"]:
                L.handler.register_interface(i, Svc)
            return L
        return (AioClient if o["what"] == "aioc" else Client)(*a, **o.get("kw", {}))

    def want(o):
        """what the operation has to send: from the scenario and the port"""
        w = o.get("want") or []
        port = s["objs"][o["cl"]].get("port")
        res = []
        for path, d in w:
            d = json.loads(json.dumps(d))
            if d.get("port") == "@":
                d["port"] = str(port)
            res.append([path, canon(d)])
        return res

    def op(o, refused):
        x = objs.get(o["cl"])
        with log.lock:
            log.add("call", op=o["op"], k=o["k"], cl=o["cl"], want=want(o))
            if refused:
                log.add("refused", op=o["op"])
        ok = True
        try:
            if o["k"] == "ctor":
                objs[o["cl"]] = make(s["objs"][o["cl"]])
            elif o["k"] == "startup":
                x.startup()
            elif o["k"] in ("subscribe", "unsubscribe", "unpublish"):
                getattr(x, o["k"])(o["svc"])
            elif o["k"] == "publish":
                m = o["want"][0][1]["providerMetaInfo"]
                r = o["want"][0][1]
                kw = {k: r[k] for k in ("protocolType", "onlyPublishInCloud") if k in o.get("set", [])}
                x.publish(PublishServiceRequest(r["serviceName"], ProviderMetaInfo(**m), r["port"], **kw))
            elif o["k"] == "lpublish":
                x.publish()
            elif o["k"] == "lunpublish":
                x.unpublish()
        except Exception:
            ok = False
        log.add("ret", op=o["op"], ok=ok)

    for o in s["objs"].values():
        if o["what"] == "mesh":
            pass
    for k, o in s["objs"].items():
        if o["what"] == "mesh":
            objs[k] = make(o)
    isdown = False
    for ph in s["phases"]:
        if isinstance(ph, str):
            isdown = ph == "down"
            down() if isdown else up()
            continue
        if not isdown:
            up()
        if len(ph) == 1:
            op(ph[0], isdown)
            continue
        # one thread per chain of operations
        bar = threading.Barrier(len(ph))

        def chain(os_):
            bar.wait(10)
            for o in os_:
                op(o, isdown)
        ts = [threading.Thread(target=chain, args=(o if isinstance(o, list) else [o],), daemon=True) for o in ph]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
            if t.is_alive():
                time.sleep(10 ** 6)  # reported as a hang
    ev = log.finish()
    for o in objs.values():
        if isinstance(o, SockListener):
            o.server.server_close()
    up()
    return dict(cfg=dict(none=0), ev=ev)


CL = {}


def client(kind, mesh):
    if (kind, mesh) not in CL:
        name = "rt-%s-%s" % (kind, mesh)
        Stub.plan = {"configs/application|" + name: [["good" if mesh else "500", 0]]}
        Stub.log = Log()
        raised = False
        try:
            CL[kind, mesh] = (AioClient if kind == "aio" else Client)(name)
        except Exception:
            raised = True
            CL[kind, mesh] = None
    return CL[kind, mesh]


class Dial:
    """Watches which addresses are dialled, and lets every dialling fail."""
    seen = None
    thread = None


def _connect(self, address, plain=socket.socket.connect):
    if Dial.seen is None or threading.get_ident() != Dial.thread:
        return plain(self, address)
    Dial.seen.append(tuple(address[:2]))
    raise ConnectionRefusedError("nobody there")


async def _create_connection(self, factory, host=None, port=None, *a, _plain=asyncio.BaseEventLoop.create_connection, **kw):
    if Dial.seen is None:
        return await _plain(self, factory, host, port, *a, **kw)
    Dial.seen.append((host, port))
    raise ConnectionRefusedError("nobody there")


socket.socket.connect = _connect
asyncio.BaseEventLoop.create_connection = _create_connection


def where(a):
    return "mesh" if tuple(a) == ("127.0.0.1", 12220) else "h:" + a[0] if a[1] == 12200 and a[0] != "10.9.8.7" \
        else "t:%d" % a[1] if a[0] == "10.9.8.7" else repr(a)


def dial(c, i, how):
    """The address which a call of interface i really dials."""
    Dial.seen, Dial.thread = [], threading.get_ident()
    err = None
    try:
        ctx = SpanContext(sofaTraceId="t", sofaRpcId="0")
        if how == "oneway":
            f = c.invoke_oneway(i, "m", b"", spanctx=ctx)
        elif how == "async" and isinstance(c, AioClient):
            f = c.invoke_async(i, "m", b"", spanctx=ctx, timeout_ms=4000)
        else:
            f = c.invoke_sync(i, "m", b"", spanctx=ctx, timeout_ms=4000)
        if hasattr(f, "result"):
            f.result(8)
        t = time.monotonic() + 6
        while not Dial.seen and time.monotonic() < t:
            time.sleep(.001)
    except Exception as e:
        err = e
    seen, Dial.seen = list(dict.fromkeys(where(a) for a in Dial.seen)), None
    if len(seen) > 1 and "mesh" in seen:
        seen.remove("mesh")  # a heartbeat's
    return seen[0] if len(seen) == 1 else "dialled %r, raised %s" % (seen, type(err).__name__)


def run_routing(s):
    up()
    log = Log()
    dict.clear(SERVICE_MAP)
    for k, mesh in (("aio", True), ("sock", True), ("aio", False), ("sock", False)):
        first = (k, mesh) not in CL
        c = client(k, mesh)
        if c is None or first:
            log.add("new", raised=c is None)
        if c is None:
            return dict(cfg=dict(none=0), ev=log.finish())
    for st in s["steps"]:
        if st[0] == "set":
            a = st[2]
            ok = True
            try:
                SERVICE_MAP[st[1]] = a[2:] if a.startswith("h:") else ("10.9.8.7", int(a[2:]))
            except KeyError:
                ok = False
            log.add("set", i=st[1], a=a, ok=ok)
        elif st[0] in ("sub", "unsub"):
            c = client(st[1], st[2])
            path = "services/subscribe" if st[0] == "sub" else "services/unsubscribe"
            plan = {}
            for inf, a in zip(st[3], st[4]):
                plan.setdefault(path + "|" + inf, []).append([a, 0])
            Stub.plan, Stub.log, Stub.seen = plan, Log(), []
            raised = False
            try:
                (c.subscribe if st[0] == "sub" else c.unsubscribe)(*st[3])
            except Exception:
                raised = True
            posts = [v if p == path else "?" + p for p, v in Stub.seen]
            log.add(st[0], mesh=st[2], infs=st[3], good=[a in ("good", "goodx") for a in st[4]], raised=raised, posts=posts)
        elif st[0] == "get":
            for n, i in enumerate(st[2]):
                c = client(*st[1])
                if hasattr(c, "_get_address"):
                    try:
                        a = where(c._get_address(i))
                    except Exception as e:
                        a = "raised " + type(e).__name__
                    log.add("get", i=i, a=a)
                if n < 8:
                    log.add("get", i=i, a=dial(c, i, ("sync", "oneway", "async")[n % 3]))
    dict.clear(SERVICE_MAP)
    return dict(cfg=dict(none=0), ev=log.finish())


def run(s):
    return run_mesh(s) if s["do"] == "mesh" else run_routing(s)


drv.run(run)
drv.done()
