"""Real clients calling real listeners over loopback, directly or through a proxy which splits, delays or cuts the stream."""
import os
import random
import socket
import socketserver
import struct
import threading
import time

import dlib
from dlib import Driver, Log, hx
from names import ODD_NAMES

drv = Driver()
from anthunder import AioClient, AioListener, Client, SockListener, SERVICE_MAP
from mytracer import SpanContext, MyTracer
dlib.fast_loops()
HOLD = dlib.Hold("anthunder", "mysockpool", "mytracer")

socketserver.TCPServer.request_queue_size = 128      # bursts of connections are not what is judged
drv.ready()
TRACER = MyTracer()
PORT = [33000 + (os.getpid() * 41) % 9000]
W = None


def free_port():
    while True:
        PORT[0] = 33000 + (PORT[0] + 1 - 33000) % 9000
        s = socket.socket()
        try:
            s.bind(("127.0.0.1", PORT[0]))
            return PORT[0]
        except OSError:
            continue
        finally:
            s.close()


class World:
    def __init__(self):
        self.log, self.x, self.running = Log(), 0, 0
        self.gates, self.open = {}, False
        self.glock = threading.Lock()
        self.runs = {}

    def gate(self, body):
        with self.glock:
            e = self.gates.setdefault(bytes(body), threading.Event())
            if self.open:
                e.set()
            return e

    def open_all(self):
        with self.glock:
            self.open = True
            for e in self.gates.values():
                e.set()


def result(n, tag, meth, body):
    head = b"%06d|%s|%s|" % (n, tag.encode(), meth.encode())
    if meth == "empty":
        return b""
    if meth == "same":
        return body
    if meth == "big":
        return head + (body + b"~") * (200000 // (len(body) + 1))
    if meth == "rev":
        return head + body[::-1]
    return head + body


def run(tag, iface, ctx, meth, body):
    w = W
    key = "%s|%s|%s" % (iface, meth, hx(body))
    with w.log.lock:
        w.x += 1
        x = w.x
        w.running += 1
        w.runs[key] = w.runs.get(key, 0) + 1
        try:
            c = sorted([str(k), str(v)] for k, v in ctx.baggage.items())
        except Exception as e:
            c = [["broken", repr(e)[:50]]]
        w.log.add("start", x=x, key=key, tag=tag, ctx=c)
    try:
        if meth.startswith("gate"):
            w.gate(body).wait(30)
        elif meth.startswith("s") and meth[1:].isdigit():
            time.sleep(int(meth[1:]) / 1000)
        if meth == "boom":
            w.log.add("fin", x=x, res="!")
            raise ValueError("service fails")
        res = result(x, tag, meth, bytes(body))
        w.log.add("fin", x=x, res=hx(res))
        return res
    finally:
        with w.log.lock:
            w.running -= 1


METHS = ["Echo", "_echo", "echo2", "ECHO", "echo_", "echo", "rev", "empty", "same", "big", "boom", "gate", "s1", "s5", "s20", "s60"]


def service(tag, iface):
    def __init__(self, ctx):
        self.ctx = ctx
    d = dict(__init__=__init__)
    for m in METHS:
        d[m] = (lambda m: lambda self, body: run(tag, iface, self.ctx, m, body))(m)
    return type("Svc", (object,), d)


KINDS = ["aio", "aio", "sock", "sock"]
IFACES = {}          # interface -> (listener, tag)
PORTS = []
CLIENTS = []


def setup():
    for li, kind in enumerate(KINDS):
        port = free_port()
        L = (AioListener if kind == "aio" else SockListener)(("127.0.0.1", port), "app%d" % li)
        for n in "ABP":
            f = "e2e.%d.%s" % (li, n)
            IFACES[f] = (li, "t%d%s" % (li, n))
            L.handler.register_interface(f, service("t%d%s" % (li, n), f))
            SERVICE_MAP[f] = ("127.0.0.1", port)
        # the same name at every listener: only the one it is mapped to may serve it
        L.handler.register_interface("e2e.shared", service("shared%d" % li, "e2e.shared"))
        for i, n in enumerate(ODD_NAMES):
            L.handler.register_interface(n, service("odd%d.%d" % (li, i), n))
        L.run_threading()
        PORTS.append(port)
        end = time.time() + 10
        while True:
            try:
                socket.create_connection(("127.0.0.1", port), 1).close()
                break
            except OSError:
                if time.time() > end:
                    raise
                time.sleep(0.01)
    IFACES["e2e.shared"] = (1, "shared1")
    SERVICE_MAP["e2e.shared"] = ("127.0.0.1", PORTS[1])
    CLIENTS.extend([AioClient("a"), AioClient("b"), Client("c"), Client("d")])
    for k in range(4):
        SERVICE_MAP["e2e.none%d" % k] = ("127.0.0.1", PORTS[k])


class Proxy:
    def __init__(self, port, p, rng):
        self.port, self.p, self.rng = port, p, rng
        self.srv = socket.socket()
        self.srv.bind(("127.0.0.1", 0))
        self.srv.listen(64)
        self.n = 0
        self.socks = []
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                a, _ = self.srv.accept()
            except OSError:
                return
            self.n += 1
            try:
                b = socket.create_connection(("127.0.0.1", self.port), 5)
            except OSError:
                a.close()
                continue
            for s in (a, b):
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.socks += [a, b]
            cut = self.p.get("cut") if self.n <= self.p.get("conns", 1) else None
            for d, x, y in (("up", a, b), ("down", b, a)):
                threading.Thread(target=self.pump, args=(d, x, y, cut if cut and cut[0] == d else None, a, b), daemon=True).start()

    def pump(self, d, x, y, cut, a, b):
        left = cut[1] if cut else None
        sent = 0
        while True:
            try:
                data = x.recv(65536)
            except OSError:
                data = b""
            if not data:
                try:
                    y.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
                return
            while data:
                n = self.p.get("chunk") or len(data)
                if self.p.get("rnd"):
                    n = self.rng.choice([1, 2, 7, 20, 100, 1000, 40000])
                if sent > 3000 and n < 1000:
                    n = 5000
                if left is not None:
                    n = min(n, left)
                if n:
                    try:
                        y.sendall(data[:n])
                    except OSError:
                        return
                    data, sent = data[n:], sent + n
                if left is not None:
                    left -= n
                    if left <= 0:
                        for s in (a, b):
                            try:
                                if cut[2] == "rst":
                                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                                s.shutdown(socket.SHUT_RDWR) if cut[2] == "fin" else None
                                s.close()
                            except OSError:
                                pass
                        return
                if self.p.get("delay") and sent < 2000:
                    time.sleep(self.p["delay"] / 1000)

    def close(self):
        try:
            self.srv.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        for s in self.socks + [self.srv]:
            try:
                s.close()
            except OSError:
                pass


def body_of(q, sid):
    """a label and pseudo-random bytes; equal labels and sizes give equal bodies"""
    lab, n = q["body"]
    return ("%d:%s|" % (sid, lab)).encode() + _fill(n, lab)


def _fill(n, lab):
    if n <= 0:
        return b""
    return random.Random(lab).randbytes(min(n, 4096)) * (n // 4096 + 1) if n > 4096 else random.Random(lab).randbytes(n)


def context(q):
    kind, tr, rid, bag = q.get("ctx") or ["own", "T", "1", []]
    c = SpanContext(sofaTraceId=tr, sofaRpcId=rid, **dict(bag))
    if kind == "child":
        return TRACER.start_span("s", child_of=c).context
    return c


def call(w, q, sid):
    cl = CLIENTS[q["cl"]]
    li, tag = IFACES.get(q["iface"], (None, ""))
    known = li is not None and q["meth"] in METHS
    body = body_of(q, sid)
    ctx = context(q)
    key = "%s|%s|%s" % (q["iface"], q["meth"], hx(body))
    one = q["api"] == "oneway"
    aiosock = q["cl"] < 2 and (q["iface"] == "e2e.none2" or q["iface"] == "e2e.none3" or (li is not None and KINDS[li] == "sock"))
    strict = not q.get("faulty") and not aiosock
    ok = known and q["meth"] != "boom" and not q.get("short")
    w.log.add("call", c=q["c"], key=key, tag=tag if known else "", oneway=one, ok=ok, strict=strict, must=strict and not q.get("short"),
              ctx=sorted([str(k), str(v)] for k, v in ctx.baggage.items()))
    T = q.get("T", 20000)
    kw = dict(spanctx=ctx)
    if q["cl"] < 2 and q.get("extra"):
        kw.update(q["extra"])
    try:
        if one:
            r = cl.invoke_oneway(q["iface"], q["meth"], body, **kw)
            w.log.add("ret", c=q["c"], ok=True, val="none" if r is None else repr(r)[:40])
            return
        if q["api"] == "sync":
            val = cl.invoke_sync(q["iface"], q["meth"], body, timeout_ms=T, **kw)
        else:
            cb = None
            got = threading.Event()
            if q["api"] == "cb":
                def cb(v):
                    w.log.add("cb", c=q["c"], val=hx(v))
                    got.set()
            fut = cl.invoke_async(q["iface"], q["meth"], body, timeout_ms=T, **(dict(kw, callback=cb) if cb else kw))
            val = fut.result(T / 1000 + 2).content
            if cb:
                got.wait(2)
        w.log.add("ret", c=q["c"], ok=True, val=hx(val))
    except BaseException as e:
        w.log.add("ret", c=q["c"], ok=False, val="", exc=repr(e)[:100])


def finish(w, s, ths):
    w.open_all()
    end = time.time() + 40
    for t in ths:
        t.join(max(0.1, end - time.time()))
    calls = [e for e in w.log.ev if e["e"] == "call"]
    need = {}
    for e in calls:
        if e["must"] and e["tag"]:
            need[e["key"]] = need.get(e["key"], 0) + 1

    def settled(ev):
        return all(w.runs.get(k, 0) >= n for k, n in need.items()) and w.running == 0
    end = time.time() + 8
    while not settled(None) and time.time() < end:
        time.sleep(0.005)
    time.sleep(s.get("linger", 0.02))
    end = time.time() + 3
    while w.running and time.time() < end:
        time.sleep(0.005)
    HOLD.off()
    w.log.add("over")
    return dict(cfg={}, ev=w.log.finish())


def scenario(s):
    global W
    w = W = World()
    sid = s["sid"]
    proxies = []
    for p in s.get("proxies", []):
        f = p["iface"]
        px = Proxy(PORTS[IFACES[f][0]], p, random.Random("%s/%s" % (drv.seed, sid)))
        proxies.append(px)
        SERVICE_MAP.pop(f, None)
        SERVICE_MAP[f] = px.srv.getsockname()
    if "odd" in s:
        for i, n in enumerate(ODD_NAMES):
            SERVICE_MAP.pop(n, None)
            SERVICE_MAP[n] = ("127.0.0.1", PORTS[s["odd"]])
            IFACES[n] = (s["odd"], "odd%d.%d" % (s["odd"], i))
    ths = []
    HOLD.arm(s.get("hold"))
    if s["mode"] == "path":
        calls = {q["c"]: q for q in s["calls"]}
        for st in s["steps"]:
            if st[0] == "call":
                t = threading.Thread(target=call, args=(w, calls[st[1]], sid), daemon=True)
                t.start()
                ths.append(t)
                w.log.wait(lambda ev: any(e["e"] == "call" and e["c"] == st[1] for e in ev), 3)
            elif st[0] == "start":
                q = calls[st[1]]
                k = "%s|%s|%s" % (q["iface"], q["meth"], hx(body_of(q, sid)))
                w.log.wait(lambda ev: any(e["e"] == "start" and e["key"] == k for e in ev), 3)
            elif st[0] == "finish":
                w.gate(body_of(calls[st[1]], sid)).set()
            elif st[0] in ("recv", "giveup") and st[1]:
                w.log.wait(lambda ev: any(e["e"] == "ret" and e["c"] == st[1] for e in ev), 5)
    else:
        go = threading.Barrier(len(s["threads"]))

        def f(qs):
            go.wait()
            for q in qs:
                call(w, q, sid)
        for qs in s["threads"]:
            t = threading.Thread(target=f, args=(qs,), daemon=True)
            ths.append(t)
            t.start()
    r = finish(w, s, ths)
    for px in proxies:
        px.close()
    for p in s.get("proxies", []):
        SERVICE_MAP.pop(p["iface"], None)
        SERVICE_MAP[p["iface"]] = ("127.0.0.1", PORTS[IFACES[p["iface"]][0]])
    return r


setup()
drv.run(scenario)
drv.done()
