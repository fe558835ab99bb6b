"""Drives clients attached to a mesh and records their heartbeats.  Their event loops run on a clock which is K times
as fast as the real one (K=1: real time)."""
import asyncio
import fcntl
import json
import os
import selectors
import socket
import struct
import threading
import time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

from dlib import Driver, Log, hx
import wire

drv = Driver()
K = float(os.environ.get("VERIF_HB_SPEED", "30"))
LOCK = open("/tmp/verif-mesh-port.lock", "a")
fcntl.flock(LOCK, fcntl.LOCK_EX)


class FastSelector(selectors.DefaultSelector):
    def select(self, timeout=None):
        return super().select(timeout / K if timeout and timeout > 0 else timeout)


class FastLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        super().__init__(FastSelector())

    def time(self):
        return time.monotonic() * K


class FastPolicy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        l = FastLoop()
        LOOPS.append(l)
        return l


LOOPS = []
from anthunder import SERVICE_MAP, AioClient
from anthunder.exceptions import ServerError
from mytracer import SpanContext

asyncio.set_event_loop_policy(FastPolicy())
drv.ready()


class H(BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def do_POST(self):
        self.rfile.read(int(self.headers.get("Content-Length") or 0))
        b = b'{"success": true}'
        self.send_response(200)
        self.send_header("Content-Length", str(len(b)))
        self.end_headers()
        self.wfile.write(b)


class Mesh(ThreadingHTTPServer):
    allow_reuse_address = True
    daemon_threads = True


for _ in range(100):
    try:
        mesh = Mesh(("127.0.0.1", 13330), H)
        break
    except OSError:
        time.sleep(0.1)
threading.Thread(target=mesh.serve_forever, daemon=True).start()


class HLog(Log):
    def now(self):
        return int((time.monotonic() - self.t0) * 1000 * K)


class Peer:
    """the server at a client's mesh address: answers heartbeats as planned"""

    def __init__(self, log, port, plan):
        self.log, self.plan = log, list(plan)
        self.n = 0
        self.conns = {}
        self.pending = {}
        self.port = port
        self.nhb = 0
        self.listen()
        self.port = self.ls.getsockname()[1]

    def listen(self):
        while True:
            try:
                self.ls = socket.socket()
                self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                self.ls.bind(("127.0.0.1", self.port))
                self.ls.listen(50)
                break
            except OSError:
                self.ls.close()
                time.sleep(0.05)
        threading.Thread(target=self.main, args=(self.ls,), daemon=True).start()

    def main(self, ls):
        while True:
            try:
                s, _ = ls.accept()
            except OSError:
                return
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.n += 1
            self.conns[self.n] = s
            self.log.add("acc", n=self.n, a=1)
            threading.Thread(target=self.reader, args=(self.n, s), daemon=True).start()

    def reader(self, n, s):
        p = wire.Parser("req")
        while True:
            try:
                d = s.recv(65536)
            except OSError:
                d = b""
            if not d:
                if self.conns.pop(n, None):
                    time.sleep(0.01)
                    self.log.add("cclose", n=n)
                    s.close()
                return
            for f in p.feed(d):
                if f["cmd"] == 0:
                    self.heartbeat(n, s, f)
                    continue
                try:
                    h = wire.dec_map(f["header"])
                    k = int(h["sofa_head_method_name"][1:])
                except (ValueError, KeyError):
                    self.log.add("junk", n=n, what=repr(f)[:100])
                    continue
                self.log.add("req", n=n, k=k, id=f["id"], ty=f["ptype"], cmd=f["cmd"], intact=f["content"] == b"b%d" % k)
                self.pending[k] = (n, s, f["id"])

    def answer(self, k):
        n, s, rid = self.pending.pop(k)
        body = b"r%d" % k
        self.log.add("resp", n=n, id=rid, st=0, body=hx(body), form="ok")
        try:
            s.sendall(wire.response(rid, body))
        except OSError:
            pass

    def heartbeat(self, n, s, f):
        form = f["sane"] and f["ptype"] == 1 and f["header"] == b"" and f["content"] == b"" and f["cls"] == b""
        self.log.add("hbreq", n=n, id=f["id"], form=bool(form))
        self.nhb += 1
        act = self.plan.pop(0) if self.plan else "ok"
        rid = f["id"]
        if act == "none":
            return
        self.log.add("hbend", act=act)
        try:
            if act == "ok":
                s.sendall(wire.response(rid, b"", status=0, cmd=0, cls=b""))
            elif act.startswith("st"):
                s.sendall(wire.response(rid, b"", status=int(act[2:]), cmd=0, cls=b""))
            elif act == "badst":
                s.sendall(wire.response(rid, b"", status=99, cmd=0, cls=b""))
            elif act == "badhdr":
                s.sendall(wire.response(rid, b"", cmd=0, cls=b"", header=b"\0\0\0\1x"))
            elif act in ("fin", "rst", "down"):
                self.drop(n, s, "fin" if act == "down" else act)
                if act == "down":
                    self.ls.shutdown(socket.SHUT_RDWR)
                    self.ls.close()

                    def up():
                        time.sleep(75 / K)
                        self.log.add("hbup")
                        self.listen()
                    threading.Thread(target=up, daemon=True).start()
        except OSError:
            pass

    def drop(self, n, s, how):
        self.log.add("lose", n=n, how=how)
        if how == "rst":
            self.conns.pop(n, None)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close()
        else:
            s.shutdown(socket.SHUT_WR)


def run_one(s):
    log = HLog()
    peer = Peer(log, s.get("port", 0), s["plan"])
    cls = AioClient
    if peer.port != 12220:
        cls = type("MeshedClient", (AioClient,), dict(mesh_service_address=("127.0.0.1", peer.port)))
    log.add("hbstart")
    n = len(LOOPS)
    client = cls("app%d" % s["sid"])
    loop = LOOPS[-1] if len(LOOPS) > n else client._loop
    if getattr(client, "_mesh_client", 1) is None:
        raise SystemExit("mesh stub not reached")
    k = 0
    calls = []

    def call():
        nonlocal k
        k += 1
        me = k
        log.add("call", k=me, kind="async", a=1, T=0, enc=True)

        def done(f):
            try:
                r = f.result(0)
                log.add("ret", k=me, ok=True, body=hx(r.content), srv=False, to=False, val="bytes", named=[], exc="")
            except BaseException as e:
                log.add("ret", k=me, ok=False, body="", srv=isinstance(e, ServerError), to=False, val="", named=[],
                        exc=repr(e)[:60])
        f = client.invoke_async("hbsvc", "m%d" % me, b"b%d" % me, spanctx=SpanContext())
        f.add_done_callback(done)
        calls.append(me)
        return me

    if s.get("calls"):
        call()               # stays unanswered until the end, whatever happens to the heartbeats
    end = time.monotonic() + s["length"] / K
    seen = 0
    while time.monotonic() < end:
        time.sleep(0.3)
        if s.get("calls"):
            # ... and others are answered between the heartbeats
            if peer.nhb > seen:
                seen = peer.nhb
                me = call()
                if log.wait(lambda ev: me in peer.pending, 3):
                    peer.answer(me)
    log.add("hbstop")
    for me in sorted(peer.pending):
        peer.answer(me)
    log.wait(lambda ev: {e["k"] for e in ev if e["e"] == "ret"} >= set(calls), 8)
    log.add("quiet")
    ev = log.finish()
    loop.call_soon_threadsafe(loop.stop)
    peer.ls.close()
    for c in list(peer.conns.values()):
        try:
            c.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
    return dict(cfg=dict(client="mesh"), ev=ev)


res = {}


def go(s):
    res[s["sid"]] = run_one(s)


ts = [threading.Thread(target=go, args=(s,)) for s in drv.scenarios]
for t in ts:
    t.start()
    time.sleep(0.05)
for t in ts:
    t.join()
drv.run(lambda s: res[s["sid"]])
drv.done()
