"""Drives the real clients (asyncio or blocking) against scripted servers and records what is observable."""
import asyncio
import functools
import os
import queue
import random
import re
import socket
import struct
import sys
import threading
import time

import dlib
from dlib import Driver, Log, hx
import wire

drv = Driver()
LOOPS = []
_new_loop = asyncio.new_event_loop


def new_loop():
    l = _new_loop()
    LOOPS.append(l)
    return l


asyncio.new_event_loop = new_loop
from anthunder import SERVICE_MAP, AioClient, Client
from anthunder.command.heartbeat import HeartbeatRequest
from anthunder.exceptions import ServerError
from mytracer import SpanContext
dlib.fast_loops()
import concurrent.futures

HOLD = dlib.Hold("anthunder/client", "mysockpool")
drv.ready()
LIMIT = 8.0
stalls = 0
LINGER0 = struct.pack("ii", 1, 0)
PORT = [24000 + (os.getpid() * 53) % 8000]


def listen(port=None, small=False):
    while True:
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if small:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 65536)
        if port is None:
            PORT[0] = 24000 + (PORT[0] + 1 - 24000) % 8000
        try:
            s.bind(("127.0.0.1", port or PORT[0]))
            s.listen(512)
            return s, s.getsockname()[1]
        except OSError:
            s.close()
            if port:
                time.sleep(0.01)


def shaped(shape, cb):
    """a callback of another shape: what is called with the body is the same"""
    if shape == "partial":
        return functools.partial(lambda x, body: cb(body), 1)
    if shape in ("object", "method", "class"):
        class Called:
            def __init__(self, *body):
                if body:
                    cb(*body)

            def __call__(self, body):
                cb(body)

            def got(self, body):
                cb(body)
        return dict(object=Called(), method=Called().got)[shape] if shape != "class" else Called
    if shape == "builtin":
        class Put(list):
            def append(self, body):
                cb(body)
        return functools.partial(Put.append, Put())
    if shape == "default":
        return lambda body, more=None, *a, **k: cb(body)
    return cb


class State:
    loop = None
    client = None
    sync = None


S = State()


def aio_client():
    if S.client is None:
        n = len(LOOPS)
        S.client = AioClient("app")
        S.loop = LOOPS[-1] if len(LOOPS) > n else S.client._loop
    return S.client


def sync_client():
    if S.sync is None:
        S.sync = Client("app")
    return S.sync


def spin(n=6):
    """let the client's event loop go round: what had arrived has been taken notice of"""
    if S.loop is None:
        return
    for _ in range(n):
        ev = threading.Event()
        try:
            S.loop.call_soon_threadsafe(ev.set)
        except RuntimeError:
            return
        if not ev.wait(3):
            return


def segments(data, seg, rng):
    if seg == "one":
        return [data]
    if seg == "bytes":
        return [data[i:i + 1] for i in range(len(data))]
    if isinstance(seg, int):
        return [data[i:i + seg] for i in range(0, len(data), seg)]
    if isinstance(seg, list):
        out, p = [], 0
        for n in seg:
            out.append(data[p:p + n])
            p += n
        return [x for x in out + [data[p:]] if x]
    out = []
    while data:
        n = rng.choice([1, 2, 3, 5, 10, 19, 20, 21, 40, 60, 200, 5000])
        out.append(data[:n])
        data = data[n:]
    return out


class Conn:
    def __init__(self, w, n, a, sock):
        self.w, self.n, self.a, self.sock = w, n, a, sock
        self.lock = threading.RLock()
        self.parser = wire.Parser("req")
        self.reading = threading.Event()
        self.reading.set()
        self.gone = False
        self.early = None
        sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        w = self.w
        try:
            while True:
                self.reading.wait()
                if self.gone:
                    return
                try:
                    data = self.sock.recv(1 << 20)
                except OSError:
                    data = b""
                if self.gone:
                    return
                if not data:
                    spin()
                    with self.lock:
                        if not self.gone:
                            self.gone = True
                            w.log.add("cclose", n=self.n, partial=len(self.parser.buf))
                            self.sock.close()
                    return
                if self.early is None:
                    with w.lock:
                        q = w.early.get(self.a)
                        if q:
                            self.early = q.pop(0)
                            self.earlybuf = self.parser.buf
                if self.early:
                    self.earlybuf += data
                    if len(self.earlybuf) >= wire.REQ.size:
                        self.do_early()
                        if self.gone:
                            return
                for f in self.parser.feed(data):
                    w.request(self, f)
        except Exception as e:  # the harness must not lose an error of its own
            w.errors.append(repr(e))

    def do_early(self):
        """answer the request as soon as its fixed header is there"""
        w = self.w
        k, spec, then = self.early
        self.early = None
        f = wire.REQ.unpack(self.earlybuf[:wire.REQ.size])
        rid = f[4]
        with w.log.lock:
            w.reqs[k] = (self, rid)
            w.earlied.add((self.n, rid))
            w.log.add("req", n=self.n, k=k, id=rid, ty=f[1], cmd=f[2], intact=True)
        self.send([w.frame(k, rid, spec)], spec.get("seg", "one"))
        if then == "rst":
            time.sleep(0.3)
            self.lose("rst")

    def send(self, frames, seg, gap=0.0):
        """frames: list of (bytes, event or None); the event is logged before the frame's last byte is sent"""
        with self.lock:
            data, ends, p = b"", [], 0
            for b, e in frames:
                p += len(b)
                ends.append((p, e))
                data += b
            pos = 0
            segs = segments(data, seg, drv.rng)
            for s in segs:
                while ends and ends[0][0] <= pos + len(s):
                    e = ends.pop(0)[1]
                    if e:
                        self.w.log.add("resp", n=self.n, **e)
                try:
                    self.sock.sendall(s)
                except OSError:
                    pass
                pos += len(s)
                if len(segs) > 1 and gap:
                    time.sleep(gap)

    def lose(self, how):
        with self.lock:
            if self.gone:
                return
            self.w.log.add("lose", n=self.n, how=how)
            if how == "rst":
                self.gone = True
                try:
                    self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, LINGER0)
                    # a blocked recv() in another thread would keep the socket open
                    if self.thread is not threading.current_thread():
                        self._abort()
                    else:
                        self.sock.close()
                except OSError:
                    pass
                self.reading.set()
            else:
                try:
                    self.sock.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
                self.reading.set()

    def _abort(self):
        """reset although the reader thread is in recv(): connecting to AF_UNSPEC resets a TCP connection"""
        import ctypes
        libc = ctypes.CDLL(None)
        sa = struct.pack("H14x", socket.AF_UNSPEC)
        libc.connect(self.sock.fileno(), sa, len(sa))
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass


class Server:
    def __init__(self, w, a, small=False):
        self.w, self.a, self.small = w, a, small
        self.ls, self.port = listen(None, small)
        self.start()

    def start(self):
        threading.Thread(target=self.main, args=(self.ls,), daemon=True).start()

    def main(self, ls):
        w = self.w
        while True:
            try:
                sock, _ = ls.accept()
            except OSError:
                return
            if w.over:
                sock.close()
                continue
            with w.lock:
                w.nconn += 1
                plan = w.plan.get(self.a)
                mode = plan.pop(0) if plan else ["normal"]
                c = Conn(w, w.nconn, self.a, sock)
                w.conns[c.n] = c
                w.last[self.a] = c
            w.log.add("acc", n=c.n, a=self.a)
            if mode[0] == "normal":
                c.thread.start()
            elif mode[0] == "stall":
                c.reading.clear()
                w.log.add("stall", n=c.n, on=True)
                c.thread.start()
            elif mode[0] == "lose":       # loses the connection right after accepting it
                if len(mode) > 2:
                    time.sleep(mode[2] / 1000)
                c.lose(mode[1])
                c.thread.start()
            else:
                threading.Thread(target=self.stallrst, args=(c, mode), daemon=True).start()

    def stallrst(self, c, mode):
        """reads the beginning of a request, waits and resets (or closes) the connection"""
        w = self.w
        try:
            buf = b""
            while len(buf) < 600:
                try:
                    d = c.sock.recv(600 - len(buf))
                except OSError:
                    d = b""
                if not d:
                    break
                buf += d
            m = re.search(rb"\x00\x00\x00.m(\d+)e", buf)
            if m:
                w.log.add("att", n=c.n, k=int(m.group(1)))
            time.sleep(mode[1] / 1000)
            with c.lock:
                w.log.add("lose", n=c.n, how="rst")
                c.gone = True
                c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, LINGER0)
                c.sock.close()
        except Exception as e:
            w.errors.append(repr(e))

    is_down = False

    def down(self):
        self.is_down = True
        self.w.log.add("down", a=self.a)
        self.close()

    def close(self):
        try:
            self.ls.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.ls.close()

    def up(self):
        self.ls, _ = listen(self.port, self.small)
        self.is_down = False
        self.w.log.add("up", a=self.a)
        self.start()


class World:
    def __init__(self, s):
        self.s = s
        self.log = Log()
        self.lock = threading.RLock()
        self.nconn = 0
        self.conns = {}
        self.last = {}
        self.plan = {int(a): list(p) for a, p in s.get("plan", {}).items()}
        self.early = {int(a): list(p) for a, p in s.get("early", {}).items()}
        self.earlied = set()
        self.auto = {int(a): v for a, v in s.get("auto", {}).items()}
        self.calls = {}
        for k, q in s["calls"].items():
            q = dict(q)
            q["bytes"] = bytes.fromhex(q["body"]) * q.get("times", 1)
            self.calls[int(k)] = q
        self.reqs = {}     # k -> (conn, id), the latest
        self.futs = {}
        self.errors = []
        self.hblock = {}
        self.over = False
        self.q = queue.Queue()
        self.lastid = 0
        if self.auto:
            threading.Thread(target=self.responder, daemon=True).start()

    # ---- servers' side
    def frame(self, k, rid, spec):
        st = spec.get("st", 0)
        form = spec.get("form", "ok")
        body = bytes.fromhex(spec["body"]) if "body" in spec else b"r%d." % k if st == 0 else b"x%d" % k
        body *= spec.get("times", 1)
        kw = {}
        if form == "ok":
            out = "ok"
            if spec.get("hdr"):
                kw["header"] = spec["hdr"]
        elif form == "any":
            kw["cls"] = spec.get("cls", "com.example.Other").encode()
            out = "any"
        elif form == "hb":
            kw.update(cls=b"", cmd=0)
            body = b""
            out = "hb"
        else:
            out = "bad"
            how = form
            kw.update(dict(badst=dict(), badptype=dict(ptype=7), badcmd=dict(cmd=9), badcodec=dict(codec=77),
                           badproto=dict(proto=9), badver2=dict(ver2=5), badhdr=dict(header=b"\x00\x00\x00\x09abc"),
                           oddhdr=dict(header=b"\x00\x00\x00\x01k"), neghdr=dict(header=b"\xff\xff\xff\xfe"),
                           utf8hdr=dict(header=b"\x00\x00\x00\x01\xff\x00\x00\x00\x01x"), reqcmd=dict(cmd=1))[how])
            if how == "reqcmd" and self.s.get("client") == "sync":
                out = "odd"      # the blocking client is not asked to look at the command
            if how == "badst":
                st = 99
        return wire.response(rid, body, status=st, **kw), dict(id=rid, st=0 if form == "badst" else st, body=hx(body),
                                                                form=out)

    def request(self, conn, f):
        rid = f["id"]
        if (conn.n, rid) in self.earlied:
            self.earlied.discard((conn.n, rid))
            return
        k = None
        intact = False
        if f["sane"]:
            self.lastid = max(rid, 0)
            if f["cmd"] == 0:
                with self.log.lock:
                    todo = [k for k in sorted(self.calls) if self.calls[k]["kind"] == "hb" and self.calls[k]["a"] == conn.a and k not in self.reqs
                            and self.calls[k].get("called")]
                    todo = [k for k in todo if not self.calls[k].get("ended")] or todo
                    if todo:
                        k = todo[0]
                        intact = f["cls"] == b"" and f["header"] == b"" and f["content"] == b""
            else:
                try:
                    h = wire.dec_map(f["header"])
                    m = re.match(r"m(\d+)e$", h.get("sofa_head_method_name", ""))
                    k = int(m.group(1)) if m else None
                    if k in self.calls:
                        q = self.calls[k]
                        svc = "svc%d" % q["a"]
                        intact = (f["content"] == q["bytes"] and f["cls"] == wire.REQ_CLASS and h.get("service") == svc
                                  and h.get("sofa_head_target_service") == svc)
                except ValueError:
                    k = None
        if k not in self.calls:
            self.log.add("junk", n=conn.n, what=repr(f)[:150])
            return
        with self.log.lock:
            self.reqs[k] = (conn, rid)
            self.log.add("req", n=conn.n, k=k, id=rid, ty=f["ptype"], cmd=f["cmd"], intact=bool(intact))
        if conn.a in self.auto and f["ptype"] != 2:
            self.q.put((conn, k, rid))

    def responder(self):
        rng = random.Random("%s/%s" % (drv.seed, self.s["sid"]))
        try:
            while not self.over:
                try:
                    items = [self.q.get(timeout=0.2)]
                except queue.Empty:
                    continue
                cfg = self.auto[items[0][0].a]
                end = time.monotonic() + cfg.get("wait", 3) / 1000
                while len(items) < cfg.get("batch", 5):
                    try:
                        items.append(self.q.get(timeout=max(0.0001, end - time.monotonic())))
                    except queue.Empty:
                        break
                rng.shuffle(items)
                by = {}
                for conn, k, rid in items:
                    q = self.calls[k]
                    spec = q.get("resp") or (dict(form="hb") if q["kind"] == "hb" else {})
                    fs = by.setdefault(conn.n, [])
                    for _ in range(q.get("ncopies", 1)):
                        fs.append(self.frame(k, rid, spec))
                    if rng.random() < cfg.get("junk", 0):
                        fs.append(self.frame(0, (rid + 1000000) % (1 << 31), dict(body=b"foreign".hex())))
                for n, fs in by.items():
                    self.conns[n].send(fs, cfg.get("seg", "rnd"))
        except Exception as e:
            self.errors.append(repr(e))

    # ---- callers' side
    def invoke(self, k):
        """makes call k in the current thread"""
        q = self.calls[k]
        kind, a = q["kind"], q["a"]
        svc, meth = "svc%d" % a, "m%de" % k
        enc = q.get("enc", "ok")
        body = q["bytes"] if enc != "content" else "text content"
        kw = dict(spanctx=SpanContext(sofaTraceId="t%d" % k, sofaRpcId="1.%d" % k))
        if enc == "header":
            kw["extra" if self.s.get("client") != "sync" else "target_app"] = "h" * 70000
        log = self.log
        T = q.get("T", 5000)
        if kind == "hb":
            # a heartbeat frame does not say whose it is: one at a time for each address
            self.hblock.setdefault(a, threading.Semaphore()).acquire(timeout=10)
        with log.lock:
            q["called"] = True
            log.add("call", k=k, kind=kind, a=a, T=max(0, int(T)) if kind == "sync" else 0, enc=enc == "ok")
        cl = sync_client() if self.s.get("client") == "sync" else aio_client()

        def over(ok, val=b"", e=None):
            q["ended"] = True
            if kind == "hb":
                self.hblock[a].release()
            if ok:
                log.add("ret", k=k, ok=True, body=hx(val) if kind in ("sync", "async", "cb") else "", srv=False, to=False,
                        val={None: "none", True: "true", False: "false"}.get(val, "other")
                        if not isinstance(val, (bytes, str)) else "bytes", named=[], exc="")
            else:
                text = str(e)
                named = [c for n, c in wire.CODE.items() if re.search(r"(?<![A-Za-z_])%s(?![A-Za-z_])" % n, text)]
                log.add("ret", k=k, ok=False, body="", val="", srv=isinstance(e, ServerError), named=named,
                        to=isinstance(e, (TimeoutError, concurrent.futures.TimeoutError, asyncio.TimeoutError)),
                        exc=type(e).__name__ + ": " + text[:60])

        try:
            if q.get("via") == "connection":
                over(True, self.by_hand(svc, meth, body, k))
            elif kind == "sync":
                over(True, cl.invoke_sync(svc, meth, body, timeout_ms=T, **kw))
            elif kind == "one":
                over(True, cl.invoke_oneway(svc, meth, body, **kw))
            elif kind == "hb":
                f = asyncio.run_coroutine_threadsafe(cl.invoke_heartbeat(SERVICE_MAP[svc]), S.loop)
                f.add_done_callback(lambda f: self.done(k, f, over))
            else:
                if "T" in q:
                    kw["timeout_ms"] = T
                if kind == "cb":
                    def cb(body):
                        log.add("cb", k=k, body=hx(body))
                        if q.get("cbraise"):
                            raise ValueError("callback")
                    f = cl.invoke_async(svc, meth, body, callback=shaped(q.get("shape"), cb), **kw)
                else:
                    f = cl.invoke_async(svc, meth, body, **kw)
                f.add_done_callback(lambda f: self.done(k, f, over))
                with log.lock:
                    self.futs[k] = f
                    if q.get("cancel") and not f.done():
                        log.add("cancel", k=k)
                if q.get("cancel"):
                    f.cancel()
        except BaseException as e:
            over(False, e=e)

    def by_hand(self, svc, meth, body, k):
        """the same call on a connection of the pool package: sendall() and recvexactly()"""
        from mysockpool import SocketConnection
        rid = 1500000000 + drv.rng.randrange(1 << 29)
        h = wire.enc_map({"service": svc, "sofa_head_target_service": svc, "sofa_head_method_name": meth})
        conn = SocketConnection(SocketConnection.PoolKeyCls(*SERVICE_MAP[svc]))
        conn.sendall(wire.request(rid, header=h, content=body))
        head = wire.RESP.unpack(conn.recvexactly(wire.RESP.size))
        n = sum(head[-3:])
        rest = conn.recvexactly(n)
        if len(rest) != n:
            raise ServerError("length")
        if head[4] != rid:
            raise ServerError("id")
        if head[6] != 0:
            raise ServerError.from_statuscode(head[6])
        return rest[head[-3] + head[-2]:]

    def done(self, k, f, over):
        try:
            r = f.result(0)
        except BaseException as e:
            over(False, e=e)
            return
        over(True, r if isinstance(r, bool) or r is None else getattr(r, "content", r))


def run(s):
    global stalls
    if stalls >= 3:
        return dict(cfg={"stopped": 1}, ev=[], stopped=True)
    w = World(s)
    log = w.log
    servers = {}
    stalled = False
    for a in range(1, s.get("nsrv", 1) + 1):
        servers[a] = Server(w, a, s.get("small", False))
        SERVICE_MAP.pop("svc%d" % a, None)
        SERVICE_MAP["svc%d" % a] = ("127.0.0.1", servers[a].port)
    if s.get("client") == "sync":
        sync_client()
    else:
        aio_client()

    fds = []
    for _ in range(s.get("fds", 0)):
        try:
            fds.append(os.open("/dev/null", os.O_RDONLY))
        except OSError:
            break
    if fds and len(fds) < s["fds"]:
        for fd in fds[-200:]:
            os.close(fd)
        del fds[-200:]
    HOLD.arm(s.get("hold"))

    def has(e, **kw):
        return lambda ev: any(x["e"] == e and all(x[i] == v for i, v in kw.items()) for x in ev)

    def await_(pred, limit=LIMIT):
        nonlocal stalled
        if stalled:
            limit = min(limit, 0.3)
        if not log.wait(pred, limit):
            if not stalled:
                log.add("quiet")
            stalled = True
            return False
        return True

    def start(ks):
        bar = threading.Barrier(len(ks))

        def go(k):
            bar.wait()
            if not s.get("hold") or k in s["hold"].get("ks", [k]):
                HOLD.mine()
            for x in k if isinstance(k, list) else [k]:
                w.invoke(x)
            sys.settrace(None)
        for k in ks:
            threading.Thread(target=go, args=(k,), daemon=True).start()
        for k in ks:
            await_(has("call", k=k[0] if isinstance(k, list) else k))

    def conn_of(x):
        """["n", i]: i-th connection of the scenario; ["a", i]: the last one at address i"""
        if x[0] == "r":
            await_(lambda ev: x[1] in w.reqs)
            return w.reqs.get(x[1], (None,))[0]
        if x[0] == "s":
            log.wait(lambda ev: x[1] in w.conns, 0.3)
            return w.conns.get(x[1])
        if x[0] == "n":
            await_(lambda ev: x[1] in w.conns)
            return w.conns.get(x[1])
        await_(lambda ev: x[1] in w.last)
        return w.last.get(x[1])

    for st in s["steps"]:
        op = st[0]
        if op == "call":
            start([st[1]])
        elif op == "calls":
            start(st[1])
        elif op == "await":
            what, k = st[1], st[2]
            lim = LIMIT
            if what == "ret":
                q = w.calls[k]
                lim += q.get("T", 5000) / 1000 if q["kind"] == "sync" else 0
                await_(has("ret", k=k), lim)
            elif what == "acc":
                await_(lambda ev: sum(x["e"] == "acc" for x in ev) >= k)
            elif what == "reqret":     # it came in, or it has failed
                one = w.calls[k]["kind"] == "one"
                pred = lambda ev: has("req", k=k)(ev) or (not one and has("ret", k=k)(ev))
                log.wait(pred, 0.3) if one else await_(pred)
            elif what == "softret":
                log.wait(has("ret", k=k), 0.15)
            elif what == "soft":
                log.wait(lambda ev: sum(x["e"] == k[0] for x in ev) >= k[1], 0.3)
            elif what == "lost":
                await_(lambda ev: sum(x["e"] in ("lose", "cclose") for x in ev) >= k)
            elif what == "cclose":
                c = conn_of(k)
                if c:
                    await_(has("cclose", n=c.n))
            elif what == "resp":
                q = w.reqs.get(k)
                await_(lambda ev: k in w.reqs and has("resp", id=w.reqs[k][1])(ev), lim)
            else:
                await_(has(what, k=k), lim)
        elif op == "resp":
            ks = st[1] if isinstance(st[1], list) else [st[1]]
            specs = st[2] if isinstance(st[2], list) else [st[2]] * len(ks)
            by = {}
            for k, spec in zip(ks, specs):
                if k < 0:     # an id nobody used: unknown, or the next one to be used
                    c = conn_of(["s", spec["n"]] if "n" in spec else ["a", spec["a"]])
                    rid = (w.lastid + (-k)) % (1 << 31)
                    if c:
                        by.setdefault(c.n, []).append(w.frame(0, rid, spec))
                    continue
                if not await_(lambda ev: k in w.reqs or has("ret", k=k)(ev)) or k not in w.reqs:
                    continue
                c, rid = w.reqs[k]
                for _ in range(spec.get("ncopies", 1)):
                    by.setdefault(c.n, []).append(w.frame(k, rid, spec))
            seg = st[3] if len(st) > 3 else "one"
            for n, fs in by.items():
                w.conns[n].send(fs, seg, gap=st[4] / 1000 if len(st) > 4 else 0)
        elif op == "cut":          # the first n bytes of the response to k, then lose the connection
            k, spec, n, how = st[1:5]
            if await_(lambda ev: k in w.reqs):
                c, rid = w.reqs[k]
                b, _ = w.frame(k, rid, spec)
                c.send([(b[:min(n, len(b) - 1)], None)], "one")
                if len(st) > 5:
                    time.sleep(st[5] / 1000)
                c.lose(how)
        elif op == "part":         # first n bytes of the response to k; the rest comes with "rest"
            k, spec, n = st[1:4]
            if await_(lambda ev: k in w.reqs):
                c, rid = w.reqs[k]
                b, e = w.frame(k, rid, spec)
                n = min(n, len(b) - 1)
                c.send([(b[:n], None)], "one")
                w.rest = (c, b[n:], e)
        elif op == "chunk":        # bytes i..j of the response to k (negative: counted from its end)
            k, spec, i, j = st[1:5]
            log.wait(lambda ev: k in w.reqs, LIMIT if not stalled else 0.3)
            if k in w.reqs:
                c, rid = w.reqs[k]
                b, e = w.frame(k, (rid + spec.get("off", 0)) % (1 << 31), spec)
                i, j = [min(len(b), x if x >= 0 else len(b) + 1 + x) for x in (i, j)]
                if j > i:
                    with c.lock:
                        if not c.gone:
                            c.send([(b[i:j], e if j == len(b) else None)], "one")
        elif op == "rest":
            c, b, e = w.rest
            c.send([(b, e)], "one")
        elif op == "lose":
            c = conn_of(st[1])
            if c:
                c.lose(st[2])
        elif op == "noticed":
            c = conn_of(st[1])
            if c and st[2] == "fin":
                await_(has("cclose", n=c.n))
            elif c:
                time.sleep(0.15)
                spin(20)
                log.add("settle", n=c.n)
        elif op == "settle":       # the client has had time to notice that a connection was reset
            c = conn_of(st[1])
            time.sleep(0.15)
            spin(20)
            if c:
                log.add("settle", n=c.n)
        elif op == "stall":
            c = conn_of(st[1])
            if c:
                if st[2]:
                    c.reading.clear()
                    log.add("stall", n=c.n, on=True)
                else:
                    log.add("stall", n=c.n, on=False)
                    c.reading.set()
        elif op == "down":
            servers[st[1]].down()
        elif op == "up":
            servers[st[1]].up()
        elif op == "plan":
            with w.lock:
                w.plan[st[1]] = list(st[2])
        elif op == "early":
            with w.lock:
                w.early.setdefault(st[1], []).append(st[2:])
        elif op == "burn":         # other requests of the process take ids, up to 2^e after that of call k
            if await_(lambda ev: st[1] in w.reqs):
                w.burnt = getattr(w, "burnt", 0)
                n = (1 << st[2]) - 2 - w.burnt - (len(w.reqs) - 1)
                for _ in range(n):
                    HeartbeatRequest.new_request()
                w.burnt += n
        elif op == "habit":        # calls of the same kind one by one, until one of them ends as promptly as it should
            done, n = [], st[2]
            for k in st[1]:
                q = w.calls[k]
                start([k])
                if n:
                    log.wait(lambda ev: k in w.reqs, 2)
                    if k in w.reqs:
                        c, rid = w.reqs[k]
                        b, _ = w.frame(k, rid, {})
                        c.send([(b[:min(n, len(b) - 1)], None)], "one")
                if not await_(has("ret", k=k), LIMIT + q.get("T", 0) / 1000):
                    break
                done.append(k)
                with log.lock:
                    t = {x["e"]: x["t"] for x in log.ev if x.get("k") == k and x["e"] in ("call", "ret")}
                due = (q["T"] if q["kind"] == "sync" else 0) + (1000 if s.get("client") == "sync" and q["kind"] == "sync" else 0)
                if len(done) >= 2 and t["ret"] - t["call"] - due < 120:
                    break
            log.add("habit", ks=done)
        elif op == "sleep":
            time.sleep(st[1] / 1000)
        elif op == "cancel":
            if log.wait(lambda ev: st[1] in w.futs, LIMIT):
                with log.lock:
                    if not w.futs[st[1]].done():
                        log.add("cancel", k=st[1])
                w.futs[st[1]].cancel()
        elif op == "quiet":
            log.add("quiet")
        elif op == "finish":       # from here on everything is answered
            for srv in servers.values():
                if srv.is_down:
                    srv.up()
            with log.lock:
                w.auto = {a: dict(batch=1) for a in servers}
                todo = [(k,) + w.reqs[k] for k in w.reqs if w.calls[k]["kind"] != "one" and not has("ret", k=k)(log.ev)
                        and not has("resp", id=w.reqs[k][1])(log.ev)]
            threading.Thread(target=w.responder, daemon=True).start()
            for k, conn, rid in todo:
                w.q.put((conn, k, rid))

    # finale: everything which has to end ends
    for k, q in w.calls.items():
        if q.get("called"):
            if q.get("free"):
                continue
            await_(has("ret", k=k), LIMIT + (q.get("T", 5000) / 1000 if q["kind"] == "sync" else 0))
            if q["kind"] == "one" and q.get("enc", "ok") == "ok":
                pred = lambda ev: has("req", k=k)(ev) or has("att", k=k)(ev)
                log.wait(pred, 2) if q.get("lost") else await_(pred)
            if q["kind"] == "cb":
                await_(lambda ev: has("cb", k=k)(ev) or not has("ret", k=k, ok=True)(ev))
    spin(3)
    if s.get("linger"):
        time.sleep(s["linger"] / 1000)
    if not stalled:
        log.add("quiet")
    HOLD.off()
    ev = log.finish()
    for fd in fds:
        os.close(fd)
    w.over = True
    for srv in servers.values():
        srv.close()
    for c in list(w.conns.values()):
        c.gone = True
        c.reading.set()
        try:
            c.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        c.sock.close()
    if w.errors:
        raise SystemExit("harness error: %s in scenario %s" % (w.errors, s["sid"]))
    spin(3)
    if stalled or s.get("fresh"):
        stalls += stalled
        S.client = S.loop = S.sync = None
    return dict(cfg=dict(client=s.get("client", "aio")), ev=ev)


drv.run(run)
drv.done()
