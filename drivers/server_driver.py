"""Drives the real listeners with scripted peers and gated services and records what is observable."""
import os
import selectors
import socket
import socketserver
import struct
import threading
import time

import dlib
from dlib import Driver, hx, K
import wire

drv = Driver()


class Log(dlib.Log):
    def now(self):
        return int((time.monotonic() - self.t0) * 1000 * K)


import anthunder
from anthunder.listener import AioListener, SockListener
dlib.fast_loops()
HOLD = dlib.Hold("anthunder/listener", "anthunder/protocol", "anthunder/command")

socketserver.TCPServer.request_queue_size = 128      # bursts of connections are not what is judged
drv.ready()
LIMIT = 8.0
stalls = 0


# ------------------------------------------------------------------------------------------------- services
class World:
    """Per-scenario state the services report to."""
    log = None
    gates = {}
    inv = 0
    obj = 0
    lock = threading.RLock()


W = World()


class Boom(Exception):
    pass


def outcome(meth, body):
    if meth in ("echo", "other"):
        return "bytes", b"<" + body + b">" + meth.encode()
    if meth == "big":
        return "bytes", body * 3000
    if meth == "huge":
        return "bytes", body * (1500000 // len(body))
    if meth == "empty":
        return "bytes", b""
    if meth == "none":
        return "nil", None
    if meth == "text":
        return "str", "text"
    if meth == "emptytext":
        return "str", ""
    if meth == "obj":
        return "obj", {"a": 1}
    if meth == "zero":
        return "obj", 0
    import asyncio
    import concurrent.futures
    return "raise", dict(boom=Boom("x"), exit=SystemExit(1), stop=StopIteration(3), timeout=TimeoutError("t"),
                         ftimeout=concurrent.futures.TimeoutError(), acancel=asyncio.CancelledError(),
                         fcancel=concurrent.futures.CancelledError(), keyerr=KeyError("k"), attr=AttributeError("a"),
                         value=ValueError("v"), os=OSError(104, "reset"), eof=EOFError("eof"),
                         kbd=KeyboardInterrupt(), gen=GeneratorExit(), base=BaseException("b"),
                         proto=_own("anthunder.protocol.exceptions", "DecodeError"),
                         noproc=_own("anthunder.listener.base_listener", "NoProcessorError"), server=_own("anthunder.exceptions", "ServerError"),
                         client=_own("anthunder.exceptions", "ClientError"))[meth]


def _own(module, name):
    """an error of the library itself: a service which calls other services may let it through"""
    try:
        return getattr(__import__(module, fromlist=[name]), name)("of a service")
    except Exception:
        return Boom(name)


ALLM = ("echo", "other", "big", "huge", "empty", "none", "text", "emptytext", "obj", "zero", "boom", "exit", "stop", "timeout",
        "ftimeout", "acancel", "fcancel", "keyerr", "attr", "value", "os", "eof", "kbd", "gen", "base", "proto",
        "noproc", "server", "client")


def invoke(self, meth, body):
    with W.lock:
        W.inv += 1
        inv = W.inv
        log = W.log
        gate = W.gates.get(body)
        try:
            ctx = sorted([str(k), str(v)] for k, v in self.ctx.baggage.items())
        except Exception:
            ctx = [["broken", "context"]]
        log.add("start", inv=inv, obj=self.n, tag=self.tag, meth=meth, body=hx(body), args=self.args, ctx=ctx)
    if gate is not None:
        gate.wait(60)
    kind, res = outcome(meth, body)
    log.add("end", inv=inv, out=kind, body=hx(res) if kind == "bytes" else "")
    if kind == "raise":
        raise res
    return res


def make_service(tag, meths, fails):
    def __init__(self, ctx, *args, **kwargs):
        if fails == "boom":
            raise Boom("ctor")
        if fails == "attr":
            raise AttributeError("ctor")
        if fails == "key":
            raise KeyError("ctor")
        if fails == "exit":
            raise SystemExit(2)
        if fails == "noproc":
            raise _own("anthunder.listener.base_listener", "NoProcessorError")
        with W.lock:
            W.obj += 1
            self.n = W.obj
        self.ctx = ctx
        self.tag = tag
        self.args = ",".join([str(a) for a in args] + ["%s=%s" % kv for kv in sorted(kwargs.items())])

    d = dict(__init__=__init__)
    for m in meths:
        d[m] = (lambda m: lambda self, body: invoke(self, m, body))(m)
    return type("Svc", (object,), d)


# ------------------------------------------------------------------------------------------------- listeners
PORT = [15000 + (os.getpid() * 37) % 9000]


def new_port():
    while True:
        PORT[0] = 15000 + (PORT[0] + 1 - 15000) % 9000
        s = socket.socket()
        try:
            s.bind(("127.0.0.1", PORT[0]))
            return PORT[0]
        except OSError:
            continue
        finally:
            s.close()


CACHE = {}


def listeners(kinds, lst):
    key = repr((kinds, lst))
    if key in CACHE:
        return CACHE[key]
    res = []
    for i, regs in enumerate(lst):
        port = new_port()
        L = (AioListener if kinds[i] == "aio" else SockListener)(("127.0.0.1", port), "app%d" % i)
        res.append((L, port))
    # registrations are interleaved over the listeners, as separate modules of a program would do
    for j in range(max(map(len, lst)) if lst else 0):
        for i, regs in enumerate(lst):
            if j < len(regs):
                r = regs[j]
                cls = make_service(r["tag"], r["meths"], r.get("fail", ""))
                a, kw = r.get("a", []), r.get("kw", {})
                res[i][0].handler.register_interface(r["svc"], cls, *a, **kw)
    for L, port in res:
        L.run_threading()
    for L, port in res:
        end = time.time() + 10
        while True:
            try:
                socket.create_connection(("127.0.0.1", port), 1).close()
                break
            except OSError:
                if time.time() > end:
                    raise
                time.sleep(0.01)
    CACHE[key] = [p for _, p in res]
    return CACHE[key]


def held(ports):
    """sockets of the listeners' side that are still open in this process"""
    n = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            if not os.readlink("/proc/self/fd/" + fd).startswith("socket:"):
                continue
            s = socket.socket(fileno=os.dup(int(fd)))
        except OSError:
            continue
        try:
            if s.family == socket.AF_INET and s.getsockname()[1] in ports \
                    and not s.getsockopt(socket.SOL_SOCKET, socket.SO_ACCEPTCONN):
                n += 1
        except OSError:
            pass
        finally:
            s.close()
    return n


# ------------------------------------------------------------------------------------------------- peers
class Reader(threading.Thread):
    def __init__(self):
        super().__init__(daemon=True)
        self.sel = selectors.DefaultSelector()
        self.lock = threading.RLock()
        self.r, self.w = os.pipe()
        self.sel.register(self.r, selectors.EVENT_READ, None)
        self.start()

    def run(self):
        while True:
            for key, _ in self.sel.select():
                if key.data is None:
                    os.read(self.r, 1000)
                    continue
                with self.lock:
                    try:
                        self.sel.get_key(key.fileobj)
                    except (KeyError, ValueError):
                        continue
                    key.data.readable()

    def add(self, conn):
        with self.lock:
            self.sel.register(conn.sock, selectors.EVENT_READ, conn)
        os.write(self.w, b"x")

    def drop(self, conn):
        with self.lock:
            try:
                self.sel.unregister(conn.sock)
            except (KeyError, ValueError):
                pass


reader = Reader()


class Conn:
    def __init__(self, log, c, port, l):
        self.log, self.c = log, c
        self.eof = "no"
        self.closed = False
        self.sock = socket.create_connection(("127.0.0.1", port), 10)
        self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.parser = wire.Parser("resp")
        log.add("conn", c=c, l=l)
        reader.add(self)

    def readable(self):
        try:
            data = self.sock.recv(262144)
        except OSError:
            data = b""
        if not data:
            if self.parser.buf:
                self.log.add("torn", c=self.c, what=self.parser.buf[:60].hex())
            self.closed = True
            reader.drop(self)
            self.log.add("closed", c=self.c)
            return
        for f in self.parser.feed(data):
            if not f["sane"]:
                self.log.add("torn", c=self.c, what=repr(f)[:100])
                continue
            cls = "resp" if f["cls"] == wire.RESP_CLASS else "none" if not f["cls"] else "other"
            self.log.add("reply", c=self.c, id=f["id"], ty=f["ptype"], cmd=f["cmd"], cls=cls, st=f["x"],
                         body=hx(f["content"]))

    def send(self, data):
        try:
            self.sock.sendall(data)
        except OSError:
            pass

    def shut(self, mode):
        if self.eof == "rst":
            return
        self.eof = mode
        self.log.add("eof", c=self.c, mode=mode)
        if mode == "half":
            try:
                self.sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        else:
            reader.drop(self)
            try:
                if mode == "rst":
                    self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            except OSError:
                pass
            self.sock.close()
            self.closed = True


def frame(q):
    cmd = dict(req=1, hb=0, resp=2)[q["cmd"]]
    if q["cmd"] == "hb":
        return wire.request(q["id"], wire.enc_map(dict(q.get("hbhdr", []))), b"\0" * q.get("hbody", 0), ptype=1, cmd=0,
                            timeout=q.get("T", 0), cls=q.get("hbcls", "").encode())
    h = {}
    if q["svc"]:
        how = q.get("names", "both")
        if how in ("both", "target"):
            h["sofa_head_target_service"] = q["svc"]
        if how in ("both", "service"):
            h["service"] = q["svc"]
        if how == "differ":         # the target names the service
            h["service"], h["sofa_head_target_service"] = q.get("other", "com.x.B:1.0"), q["svc"]
    if q["meth"]:
        h["sofa_head_method_name"] = q["meth"]
    h["sofa_head_target_app"] = "app"
    for k, v in q["ctx"]:
        h[wire.PREFIX + k] = v
    hb = wire.enc_map(h)
    if not q["hdr"]:
        bad = q.get("badhdr", "short")
        hb = dict(short=hb[:-1], utf8=hb + wire.enc_map([("x", b"\xff\xfe")]), neg=b"\xff\xff\xff\xfe" + hb,
                  odd=hb + struct.pack(">i", 1) + b"k", big=b"\x7f\xff\xff\xff" + hb)[bad]
    cls = wire.REQ_CLASS if q["cls"] else q.get("clsname", "com.example.Other").encode()
    return wire.request(q["id"], hb, q["bytes"], ptype=2 if q["ty"] == "one" else 1, cmd=cmd, timeout=q["T"], cls=cls,
                        codec=q.get("codec", 11))


def segments(data, seg, rng):
    if seg == "one":
        return [data]
    if seg == "bytes":
        return [data[i:i + 1] for i in range(len(data))]
    if isinstance(seg, int):
        return [data[i:i + seg] for i in range(0, len(data), seg)]
    if isinstance(seg, list):
        out, p = [], 0
        for n in seg:
            out.append(data[p:p + n])
            p += n
        return [x for x in out + [data[p:]] if x]
    out = []
    while data:
        n = rng.choice([1, 2, 3, 5, 10, 21, 22, 23, 44, 60, 200])
        out.append(data[:n])
        data = data[n:]
    return out


def run(s):
    global stalls
    if stalls >= 3:
        return dict(cfg={"stopped": 1}, ev=[], stopped=True)
    kind = s["kind"]
    kinds = s.get("kinds") or [kind] * len(s["lst"])
    ports = listeners(kinds, s["lst"])
    log = Log()
    reqs = {}
    for k, q in s["reqs"].items():
        q = dict(q)
        q["bytes"] = bytes.fromhex(q["body"])
        reqs[int(k)] = q
    gates = {q["bytes"]: threading.Event() for q in reqs.values() if q.get("gate")}
    with W.lock:
        W.log, W.gates, W.inv, W.obj = log, gates, 0, 0
    conns = {}
    partial = {}
    stalled = False
    base = held(ports) if kind == "sock" else 0
    if base:
        end = time.time() + LIMIT
        while held(ports) and time.time() < end:
            time.sleep(0.01)

    def announce(c, r):
        q = reqs[r]
        log.add("send", c=c, r=r, id=q["id"], ty=q["ty"], cmd=q["cmd"], cls=q["cls"], hdr=q["hdr"], svc=q["svc"],
                meth=q["meth"], ctxok=q["ctxok"], ctx=q["ctx"], body=hx(q["bytes"]),
                T=max(-1, min(q["T"], 10 ** 9)))

    def full(c, r):
        log.add("full", c=c, r=r)

    sent = {}  # r -> c, fully sent

    def send(c, rs, seg):
        conn = conns[c]
        datas = [frame(reqs[r]) for r in rs]
        ends, p = [], 0
        for d in datas:
            ends.append((p, p + len(d)))
            p += len(d)
        pos = 0
        started, done = set(), set()
        small = seg != "one"
        for chunk in segments(b"".join(datas), seg, drv.rng):
            nxt = pos + len(chunk)
            for r, (a, b) in zip(rs, ends):
                if a < nxt and r not in started:
                    started.add(r)
                    announce(c, r)
                if b <= nxt and r not in done:
                    done.add(r)
                    sent[r] = c
                    full(c, r)
            conn.send(chunk)
            pos = nxt
            if small and drv.rng.random() < .02:
                time.sleep(0.002)

    def replied(r):
        c = sent.get(r)
        rank = sum(1 for x in sent if sent[x] == c and reqs[x]["id"] == reqs[r]["id"] and reqs[x]["ty"] == "two")
        if not s.get("sameid"):
            rank = 1
        return lambda ev: sum(e["e"] == "reply" and e["c"] == c and e["id"] == reqs[r]["id"] for e in ev) >= rank

    def started(r):
        return lambda ev: any(e["e"] == "start" and e["body"] == hx(reqs[r]["bytes"]) for e in ev)

    def ended(r):
        def f(ev):
            invs = {e["inv"] for e in ev if e["e"] == "start" and e["body"] == hx(reqs[r]["bytes"])}
            return any(e["e"] == "end" and e["inv"] in invs for e in ev)
        return f

    def closed(c):
        return lambda ev: any(e["e"] == "closed" and e["c"] == c for e in ev)

    def await_(pred, limit=LIMIT):
        nonlocal stalled
        if stalled:
            limit = min(limit, 0.3)  # the quiet event of the stall was logged already
        if not log.wait(pred, limit):
            if not stalled:
                quiet()
            stalled = True
            return False
        return True

    def quiet(expect_held=0):
        h = 0
        if kind == "sock":
            end = time.time() + (0.2 if stalled else LIMIT)
            h = held(ports)
            while h > expect_held and time.time() < end:
                time.sleep(0.005)
                h = held(ports)
            # sockets let go of: their peers are told so, and have seen it when this many are left
            log.wait(lambda ev: len(conns) - sum(e["e"] == "closed" or (e["e"] == "eof" and e["mode"] == "rst") for e in ev) <= h,
                     0.2 if stalled else LIMIT)
        log.add("quiet", held=h)

    HOLD.arm(s.get("hold"))
    for st in s["steps"]:
        op = st[0]
        if op == "conn":
            conns[st[1]] = Conn(log, st[1], ports[st[2] - 1], st[2])
        elif op == "send":
            send(st[1], st[2], st[3] if len(st) > 3 else "one")
        elif op == "part":
            c, r, n = st[1:4]
            data = frame(reqs[r])
            n = min(n, len(data) - 1) if n >= 0 else len(data) + n
            announce(c, r)
            partial[r] = data[n:]
            if n:
                conns[c].send(data[:n])
        elif op == "rest":
            c, r = st[1:3]
            sent[r] = c
            full(c, r)
            conns[c].send(partial.pop(r))
        elif op == "release":
            gates[reqs[st[1]]["bytes"]].set()
        elif op == "await":
            r = st[2]
            limit = LIMIT
            if st[1] == "start":
                await_(started(r), limit)
            elif st[1] == "end":
                await_(ended(r), limit)
            elif st[1] == "reply":
                if reqs[r]["T"] > 0:
                    limit += reqs[r]["T"] / 1000 / K
                if kind == "sock":
                    await_(lambda ev: replied(r)(ev) or closed(sent[r])(ev), limit)
                else:
                    await_(replied(r), limit)
            elif st[1] == "closed":
                await_(closed(r), limit)
            elif st[1] == "count":
                await_(lambda ev: sum(e["e"] == "start" for e in ev) >= r, limit)
        elif op == "pause":      # the peer stops reading
            reader.drop(conns[st[1]])
        elif op == "resume":
            reader.add(conns[st[1]])
        elif op == "eof":
            conns[st[1]].shut(st[2])
        elif op == "sleep":
            time.sleep(st[1] / 1000 / K)
        elif op == "quiet":
            quiet(st[1] if len(st) > 1 else 0)

    # finale: let everything end, collect what is outstanding, then end the connections and read to their end
    for g in gates.values():
        g.set()
    want = []
    for r, c in sent.items():
        q = reqs[r]
        first = min(x for x in sent if sent[x] == c) == r
        if kind == "sock" and not first:
            continue
        if conns[c].eof == "no" and q["ty"] == "two":
            want.append((lambda r, c: (lambda ev: replied(r)(ev) or (kind == "sock" and closed(c)(ev))))(r, c))
        if q.get("runs") and conns[c].eof in ("no", "half"):
            want.append((lambda r: (lambda ev: ended(r)(ev)))(r))
    longest = max([reqs[r]["T"] for r in sent] + [0]) / 1000 / K
    for w in want:
        await_(w, LIMIT + longest)

    def all_ended(ev):
        st = {e["inv"] for e in ev if e["e"] == "start"}
        en = {e["inv"] for e in ev if e["e"] == "end"}
        return st <= en
    log.wait(all_ended, LIMIT)
    if s.get("linger"):
        time.sleep(s["linger"] / 1000)
    if kind == "aio":
        for c, conn in conns.items():
            if conn.eof == "half":
                await_(closed(c))
    else:
        for c, conn in conns.items():
            if conn.eof != "rst" and any(x == c for x in sent.values()):
                await_(closed(c))
    if not stalled:
        quiet(sum(1 for c, conn in conns.items() if conn.eof == "no" and c not in sent.values()))
    for c, conn in conns.items():
        if conn.eof == "no" and not conn.closed:
            conn.shut("half")
    for c, conn in conns.items():
        if conn.eof == "half" or (conn.closed and conn.eof != "rst"):
            await_(closed(c))
    if not stalled:
        quiet()
    if stalled:
        stalls += 1
    HOLD.off()
    ev = log.finish()
    for conn in conns.values():
        reader.drop(conn)
        conn.sock.close()
    lst = [[dict(svc=r["svc"], tag=r["tag"], meths=r["meths"],
                 args=",".join([str(a) for a in r.get("a", [])] + ["%s=%s" % kv for kv in sorted(r.get("kw", {}).items())]),
                 fails=bool(r.get("fail"))) for r in regs] for regs in s["lst"]]
    return dict(cfg=dict(kind=kind, workers=30, lst=lst, clock=round(K * 100)), ev=ev)


drv.run(run)
drv.done()
