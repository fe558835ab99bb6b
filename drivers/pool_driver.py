"""Drives the real ConnectionPool: sequentially with real connections, and with threads under controlled schedules."""
import json
import random
import select
import socket
import struct
import sys
import threading
import time

import sched
from dlib import Driver, Log

drv = Driver()
from mysockpool import ConnectionPool, PoolManager, SocketConnection
from mysockpool.exceptions import ClosedPoolError, EmptyPoolError

drv.ready()
LINGER0 = struct.pack("ii", 1, 0)


class Unmakeable(OSError):
    pass


class Odd(BaseException):
    pass


# how the block of a borrowing scope may end
ENDS = [(EOFError, "gone"), (OSError, "broken"), (KeyError, "k"), (ConnectionResetError, 104, "reset"), (NameError, "n"), (AttributeError, "a"),
        (socket.timeout, "late"), (ValueError, "v"), (KeyboardInterrupt,), (GeneratorExit,), (EmptyPoolError, "p", "m"), (ClosedPoolError, "p", "m"),
        (RuntimeError, "r"), (StopIteration,), (SystemExit, 1), (BrokenPipeError, 32, "pipe"), (Unmakeable, "u"), (Odd, "odd"), (TypeError, "t"),
        (StopAsyncIteration,), (InterruptedError,), (IndexError, "i"), (MemoryError,)]


class Peers:
    """a server which keeps the other ends of the connections"""

    def __init__(self):
        self.ls = socket.socket()
        self.ls.bind(("127.0.0.1", 0))
        self.ls.listen(128)
        self.port = self.ls.getsockname()[1]
        self.ends = {}
        threading.Thread(target=self.main, daemon=True).start()

    def main(self):
        while True:
            try:
                s, a = self.ls.accept()
            except OSError:
                return
            self.ends[a[1]] = s

    def end(self, sock):
        port = sock.getsockname()[1]
        t = time.monotonic()
        while port not in self.ends and time.monotonic() < t + 2:
            time.sleep(0.0005)
        return self.ends.pop(port)


peers = Peers()
W = None      # the current scenario


class World:
    def __init__(self, fake):
        self.fake, self.log, self.conns, self.fails, self.made = fake, Log(), {}, 0, 0
        self.ends = []
        self.snap = None
        self.pool = self.mgr = None
        self.scopes, self.nscope, self.end = {}, 0, 0

    def borrow(self, st):
        if self.mgr is None:
            return self.pool.get_conn(timeout=st[1]) if len(st) > 1 else self.pool.get_conn()
        cm = self.mgr.connection_scope(self.key)
        conn = cm.__enter__()
        self.nscope += 1
        self.scopes[conn.id] = cm
        return conn

    def give_back(self, conn):
        if self.mgr is None:
            return self.pool.put_conn(conn)
        self.end += 1
        cm = self.scopes.pop(conn.id)
        if self.end % 3 == 0:
            cm.__exit__(None, None, None)
            return
        e = ENDS[self.end % len(ENDS)]
        e = e[0](*e[1:])
        try:
            swallowed = cm.__exit__(type(e), e, None)
        except BaseException as x:
            if x is not e:
                raise RuntimeError("%r became %r" % (e, x))
            swallowed = False
        if swallowed:
            raise RuntimeError("%r was lost" % (e,))

    def state(self, force=False):
        p = self.pool
        if p is None or (self.loose and not force):
            return
        q = p.pool
        x = (p.num_connections, q.qsize() if q is not None else 0)
        if x != self.snap or force:
            self.snap = x
            self.log.add("state", num=x[0], idle=x[1])

    def die(self, c, how):
        conn = self.conns.get(c)
        if conn is None or conn.dead or conn.shut:
            return
        conn.dead = True
        if self.fake:
            if how == "data":
                conn.peer.send(b"x")
            else:
                conn.peer.close()
        else:
            e = peers.end(conn.sock)
            self.ends.append(e)
            if how == "data":
                e.send(b"x")
            elif how == "rst":
                e.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, LINGER0)
                e.close()
            else:
                e.shutdown(socket.SHUT_WR)
            p = select.poll()
            p.register(conn.sock, select.POLLIN)
            p.poll(2000)
        self.log.add("die", c=c)

    def cleanup(self):
        for cm in list(self.scopes.values()):      # not left to the garbage collector, which would end them at any moment
            try:
                cm.__exit__(None, None, None)
            except Exception:
                pass
        for c in list(self.conns.values()):
            socket.socket.close(c.sock)
            if self.fake:
                c.peer.close()
        for e in self.ends:
            e.close()


class Conn(SocketConnection):
    def __init__(self, pool_key):
        w = W
        self.w, self.dead, self.shut, self.sock = w, False, False, None
        if sched.current:
            sched.current.give_way(sched._me.i)
        if w.fails > 0:
            w.fails -= 1
            w.log.add("newfail")
            raise Unmakeable("no more sockets")
        w.made += 1
        self.id = w.made
        w.conns[self.id] = self
        w.log.add("new", c=self.id)
        if w.fake:
            self.validate_pool_key(pool_key)
            self.pool_key = pool_key
            self.sock, self.peer = socket.socketpair()
        else:
            super().__init__(pool_key)
            # the handshake is not what is tested: a fresh connection has nothing to read
            select.select([], [self.sock], [], 2)
        if sched.current:
            sched.current.give_way(sched._me.i)

    def close(self):
        if self.sock is None:
            return
        if sched.current and not self.shut:
            sched.current.give_way(sched._me.i)
        if not self.shut:
            self.shut = True
            self.w.log.add("shut", c=self.id)
        super().close()

    def __del__(self):
        pass


class Pool(ConnectionPool):
    ConnectionCls = Conn


def world(s, fake):
    global W
    w = W = World(fake)
    c = s["cfg"]
    w.loose = c.get("loose")
    key = Conn.PoolKeyCls("127.0.0.1", peers.port)
    kw = dict(initial_connections=c["initial"], max_connections=c["max"], max_free_connections=c["maxfree"],
              min_free_connections=c["minfree"], block=c.get("block", False))
    if s.get("scope"):        # borrowed by way of the manager's borrowing scopes
        w.mgr, w.key, w.end = PoolManager(2, **kw), key, s["scope"]
        w.mgr.PoolCls = Pool
        w.pool = w.mgr.connection_pool_from_pool_key(key)
    else:
        w.pool = Pool(key, **kw)
    if not c.get("loose"):
        w.state(True)
    return w


def operate(w, p, st, mine):
    """one operation of borrower p; mine: the connections lent to it"""
    op = st[0]
    if op == "get":
        w.log.add("inv", p=p, op="get", c=0)
        try:
            conn = w.borrow(st)
            mine.append(conn)
            err, c = "", conn.id
        except EmptyPoolError:
            err, c = "empty", 0
        except ClosedPoolError:
            err, c = "closed", 0
        except Unmakeable:
            err, c = "create", 0
        except Exception as e:
            err, c = repr(e)[:120], 0
        w.state()
        w.log.add("ret", p=p, op="get", c=c, err=err)
    elif op == "put":
        if not mine:
            return
        i = next((i for i, x in enumerate(mine) if len(st) > 1 and x.id == st[1]), 0)
        conn = mine.pop(i)
        w.log.add("inv", p=p, op="put", c=conn.id)
        try:
            w.give_back(conn)
            err = ""
        except Exception as e:
            err = repr(e)[:120]
        w.state()
        w.log.add("ret", p=p, op="put", c=conn.id, err=err)
    elif op == "close":
        w.log.add("inv", p=p, op="close", c=0)
        try:
            if len(st) > 1 and st[1] == "with":
                with w.pool:
                    pass
            else:
                w.pool.close()
            err = ""
        except Exception as e:
            err = repr(e)[:120]
        w.state()
        w.log.add("ret", p=p, op="close", c=0, err=err)
    elif op == "die":
        c = st[1]
        if c == "idle":      # the newest idle one
            lent = {x.id for x in mine}
            c = next((i for i in sorted(w.conns, reverse=True) if i not in lent and not w.conns[i].shut and not w.conns[i].dead), 0)
        elif c == "mine":
            c = mine[-1].id if mine else 0
        w.die(c, st[2] if len(st) > 2 else "fin")
    elif op == "fail":
        w.fails += 1
    else:
        raise SystemExit("unknown step " + op)


def cfg_of(s):
    return {k: s["cfg"].get(k, False) for k in ("max", "maxfree", "minfree", "block", "loose")}


def seq(s):
    w = world(s, False)
    mine = {}
    for st in s["steps"]:
        operate(w, st[0], st[1:], mine.setdefault(st[0], []))
        w.fails = w.fails if st[1] == "fail" else 0
        w.state(True)
    ev = w.log.finish()
    w.cleanup()
    return dict(cfg=cfg_of(s), ev=ev)


def threads(s):
    rng = random.Random("%s/%s" % (drv.seed, s["sid"]))
    seen, out, runs = set(), [], 0

    def make(pol):
        nonlocal last
        w = world(s, True)
        hands = {p + 1: [] for p in range(len(s["threads"]))}
        for st in s.get("pre", []):
            operate(w, st[0], st[1:], hands[st[0]])
            w.state(True)
        w.fails = s.get("fails", 0)

        def body(p):
            def f():
                for st in s["threads"][p - 1]:
                    operate(w, p, st, hands[p])
            return f
        x = sched.Sched([body(p) for p in hands], pol, on_step=w.state, stuck=0.03)
        x.run()
        if x.errors:
            raise SystemExit("harness: %s" % x.errors)
        if x.deadlock:
            w.log.add("hang")
        else:
            w.state(True)
            for st in s.get("post", []):
                operate(w, st[0], st[1:], hands[st[0]])
                w.state(True)
        ev = w.log.finish()
        w.cleanup()
        return x, ev
    last = None
    for what, ev in sched.explore(make, rng, s["budget"]):
        runs += 1
        for e in ev:
            e.pop("t")
        k = json.dumps(ev)
        if k not in seen:
            seen.add(k)
            out.append(dict(cfg=cfg_of(s), ev=ev, run=what))
        if ev and ev[-1]["e"] == "hang":
            break
    for o in out:
        o["sid"] = s["sid"]
        drv.out.write(json.dumps(dict(o, runs=runs)) + "\n")
    return None


def stress(s):
    """free running threads on small switch intervals"""
    w = world(s, True)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    rng = random.Random("%s/%s" % (drv.seed, s["sid"]))
    seeds = [rng.random() for _ in range(s["n"])]

    def go(p):
        r = random.Random(seeds[p - 1])
        mine = []
        for _ in range(s["ops"]):
            if mine and r.random() < 0.5:
                operate(w, p, ["put"], mine)
            else:
                operate(w, p, ["get"], mine)
        while mine:
            operate(w, p, ["put"], mine)
    ths = [threading.Thread(target=go, args=(p,), daemon=True) for p in range(1, s["n"] + 1)]
    for t in ths:
        t.start()
    for t in ths:
        t.join(20)
    sys.setswitchinterval(old)
    if any(t.is_alive() for t in ths):
        w.log.add("hang")
    w.state(True)
    ev = w.log.finish()
    w.cleanup()
    return dict(cfg=cfg_of(s), ev=ev)


drv.run(lambda s: dict(seq=seq, threads=threads, stress=stress)[s["mode"]](s))
drv.done()
