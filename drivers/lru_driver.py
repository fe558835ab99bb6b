"""Drives the real PoolManager and RecentlyUsedContainer, sequentially and with threads under controlled schedules."""
import json
import random
import socket

import sched
from dlib import Driver, Log

drv = Driver()
from mysockpool import ConnectionPool, PoolManager, SocketConnection
from mysockpool.recently_used_container import RecentlyUsedContainer
from mysockpool.exceptions import *
from mysockpool import exceptions as X

EmptyPoolError, ClosedPoolError = X.EmptyPoolError, X.ClosedPoolError
MysockpoolError = tuple(v for v in vars(X).values() if isinstance(v, type) and issubclass(v, Exception) and v.__module__ == X.__name__)

drv.ready()
W = None


class World:
    def __init__(self, s):
        self.s, self.log = s, Log()
        self.pools, self.fails, self.conns = [], 0, 0
        self.socks = []


def me():
    return getattr(sched._me, "i", None) if sched.current else None


def who():
    return W.who if me() is None else me() + 1


def pause():
    if sched.current and me() is not None:
        sched.current.give_way(me())


class Fake(SocketConnection):
    def __init__(self, pool_key):
        self.validate_pool_key(pool_key)
        self.pool_key = pool_key
        W.conns += 1
        self.id = W.conns
        self.sock, self.peer = socket.socketpair()
        W.socks += [self.sock, self.peer]

    def __del__(self):
        pass


class Pool(ConnectionPool):
    ConnectionCls = Fake

    def __init__(self, *a, **kw):
        pause()
        self.w = W
        if W.fails > 0:
            W.fails -= 1
            W.log.add("failed", p=who())
            raise OSError("no pool")
        W.pools.append(self)
        self.id = len(W.pools)
        W.log.add("made", p=who(), v=self.id)
        super().__init__(*a, **kw)
        pause()

    def close(self):
        pause()
        self.w.log.add("shut", v=self.id)
        super().close()

    def get_conn(self, *a, **kw):
        c = super().get_conn(*a, **kw)
        W.log.add("got", p=who(), v=self.id, c=c.id)
        return c

    def put_conn(self, conn):
        if conn is not None and getattr(conn, "scoped", False):
            conn.scoped = False
            W.log.add("back", p=who(), v=self.id, c=conn.id)
        super().put_conn(conn)


class Manager(PoolManager):
    PoolCls = Pool


class Val:
    """a value of a bare container"""
    def __init__(self):
        W.pools.append(self)
        self.id = len(W.pools)

    def close(self):
        pause()
        W.log.add("shut", v=self.id)


class Abort(BaseException):
    pass


def key(k):
    return Fake.PoolKeyCls("127.0.0.%d" % k, 1000 + k)


ERRORS = dict(value=ValueError, name=NameError, attr=AttributeError, kbd=KeyboardInterrupt, abort=Abort, gen=GeneratorExit,
              stop=StopIteration, rt=RuntimeError, empty=EmptyPoolError, closed=ClosedPoolError, sys=SystemExit)


def operate(w, p, st, scopes):
    op = st[0]
    w.who = p
    k = st[1] if len(st) > 1 and isinstance(st[1], int) else 0
    cont = w.target.pools if isinstance(w.target, PoolManager) else w.target
    r, ks, v = 0, [], 0
    if op == "fail":
        w.fails += 1
        return
    if op == "exit":
        if not scopes:
            return
        cm, conn = scopes.pop()
        how = st[1] if len(st) > 1 else None
        v = 1 if how else 0       # the exception has to come out again
        w.log.add("inv", p=p, op="exit", k=0, v=v)
        try:
            if how is None:
                cm.__exit__(None, None, None)
            else:
                e = ERRORS[how](*("scope", "x")[:2 if how in ("empty", "closed") else 1])
                try:
                    r = 0 if cm.__exit__(type(e), e, None) else 1
                except BaseException as x:
                    r = 1 if x is e or how in ("stop",) else -1
        except BaseException:
            r = -1
        w.log.add("ret", p=p, r=r, ks=[])
        return
    val = None
    if op == "set":
        val = Val() if not isinstance(w.target, PoolManager) else None
        if val is None:
            W.target, t = w.target, w.target
            val = t._new_pool(key(k)) if hasattr(t, "_new_pool") else Pool(key(k))
        else:
            w.log.add("made", p=p, v=val.id)
        v = val.id
    w.log.add("inv", p=p, op=op, k=k, v=v)
    try:
        if op == "pool":
            r = w.target.connection_pool_from_pool_key(key(k)).id
        elif op == "enter":
            cm = w.target.connection_scope(key(k))
            conn = cm.__enter__()
            conn.scoped = True
            scopes.append((cm, conn))
            r = conn.id
        elif op == "get":
            x = cont.get(key(k))
            r = x.id if x is not None else 0
        elif op == "item":
            pass
        elif op == "set":
            cont[key(k)] = val
        elif op == "del":
            try:
                del cont[key(k)]
                r = 1
            except KeyError:
                r = 0
        elif op == "clear":
            if isinstance(w.target, PoolManager):
                if len(st) > 1:
                    try:
                        with w.target:
                            if st[1] == "raise":
                                raise Abort()
                        r = -1 if st[1] == "raise" else 0
                    except Abort:
                        pass
                else:
                    w.target.clear()
            else:
                cont.clear()
        elif op == "len":
            r = len(cont)
        elif op == "keys":
            ks = sorted(x.port - 1000 for x in cont.keys())
        else:
            raise SystemExit("unknown step " + op)
    except MysockpoolError:
        r = -3
    except OSError as e:
        r = -2 if str(e) == "no pool" else -1
    except Exception as e:
        r = -1
        w.log.add("ret", p=p, r=r, ks=ks, exc=repr(e)[:100])
        return
    w.log.add("ret", p=p, r=r, ks=ks)


def world(s):
    global W
    w = W = World(s)
    w.who = 1
    if s["target"] == "manager":
        w.target = Manager(s["cfg"]["max"], **s.get("kw", {})) if not s.get("default") else Manager()
    else:
        w.target = RecentlyUsedContainer(s["cfg"]["max"], dispose_func=lambda v: v.close())
    return w


def close(w):
    for x in w.socks:
        x.close()


def seq(s):
    w = world(s)
    scopes = {}
    for st in s["steps"]:
        operate(w, st[0], st[1:], scopes.setdefault(st[0], []))
        if st[1] != "fail":
            w.fails = 0
    ev = w.log.finish()
    close(w)
    return dict(cfg=s["cfg"], ev=ev)


def threads(s):
    rng = random.Random("%s/%s" % (drv.seed, s["sid"]))
    seen, out, runs = set(), [], 0

    def make(pol):
        w = world(s)
        scopes = {p + 1: [] for p in range(len(s["threads"]))}
        for st in s.get("pre", []):
            operate(w, st[0], st[1:], scopes[st[0]])

        def body(p):
            def f():
                for st in s["threads"][p - 1]:
                    operate(w, p, st, scopes[p])
            return f
        x = sched.Sched([body(p) for p in scopes], pol)
        x.run()
        if x.errors:
            raise SystemExit("harness: %s" % x.errors)
        if x.deadlock:
            w.log.add("hang")
        else:
            for st in s.get("post", []):
                operate(w, st[0], st[1:], scopes[st[0]])
        ev = w.log.finish()
        close(w)
        return x, ev
    for what, ev in sched.explore(make, rng, s["budget"]):
        runs += 1
        for e in ev:
            e.pop("t")
        k = json.dumps(ev)
        if k not in seen:
            seen.add(k)
            out.append(dict(cfg=s["cfg"], ev=ev, run=what))
        if ev and ev[-1]["e"] == "hang":
            break
    for o in out:
        o["sid"] = s["sid"]
        drv.out.write(json.dumps(dict(o, runs=runs)) + "\n")
    return None


drv.run(lambda s: dict(seq=seq, threads=threads)[s["mode"]](s))
drv.done()
