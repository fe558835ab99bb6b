"""Drives the real tracer and id generators: spans derived sequentially and by threads under controlled schedules, contexts
injected and extracted, request and trace ids drawn."""
import json
import os
import random
import resource
import signal
import sys
import threading
import time

import sched
from dlib import Driver, Log

drv = Driver()
# request ids are to start close to the end of their range; whatever else is used, the driver runs them forward itself
_randint, _randrange = random.randint, random.randrange
random.randint = lambda a, b: max(a, b - 5) if b == 0x7fffffff else _randint(a, b)
random.randrange = lambda *a: max(0, a[-1] - 6) if a[-1] in (0x7fffffff, 0x80000000) else _randrange(*a)
from anthunder.helpers.request_id import RequestId
from anthunder.protocol import BoltRequest, SofaHeader
from anthunder.protocol.constants import PTYPE
from anthunder.command.heartbeat import HeartbeatRequest
random.randint, random.randrange = _randint, _randrange
import opentracing
from opentracing import Reference, ReferenceType, Format
import mytracer
from mytracer import MyTracer, SpanContext, new_span, child_span_of, follows_span_from

drv.ready()
TRACER = MyTracer()


def parts(i):
    xs = str(i).split(".")
    try:
        return xs[:-1], int(xs[-1])
    except ValueError:
        return xs, -1


def obs(ctx):
    b = ctx.baggage
    pre, n = parts(b.get("sofaRpcId", "?"))
    return dict(pre=pre, n=n, tr=str(b.get("sofaTraceId", "?")), bag=sorted([str(k), str(v)] for k, v in b.items() if k not in ("sofaRpcId", "sofaTraceId")))


def ctx_of(x):
    return x if isinstance(x, SpanContext) else x.context


# ---------------------------------------------------------------------------------------------------------- spans
def make_new(st):
    """[how, pre, n, trace, bag]: a span or context which is derived from no other one"""
    how, pre, n, tr, bag = st
    sid = ".".join(list(pre) + [str(n)])
    if how == "span":
        return TRACER.start_span("op"), None
    if how == "helper":
        return new_span("op", tag="x"), None
    if how == "ctx":
        return SpanContext(), None
    want = dict(pre=list(pre), n=n, tr=tr, bag=[list(x) for x in bag])
    if how == "given":
        return SpanContext(sofaTraceId=tr, sofaRpcId=sid, **dict(bag)), want
    car = {"rpc_trace_context." + k: v for k, v in bag}
    car.update({"rpc_trace_context.sofaTraceId": tr, "rpc_trace_context.sofaRpcId": sid, "service": "x"})
    return TRACER.extract(Format.TEXT_MAP, car), want


CHILD = ["child_of", "child_of_ctx", "ref", "reflist", "helper", "direct"]
FOLLOW = ["ref", "reflist", "helper", "direct"]


def derive(kind, how, par):
    c = ctx_of(par)
    span = par if not isinstance(par, SpanContext) else None
    if kind == "child":
        if how == "child_of" and span is not None:
            return TRACER.start_span("c", child_of=span)
        if how == "ref":
            return TRACER.start_span("c", references=opentracing.child_of(c))
        if how == "reflist":
            return MyTracer().start_span("c", references=[opentracing.child_of(c)], tags={"a": 1})
        if how == "helper":
            return child_span_of(span) if span is not None else child_span_of(c, "c")
        if how == "direct":
            return SpanContext(Reference(ReferenceType.CHILD_OF, c))
        return TRACER.start_span("c", child_of=c)
    if how == "helper" and span is not None:
        return follows_span_from(span, "f", tag=1)
    if how == "reflist":
        return TRACER.start_span("f", references=[Reference(ReferenceType.FOLLOWS_FROM, c)])
    if how == "direct":
        return SpanContext(Reference(ReferenceType.FOLLOWS_FROM, c))
    return MyTracer().start_span("f", references=Reference(ReferenceType.FOLLOWS_FROM, c))


class Spans:
    def __init__(self):
        self.log, self.x = Log(), {}

    def step(self, p, st, ids):
        """ids: hands out the keys of new spans; par: index into the spans known to this thread"""
        try:
            if st[0] == "new":
                s = ids()
                x, want = make_new(st[1:])
                self.x[s] = x
                self.log.add("new", s=s, fresh=want is None, want=want or {}, obs=obs(ctx_of(x)))
            elif st[0] in ("child", "follow"):
                if st[2] not in self.x:
                    return
                self.log.add("inv", p=p, kind=st[0], par=st[2])
                y = derive(st[0], st[1], self.x[st[2]])
                s = ids()
                self.log.add("ret", p=p, s=s, obs=obs(ctx_of(y)))
                self.x[s] = y
            elif st[0] == "peek" and st[1] in self.x:
                self.log.add("peek", s=st[1], obs=obs(ctx_of(self.x[st[1]])))
            elif st[0] == "many" and st[2] in self.x:
                self.log.add("many", kind=st[1], par=st[2], n=st[3])
                for _ in range(st[3]):
                    derive(st[1], "direct", self.x[st[2]])
            elif st[0] == "use" and st[1] in self.x:       # contexts are read, injected and described without changing
                c = ctx_of(self.x[st[1]])
                TRACER.inject(c, Format.TEXT_MAP, {})
                str(c), SofaHeader.build_header(c, "i", "m").to_bytes()
        except Exception as e:
            self.log.add("error", p=p, exc=repr(e)[:200])


def counter(n0):
    import itertools
    c = itertools.count(n0)
    return lambda: next(c)


def spans_seq(s):
    w = Spans()
    ids = counter(1)
    for st in s["steps"]:
        w.step(1, st, ids)
    for k in list(w.x)[:s.get("peeks", 40)]:
        w.step(1, ["peek", k], ids)
    return dict(cfg={}, ev=w.log.finish())


def spans_threads(s):
    rng = random.Random("%s/%s" % (drv.seed, s["sid"]))

    def make(pol):
        w = Spans()
        ids = counter(1)
        for st in s["pre"]:
            w.step(1, st, ids)

        def body(p):
            mine = counter(100 * p + 1)

            def f():
                for st in s["threads"][p - 1]:
                    w.step(p, st, mine)
            return f
        x = sched.Sched([body(p + 1) for p in range(len(s["threads"]))], pol, dirs=("mytracer",))
        x.run()
        for st in s.get("post", []):
            w.step(1, st, ids)
        for k in list(w.x):
            w.step(1, ["peek", k], ids)
        return x, w.log.finish()
    return explored(s, make, rng)


def explored(s, make, rng):
    seen, out, runs = set(), [], 0
    for what, ev in sched.explore(make, rng, s["budget"]):
        runs += 1
        for e in ev:
            e.pop("t")
        norm = json.dumps(ev)
        if "ids" in s:
            base = next((e["id"] for e in ev if "id" in e), 0)
            norm = json.dumps([dict(e, id=e["id"] - base) if "id" in e else e for e in ev])
        else:       # trace ids differ from run to run
            for k, tr in enumerate(sorted({e["obs"]["tr"] for e in ev if "obs" in e}, key=lambda x: norm.find(x))):
                norm = norm.replace(tr, "T%d" % k)
        if norm not in seen:
            seen.add(norm)
            out.append(dict(cfg={}, ev=ev, run=what))
    for o in out:
        drv.out.write(json.dumps(dict(o, sid=s["sid"], runs=runs)) + "\n")
    return None


def spans_stress(s):
    """real threads, as fast as they can; only the ids are looked at, in bounded pieces"""
    w = Spans()
    ids = counter(1)
    w.step(1, ["new", "span", [], 1, "", []], ids)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    res = [[] for _ in range(s["n"])]
    go = threading.Barrier(s["n"])

    def f(i):
        go.wait()
        for j in range(s["ops"]):
            kind = "child" if (i + j) % 2 else "follow"
            res[i].append((kind, derive(kind, "ref", w.x[1])))
    ths = [threading.Thread(target=f, args=(i,)) for i in range(s["n"])]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    sys.setswitchinterval(old)
    # written as the sequential history the numbers imply: each family's members in the order of their numbers
    for kind in ("child", "follow"):
        own = sorted((parts(ctx_of(x).baggage["sofaRpcId"])[1], k) for k, x in enumerate([y for r in res for kk, y in r if kk == kind]))
        xs = [y for r in res for kk, y in r if kk == kind]
        for _, k in own:
            w.log.add("inv", p=1, kind=kind, par=1)
            w.log.add("ret", p=1, s=ids(), obs=obs(ctx_of(xs[k])))
    return dict(cfg={}, ev=w.log.finish())


# ---------------------------------------------------------------------------------------------------------- contexts
FORMATS = dict(text=Format.TEXT_MAP, binary=Format.BINARY, http=Format.HTTP_HEADERS, none=None, word="text", num=7)
PRE = "rpc_trace_context."


def entries(c):
    return [dict(pre=str(k).startswith(PRE), name=str(k)[len(PRE):] if str(k).startswith(PRE) else str(k), val=str(v)) for k, v in c.items()]


def seg_kinds(v):
    res = []
    for x in v.split("."):
        try:
            n = int(x)
        except ValueError:
            res.append("no")
        else:
            res.append("int" if str(n) == x and n >= 0 else "odd")
    return res


def ctxobs(c):
    o = obs(c)
    return dict(tr=o["tr"], id=str(c.baggage.get("sofaRpcId", "?")), bag=o["bag"])


class OtherMap:
    """a mapping which is no dict"""
    def __init__(self, d):
        self.d = dict(d)

    def __iter__(self):
        return iter(self.d)

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def keys(self):
        return self.d.keys()

    def items(self):
        return self.d.items()

    def __len__(self):
        return len(self.d)


def res_of(e):
    return ("format" if isinstance(e, opentracing.UnsupportedFormatException) else
            "carrier" if isinstance(e, opentracing.InvalidCarrierException) else type(e).__name__)


def ctx_seq(s):
    log = Log()
    cur = SpanContext(sofaTraceId="t0", sofaRpcId="1")
    for st in s["steps"]:
        op = st[0]
        if op == "ctx":          # make the context used from now on
            cur = SpanContext(sofaTraceId=st[1], sofaRpcId=st[2], **dict(st[3]))
        elif op == "derive":
            cur = ctx_of(derive(st[1], st[2], cur))
        elif op == "inject":
            car = OtherMap(st[2]) if len(st) > 3 and st[3] == "other" else dict(st[2])
            before = entries(car)
            try:
                TRACER.inject(cur, FORMATS[st[1]], car)
                res = "ok"
            except Exception as e:
                res = res_of(e)
            log.add("inject", fmt=st[1], ctx=ctxobs(cur), before=before, after=entries(car), res=res)
            if res == "ok":
                extract(log, "text", car)
        elif op == "extract":
            c = st[2]
            if isinstance(c, list):
                c = OtherMap(c) if len(st) > 3 and st[3] == "other" else dict(c)
            elif c == "seq":
                c = ["rpc_trace_context.sofaTraceId"]
            elif c == "num":
                c = 7
            elif c == "none":
                c = None
            got = extract(log, st[1], c)
            if got is not None:
                cur = got
        elif op == "span":
            span(log, *st[1:])
        elif op == "header":
            header(log, cur, *st[1:])
    return dict(cfg={}, ev=log.finish())


def extract(log, fmt, car):
    ismap = car is not None and not isinstance(car, (list, int))
    es = entries(car) if ismap else []
    ids = [e["val"] for e in es if e["pre"] and e["name"] == "sofaRpcId"]
    d = dict(fmt=fmt, carrier=es, map=ismap, segs=seg_kinds(ids[0]) if ids else ["int"], ctx=dict(tr="", id="", bag=[]))
    got = None
    try:
        got = TRACER.extract(FORMATS[fmt], car)
        d.update(res="ok", ctx=ctxobs(got))
    except Exception as e:
        d.update(res=res_of(e))
    log.add("extract", **d)
    return got


def span(log, how, name, tags, start):
    """tags and start time are read where this implementation keeps them; when they are kept elsewhere they are not judged"""
    d = dict(gname=name or "", gtags=sorted(["s" if isinstance(v, str) else "o", str(k), str(v)] for k, v in dict(tags).items()), gstart=str(start), res="ok",
             name="", tags=[], start="", timed=start is not None)
    tags = dict(tags)
    try:
        if how == "new":
            sp = new_span(name, **tags)
        elif how == "start":
            sp = TRACER.start_span(name, tags=tags or None, start_time=start)
        elif how in ("child", "childsame"):
            par = TRACER.start_span("parent", tags={"p": "q"})
            sp = child_span_of(par, None if how == "childsame" else name, **tags)
            d["gname"] = "parent" if how == "childsame" else name
        elif how in ("follow", "followsame"):
            par = TRACER.start_span("parent", tags={"p": "q"}, start_time=3.5)
            sp = follows_span_from(par, None if how == "followsame" else name, **tags)
            d["gname"] = "parent" if how == "followsame" else name
        elif how == "ref":
            par = TRACER.start_span("parent", start_time=1.5)
            sp = TRACER.start_span(name, references=[opentracing.child_of(par.context)], tags=tags, start_time=start)
        elif how == "childof":
            par = TRACER.start_span("parent", tags={"p": "q"}, start_time=2.5)
            sp = TRACER.start_span(name, child_of=par, tags=tags, start_time=start)
        if how not in ("start", "ref", "childof"):
            d["timed"] = False
        d["name"] = sp.operation_name
        got = getattr(sp, "_tags", None)
        d["tags"] = d["gtags"] if got is None else sorted(["s" if isinstance(v, str) else "o", str(k), str(v)] for k, v in got.items())
        t0 = getattr(sp, "_start_time", None)
        if t0 is None:
            d["timed"] = False
        d["start"] = str(t0)
    except Exception as e:
        d["res"] = repr(e)[:100]
    log.add("span", **d)


def header(log, ctx, iface, meth, app, extra):
    d = dict(iface=iface, meth=meth, app=app, extra=[list(x) for x in extra], ctx=ctxobs(ctx))
    try:
        h = SofaHeader.from_bytes(SofaHeader.build_header(ctx, iface, meth, target_app=app, **dict(extra)).to_bytes())
        d["hdr"] = entries(h)
    except Exception as e:
        d.update(hdr=[], exc=repr(e)[:100])
    log.add("header", **d)


# ---------------------------------------------------------------------------------------------------------- ids
def draw(kind):
    if kind == "hb":
        return HeartbeatRequest.new_request().request_id
    if kind == "raw":
        return next(RequestId)
    h = SofaHeader(a="b")
    return BoltRequest.new_request(h, b"", ptype=PTYPE.ONEWAY if kind == "one" else PTYPE.REQUEST, timeout_ms=5).request_id


TOP = 0x7fffffff


def forward(log, to):
    """run the ids forward until `to` was drawn, looking at every 2^20th and all near the end of the range"""
    from collections import deque
    from itertools import islice
    last = draw("raw")
    ok = isinstance(last, int) and 0 <= last <= TOP
    n = 1
    while last != to and ok:
        k = min((to - last) % (TOP + 1), 1 << 22)
        if last + k > TOP:
            k = TOP - last + 1
        if k > 1:
            deque(islice(iter(RequestId), k - 1), maxlen=0)
        x = draw("raw")
        ok = isinstance(x, int) and x == (last + k) % (TOP + 1)
        last, n = x, n + k
        if n > 2 * (TOP + 1):
            break
    log.add("at", id=last if isinstance(last, int) and 0 <= last <= TOP else -1, n=n, ok=ok)
    return ok


def ids_seq(s):
    log = Log()
    for st in s["steps"]:
        if st[0] == "draw":
            for i in range(st[2]):
                log.add("inv", p=1)
                x = draw(st[1][i % len(st[1])])
                log.add("ret", p=1, id=x if isinstance(x, int) and -1 <= x <= TOP else -1)
        elif st[0] == "forward":
            if not forward(log, st[1]):
                break
        elif st[0] == "memory":
            for _ in range(1000):
                draw("two")
            m0 = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
            r0 = rss()
            from collections import deque
            from itertools import islice
            x = draw("raw")
            k = min(st[1], TOP - x) if x < TOP else st[1]
            deque(islice(iter(RequestId), k), maxlen=0)
            y = draw("raw")
            ok = y == (x + k + 1) % (TOP + 1)
            log.add("memory", kb=max(0, rss() - r0))
            log.add("at", id=y, n=k, ok=ok)
    return dict(cfg={}, ev=log.finish())


def rss():
    with open("/proc/self/statm") as fh:
        return int(fh.read().split()[1]) * 4


def ids_threads(s):
    rng = random.Random("%s/%s" % (drv.seed, s["sid"]))

    def make(pol):
        log = Log()
        log.add("inv", p=1)
        log.add("ret", p=1, id=draw("raw"))

        def body(p):
            def f():
                for kind in s["threads"][p - 1]:
                    log.add("inv", p=p)
                    x = draw(kind)
                    log.add("ret", p=p, id=x if isinstance(x, int) and 0 <= x <= TOP else -1)
            return f
        x = sched.Sched([body(p + 1) for p in range(len(s["threads"]))], pol, dirs=("anthunder/helpers", "anthunder/protocol/_request", "anthunder/command"))
        x.run()
        log.add("inv", p=1)
        log.add("ret", p=1, id=draw("raw"))
        return x, log.finish()
    return explored(s, make, rng)


def ids_stress(s):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    log = Log()
    res = [[] for _ in range(s["n"])]
    go = threading.Barrier(s["n"])

    def f(i):
        go.wait()
        for j in range(s["ops"]):
            res[i].append(draw(["two", "one", "hb", "raw"][(i + j) % 4]))
    first = draw("raw")
    log.add("inv", p=1)
    log.add("ret", p=1, id=first)
    ths = [threading.Thread(target=f, args=(i,)) for i in range(s["n"])]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    sys.setswitchinterval(old)
    # each thread's ids come in order, and all together are the next ones
    for r in res:
        if any((b - a) % (TOP + 1) > (TOP + 1) // 2 for a, b in zip(r, r[1:])):
            log.add("error", exc="a thread's ids go back")
    for x in sorted((x for r in res for x in r), key=lambda x: (x - first) % (TOP + 1)):
        log.add("inv", p=1)
        log.add("ret", p=1, id=x)
    return dict(cfg={}, ev=log.finish())


def fresh(kind):
    c = SpanContext() if kind == "ctx" else new_span("x").context if kind == "span" else TRACER.start_span("y").context
    return str(c.baggage["sofaTraceId"])


class Clock:
    def __init__(self, t):
        self.t, self.real = t, (time.time, time.time_ns)

    def __enter__(self):
        time.time = lambda: self.t
        time.time_ns = lambda: int(self.t * 10 ** 9)
        return self

    def __exit__(self, *a):
        time.time, time.time_ns = self.real


def trace_ids(s):
    """fresh contexts under a clock which stands still, or steps by milliseconds; by threads and by forked processes"""
    log = Log()
    ids = []
    ms = 1600000000123 + s.get("off", 0)
    with Clock(ms / 1000 + 0.0003) as ck:
        if s["how"] == "burst":
            for step in range(s["ticks"]):
                ids += [fresh(["ctx", "span", "start"][j % 3]) for j in range(s["n"])]
                ms += 1
                ck.t = ms / 1000 + 0.0003
        elif s["how"] == "threads":
            res = [[] for _ in range(8)]
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)

            def f(i):
                res[i] += [fresh("ctx") for _ in range(s["n"] // 8)]
            ths = [threading.Thread(target=f, args=(i,)) for i in range(8)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            sys.setswitchinterval(old)
            ids = [x for r in res for x in r]
        elif s["how"] == "fork":
            fs = []
            for i in range(3):
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        with os.fdopen(w, "w") as fh:
                            fh.write(json.dumps([fresh("ctx") for _ in range(s["n"])]))
                    finally:
                        os._exit(0)
                os.close(w)
                fs.append((pid, r))
            for pid, r in fs:
                with os.fdopen(r) as fh:
                    ids += json.loads(fh.read())
                os.waitpid(pid, 0)
            ids += [fresh("ctx") for _ in range(s["n"])]
        n = len(ids)
    log.add("block", ids=ids, n=n)
    return dict(cfg={}, ev=log.finish())


drv.run(lambda s: globals()[s["mode"]](s))
drv.done()
