"""P03-P10: the listeners, decided by spec/ServerAbs.tla (abstract), AioServer.tla / SockServer.tla (designs)."""
from common import *

ALLM = ["echo", "other", "big", "huge", "empty", "none", "text", "emptytext", "obj", "zero", "boom", "exit", "stop", "timeout",
        "ftimeout", "acancel", "fcancel", "keyerr", "attr", "value", "os", "eof", "kbd", "gen", "base", "proto", "noproc", "server", "client"]
BYTES = ["echo", "other", "big", "empty"]
BADRES = ["none", "text", "emptytext", "obj", "zero"]
RAISES = ALLM[10:]


def reg(svc, tag, meths=ALLM, fail="", a=(), kw=None):
    return dict(svc=svc, tag=tag, meths=list(meths), fail=fail, a=list(a), kw=kw or {})


LST1 = [[reg("A", "1A"), reg("com.x.B:1.0", "1B", a=["p1", 2], kw=dict(k="v")), reg("F", "1F", fail="boom"),
         reg("Fattr", "1Fattr", fail="attr"), reg("Fkey", "1Fkey", fail="key"), reg("Fexit", "1Fexit", fail="exit"),
         reg("Fnoproc", "1Fnoproc", fail="noproc"), reg("Only", "1Only", meths=["echo"])]]


class Scn:
    """builds one scenario"""

    def __init__(self, kind="aio", lst=None, kinds=None, salt=0):
        self.s = dict(kind=kind, lst=lst or LST1, reqs={}, steps=[])
        if kinds:
            self.s["kinds"] = kinds
        self.n = 0
        self.nc = 0
        self.ids = {}
        self.salt = salt

    def conn(self, l=1):
        self.nc += 1
        self.s["steps"].append(["conn", self.nc, l])
        return self.nc

    def req(self, svc="A", meth="echo", ty="two", cmd="req", cls=True, hdr=True, T=-1, gate=False, ctx=None, ctxok=True,
            body=None, id=None, runs=None, **kw):
        self.n += 1
        r = self.n
        if body is None:
            body = b"%d|%d" % (self.salt, r)
        if cmd == "hb":
            svc, meth, body, ctx, T = "", "", b"", [], 0
        if ctx is None:
            ctx = [["sofaTraceId", "trace%d" % r], ["sofaRpcId", "1.%d" % r], ["user", "u%d" % r]]
        q = dict(id=100 + r if id is None else id, ty=ty, cmd=cmd, cls=cls, hdr=hdr, svc=svc, meth=meth, ctxok=ctxok,
                 ctx=ctx if cmd == "req" else [], body=body.hex(), T=T, gate=gate, **kw)
        if runs is None:
            regs = self.s["lst"][0]
            runs = (cmd == "req" and cls and hdr and ctxok
                    and any(g["svc"] == svc and meth in g["meths"] and not g["fail"] for g in regs))
        q["runs"] = runs
        self.s["reqs"][str(r)] = q
        return r

    def step(self, *a):
        self.s["steps"].append(list(a))
        return self

    def send(self, c, rs, seg="one"):
        return self.step("send", c, rs if isinstance(rs, list) else [rs], seg)


KINDS = dict(
    ok=dict(gate=True), err=dict(gate=True, meth="boom"), obj=dict(gate=True, meth="obj"),
    late=dict(gate=True, T=250), one=dict(gate=True, ty="one"), oneerr=dict(gate=True, ty="one", meth="boom"),
    oneunk=dict(ty="one", svc="X"), onebad=dict(ty="one", cls=False), hb=dict(cmd="hb"), unksvc=dict(svc="X"),
    unkmeth=dict(meth="zip"), nosvc=dict(svc=""), nometh=dict(meth=""), badcls=dict(cls=False), badhdr=dict(hdr=False),
    resp=dict(cmd="resp"), badctx=dict(ctx=[["sofaRpcId", "x.y"]], ctxok=False), ctorfail=dict(svc="F"), cut=dict())


def path_scenario(kinds, conns, path, kind="aio", salt=0, model="aio"):
    """a path of the design's state graph as driver steps: environment actions are performed, observable system
    actions are awaited"""
    b = Scn(kind, salt=salt)
    for _ in range(max(conns)):
        b.conn()
    rr = {}
    for i, k in enumerate(kinds):
        rr[i + 1] = b.req(id=100 + i if conns[i] == 1 else 100 + i - 1, **KINDS[k])
    steps = []
    dead = set()
    for a, x in path:
        if a == "Send":
            c = conns[x - 1]
            if kinds[x - 1] == "cut":
                steps.append(["part", c, rr[x], 30 + 17 * x])
            else:
                steps.append(["send", c, [rr[x]], "one"])
        elif a == "Release":
            steps.append(["release", rr[x]])
        elif a == "Eof":
            steps.append(["eof", x, "half"])
            dead.add(x)
        elif a == "Start":
            steps.append(["await", "start", rr[x]])
        elif a == "End":
            steps.append(["await", "end", rr[x]])
        elif a in ("Reply", "Reject", "Expire"):
            c = conns[x - 1]
            # no reply can be awaited for one-way requests or once the peer has shut down its side
            if "one" not in kinds[x - 1] and c not in dead:
                steps.append(["await", "reply", rr[x]])
        elif a == "Close":
            steps.append(["await", "closed", x])
    b.s["steps"] += steps
    return b.s


def design(c, module, kinds, conns, workers=2, emit=False, live=False, defect="none"):
    text = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " Kind <- KindV", " ConnOf <- ConnV", " Workers = %d" % workers,
                      " Emit = %s" % ("TRUE" if emit else "FALSE"), ' Defect = "%s"' % defect,
                      "INVARIANTS Clean Settled Once TypeOK", "CHECK_DEADLOCK FALSE",
                      "VIEW " + ("gview" if emit else "view")]
                     + (["ACTION_CONSTRAINT EmitEdge", "CONSTRAINT EmitInit"] if emit else [])
                     + (["PROPERTY Answered"] if live else [])) + "\n"
    mc = "MC" + module
    with open(os.path.join(SPEC, mc + ".tla")) as fh:
        pass
    env = dict(KINDS=json.dumps(kinds), CONNS=json.dumps(conns))
    name = "%s%s%s" % (module, kinds, "" if workers == 2 else "/workers=%d" % workers)
    return mc, text, env, name


def paths(c, module, kinds, conns, limit, kind="aio"):
    mc, text, env, name = design(c, module, kinds, conns, workers=30, emit=True)
    text = text.replace("INVARIANTS Clean Settled Once TypeOK", "INVARIANTS TypeOK")
    f = os.path.join(c.work, "kinds.json")
    json.dump(dict(kinds=kinds, conns=conns), open(f, "w"))
    g = c.graph(mc, text, name=name + "/graph", env=dict(MODEL=f))
    ps = g.cover(c.rng, maxlen=40, limit=limit)
    seen, out = set(), []
    for p in ps:
        s = path_scenario(kinds, conns, p, kind, model=kind)
        k = json.dumps([s["steps"], s["reqs"]])
        if k not in seen:
            seen.add(k)
            out.append(s)
    c.cov["graph_edges"] = c.cov.get("graph_edges", 0) + g.total
    c.cov["graph_edges_covered_by_scenarios"] = c.cov.get("graph_edges_covered_by_scenarios", 0) + g.covered
    return out


def model(c, module, kinds, conns, workers=2, live=False, defect="none", expect=None):
    mc, text, env, name = design(c, module, kinds, conns, workers, live=live, defect=defect)
    f = os.path.join(c.work, "kinds.json")
    json.dump(dict(kinds=kinds, conns=conns), open(f, "w"))
    if defect != "none":
        name += "/" + defect
    return c.mc(mc, text, name=name, env=dict(MODEL=f), workers=8, expect_violation=expect)


# ------------------------------------------------------------------------------------------------ scenario families
def salted(scs):
    """bodies are unique over all scenarios"""
    for i, s in enumerate(scs):
        for q in s["reqs"].values():
            if q["body"] and not q.get("rawbody"):
                q["body"] = (b"%d:" % i).hex() + q["body"]
    return scs


def fam_outcomes(kind="aio", metas=None):
    """every request kind and service outcome, alone and next to a healthy request on the same connection"""
    out = []
    reqs = [dict(meth=m) for m in ALLM]
    reqs += [dict(meth=m, T=3000) for m in ("echo", "empty", "none", "boom", "timeout", "acancel")]
    reqs += [dict(svc="X"), dict(meth="zip"), dict(svc="Only", meth="other"), dict(svc=""), dict(meth=""),
             dict(svc="", meth=""), dict(cls=False), dict(cls=False, clsname=""),
             dict(cls=False, clsname="com.alipay.sofa.rpc.core.request.SofaRequesT"),
             dict(cls=False, clsname="com.alipay.sofa.rpc.core.response.SofaResponse"),
             dict(cmd="resp"), dict(svc="F"), dict(svc="Fattr"), dict(svc="Fkey"), dict(svc="Fexit"), dict(svc="Fnoproc"), dict(cmd="hb"),
             dict(names="target"), dict(names="service"), dict(names="differ"), dict(names="differ", other="nobody"), dict(svc="com.x.B:1.0"), dict(codec=1), dict(ctx=[])]
    reqs += [dict(hdr=False, badhdr=b) for b in ("short", "utf8", "neg", "odd", "big")]
    reqs += [dict(ctx=[["sofaRpcId", v]], ctxok=False) for v in ("x", "1.x", "", "1.")]
    for i, q in enumerate(reqs):
        b = Scn(kind)
        c1 = b.conn()
        r = b.req(id=[0, 2 ** 31 - 1, 7][i % 3], **q)
        b.send(c1, r)
        if kind == "aio":
            h = b.req(id=1000)
            b.step("await", "reply", r) if i % 2 else None
            b.send(c1, h)
            o = b.req(ty="one", **{k: v for k, v in q.items() if k != "ty"}) if q.get("cmd") != "hb" else b.req(ty="one")
            e = b.req()
            b.send(c1, [o, e])
        out.append(b.s)
    return out


def fam_random(rng, n, kind="aio", nreq=24):
    """many concurrent requests of random kinds on several connections, released in random order"""
    out = []
    for _ in range(n):
        b = Scn(kind)
        nc = rng.choice([1, 2, 3, 4])
        cs = [b.conn() for _ in range(nc)]
        per = {c: [] for c in cs}
        gated = []
        nid = {c: rng.choice([0, 1, 500, 2 ** 31 - 200]) for c in cs}
        k = rng.randrange(3, nreq)
        for i in range(k):
            c = rng.choice(cs)
            x = rng.random()
            q = {}
            if x < .45:
                q = dict(meth=rng.choice(BYTES), svc=rng.choice(["A", "com.x.B:1.0"]))
            elif x < .6:
                q = dict(meth=rng.choice(RAISES))
            elif x < .68:
                q = dict(meth=rng.choice(BADRES))
            elif x < .76:
                q = dict(cmd="hb")
            elif x < .9:
                q = dict(rng.choice([KINDS[z] for z in ("unksvc", "unkmeth", "nosvc", "nometh", "badcls", "badhdr", "resp",
                                                        "badctx", "ctorfail", "oneunk", "onebad")]))
            else:
                q = dict(ty="one", meth=rng.choice(["echo", "boom", "none"]))
            nid[c] += 1
            if "gate" not in q and q.get("cmd", "req") == "req" and rng.random() < .4:
                q["gate"] = True
            r = b.req(id=nid[c], **q)
            if rng.random() < .3 and b.s["reqs"][str(r)]["body"]:
                b.s["reqs"][str(r)]["body"] += ("%02x" % rng.randrange(256)) * rng.choice([1, 100, 5000])
            if b.s["reqs"][str(r)].get("gate") and b.s["reqs"][str(r)]["runs"]:
                gated.append(r)
            per[c].append(r)
        # interleave sending over connections with random grouping and segmentation
        todo = {c: list(v) for c, v in per.items() if v}
        rel = []
        while todo:
            c = rng.choice(sorted(todo))
            m = rng.choice([1, 1, 2, 3, 8])
            grp, todo[c] = todo[c][:m], todo[c][m:]
            if not todo[c]:
                del todo[c]
            big = any(len(b.s["reqs"][str(r)]["body"]) > 2000 for r in grp)
            b.send(c, grp, rng.choice(["one", "one", "rand", 7] if not big else ["one", 4096]))
            rel += [r for r in grp if r in gated]
            if rel and rng.random() < .4:
                b.step("release", rel.pop(rng.randrange(len(rel))))
        rng.shuffle(rel)
        for r in rel[:len(rel) // 2]:
            b.step("await", "start", r)
            b.step("release", r)
            if rng.random() < .5:
                b.step("await", "end", r)
        out.append(b.s)
    return out


def fam_registry(rng, n):
    """several listeners of both kinds in one process, overlapping interface names, constructor arguments"""
    out = []
    for j in range(n):
        nl = rng.choice([2, 3])
        kinds = [rng.choice(["aio", "sock"]) for _ in range(nl)]
        if j == 0:
            kinds, nl = ["aio", "aio"], 2
        elif j == 1:
            kinds, nl = ["sock", "sock"], 2
        elif j == 2:
            kinds, nl = ["sock", "aio", "sock"], 3
        names = ["A", "B:1.0", "C", "com.alipay.rpc.common.service.facade.pb.SampleServicePb:1.0", "\u670d\u52a1"]
        if j % 3 == 2:
            names = rng.sample(ODD_NAMES, 9)
        lst = []
        for i in range(nl):
            regs = []
            for nme in rng.sample(names, rng.randrange(1, len(names) + 1)):
                regs.append(reg(nme, "%d%s" % (i + 1, nme), meths=rng.choice([["echo"], ["echo", "other"], ["other"]]),
                                a=rng.choice([[], ["x%d" % i], [1, "y"]]), kw=rng.choice([{}, {"k": "v%d" % i}])))
            lst.append(regs)
        for li in range(nl):
            b = Scn(kinds[li], lst=lst, kinds=kinds)
            cs = [b.conn(li + 1)]
            rs = []
            for nme in names:
                for m in ("echo", "other"):
                    ok = any(g["svc"] == nme and m in g["meths"] for g in lst[li])
                    r = b.req(svc=nme, meth=m, runs=ok, ty=rng.choice(["two", "two", "one"]))
                    if kinds[li] == "aio":
                        if rng.random() < .3:
                            cs.append(b.conn(li + 1))
                        b.send(rng.choice(cs), r)
                    else:
                        b.send(b.conn(li + 1), r)
            out.append(b.s)
    return out


def near(name):
    """names easily taken for this one"""
    bare = name.split(":")[0]
    return [n for n in dict.fromkeys([
        bare, name + ":1.0", name + ":2.0", name + ":", bare + ":9", name + "@DEFAULT", name + "#m", name + "/m", name + ".m", name + " ", " " + name,
        name + "\0", name + "\n", name.lower(), name.upper(), name.swapcase(), name.replace(".", "/"), name.replace(".", "_"), name.split(".")[-1], bare.split(".")[-1],
        "com." + name, name[:-1], name[1:], name + name[-1], name + "*", "*", name + "$", "%s?" % name, name + "\u200b", name.replace("o", "\u043e")]) if n and n != name]


def fam_near(rng, n, kind="aio"):
    """services and methods whose names are close to registered ones; requests alike in everything but one thing"""
    out = []
    for name, meth in (("com.x.Bo", "echo"), ("com.x.B:1.0", "other"), ("A", "echo"), ("Ao.B", "other")):
        lst = [[reg(name, "1", meths=[meth], a=["p"])]]
        for what in ("svc", "meth"):
            names = near(name if what == "svc" else meth)
            rng.shuffle(names)
            for i in range(0, min(len(names), n), 9):
                b = Scn(kind, lst=lst)
                c = b.conn() if kind == "aio" else 0
                for x in names[i:i + 9]:
                    q = dict(svc=x, meth=meth) if what == "svc" else dict(svc=name, meth=x)
                    if rng.random() < .3:
                        q.update(names="differ", other=name)
                    b.send(c or b.conn(), b.req(**q))
                    if rng.random() < .3:
                        b.send(c or b.conn(), b.req(svc=name, meth=meth))
                b.send(c or b.conn(), b.req(svc=name, meth=meth))
                out.append(b.s)
    return out


def fam_alike(rng, n, kind="aio"):
    """requests with equal trace and span ids (and some with equal ids, methods or sizes), other entries differing"""
    out = []
    for i in range(n):
        b = Scn(kind)
        cs = [b.conn(), b.conn()]
        hold = rng.random() < .5
        rs = []
        for j in range(8):
            ctx = [["sofaTraceId", "t"], ["sofaRpcId", rng.choice(["1", "1", "1.1"])]]
            ctx += rng.sample([["user", "u%d" % j], ["user2", "x"], ["sofaPenAttrs", "k=%d" % j], ["e", ""]], rng.randrange(4))
            if rng.random() < .2:
                ctx = ctx[rng.randrange(3):]
            rng.shuffle(ctx)
            r = b.req(svc=rng.choice(["A", "A", "com.x.B:1.0"]), ctx=ctx, meth=rng.choice(["echo", "echo", "other"]), gate=hold, ty=rng.choice(["two", "two", "one"]))
            rs.append(r)
            b.send(rng.choice(cs) if kind == "aio" else b.conn(), r)
            if not hold and rng.random() < .6:
                b.step("await", "end", r)
        rng.shuffle(rs)
        if hold:
            for r in rs:
                b.step("release", r)
        out.append(b.s)
    return out


def fam_sameid(rng, n):
    """several requests with one id on a connection: in progress at the same time or one after another"""
    out = []
    for i in range(n):
        b = Scn()
        c, d = b.conn(), b.conn()
        b.s["sameid"] = True
        rs = []
        for j in range(rng.choice([2, 3, 6])):
            q = dict(rng.choice([dict(), dict(), dict(meth="empty"), dict(meth="boom"), dict(meth="obj"), dict(cmd="hb"), dict(svc="X"), dict(cls=False), dict(hdr=False),
                                 dict(ty="one"), dict(cmd="resp")]))
            if "cmd" not in q and rng.random() < .6:
                q["gate"] = True
            if i < 3:
                q = [dict(gate=True), dict(), dict(meth="empty", gate=True)][i]
            r = b.req(id=rng.choice([7, 7, 7, 8]) if i > 3 else 7, **q)
            if q.get("gate") and b.s["reqs"][str(r)]["runs"]:
                rs.append(r)
            b.send(rng.choice([c, c, d]) if i > 3 else c, r)
            if rs and rng.random() < .3:
                b.step("release", rs.pop(rng.randrange(len(rs))))
        rng.shuffle(rs)
        for r in rs:
            b.step("await", "start", r)
        for r in rs:
            b.step("release", r)
        b.send(c, b.req(id=7))
        out.append(b.s)
    return out


def fam_hold(rng, n, kind="aio"):
    """the listener's threads are held up at some of their lines, so that other threads get ahead of them"""
    out = fam_random(rng, n, kind, 12)
    for i, s in enumerate(out):
        top = rng.choice([100, 600, 3000])
        s["hold"] = dict(who="rest", n=sorted(rng.sample(range(1, top), 8)), ms=rng.choice([5, 15, 40]))
    return out


def fam_bodies(kind="aio"):
    """bodies and contexts of many shapes reach the service unchanged"""
    out = []
    for body in (b"", b"\0", b"\xff" * 3, bytes(range(256)), b"x" * 65536, b"y" * 300000):
        for ctx in ([], [["sofaTraceId", "t"]], [["sofaRpcId", "1.2.3"], ["sofaTraceId", "abc"], ["k", ""], ["k.k", "v\u00e9"]],
                    [["sofaPenAttrs", "a=b&c=d"], ["sofaCallerApp", "app"], ["sofaRpcId", "0.1.12"]]):
            b = Scn(kind)
            c = b.conn()
            r = b.req(body=body, ctx=ctx, meth="echo", rawbody=True)
            b.send(c, r)
            if kind == "aio":
                b.step("await", "end", r)
            out.append(b.s)
    # identical bodies in flight at the same time
    if kind == "aio":
        b = Scn(kind)
        c, d = b.conn(), b.conn()
        for i in range(6):
            b.send([c, d][i % 2], b.req(body=b"same", ctx=[["k", "v"]], meth="echo"))
        out.append(b.s)
        # strictly one after another on one connection: nothing of the previous request may be kept
        b = Scn(kind)
        c = b.conn()
        for i in range(8):
            r = b.req(svc=["A", "com.x.B:1.0"][i % 2], ctx=[["k%d" % i, "v"]], meth="echo")
            b.send(c, r)
            b.step("await", "reply", r)
        out.append(b.s)
    return out


def fam_slow_reader(rng, thorough):
    """peers which do not read while large answers are due: writing waits in many places at once"""
    out = []
    for i in range(12 if thorough else 4):
        b = Scn()
        cs = [b.conn() for _ in range(1 + i % 2)]
        for c in cs:
            b.step("pause", c)
        for j in range(16):
            c = cs[j % len(cs)]
            r = b.req(meth=["huge", "huge", "big", "echo"][(i + j) % 4] if j % 5 else ["boom", "empty", "huge"][(i + j) % 3], T=60000 if i % 2 else -1)
            if j == 7:
                b.send(c, b.req(cmd="hb"))
            if j == 9:
                b.send(c, b.req(svc="nobody"))
            if j == 11:
                b.send(c, b.req(hdr=False, badhdr="utf8"))
            if j == 13:
                b.send(c, b.req(ty="one", meth="huge"))
            b.send(c, r)
        # the server may stop reading meanwhile (back pressure), so nothing can be awaited here
        b.step("sleep", 400)
        if i % 3 == 1:
            c = b.conn()         # others are served all the same
            r = b.req()
            b.send(c, r)
            b.step("await", "reply", r)
        for c in cs:
            b.step("resume", c)
        out.append(b.s)
    return out


def fam_large(rng, thorough, kind="aio"):
    """bodies of every magnitude, whole and in pieces, followed by another request on the same connection"""
    out = []
    for n in [0, 1, 21, 22, 65535, 65536, 65537, 131072, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3000000] + ([(1 << 24) - 1, 1 << 24, 20000000] if thorough else [(1 << 24) + 1]):
        for seg in ("one", 60000) if n > 1000 else ("one",):
            b = Scn(kind)
            c = b.conn()
            r = b.req(body=(b"%d~%d|" % (len(out), n) + b"\x00\xff" * (n // 2 + 1))[:n])
            if n == 0:
                b.s["reqs"][str(r)].update(gate=False)
            b.send(c, r, seg)
            b.step("await", "reply", r)
            if kind == "aio":
                x = b.req()
                b.send(c, x)
                b.step("await", "reply", x)
            out.append(b.s)
    for n in (66000, 270000, (1 << 20) + 5, 2500000) if kind == "aio" else ():     # others right behind them
        b = Scn(kind)
        c = b.conn()
        rs = [b.req(body=(b"%d~%d|" % (j, n) + b"\x00\xff" * n)[:n // (j + 1)] if j % 2 else b"%d~s" % j) for j in range(5)]
        b.send(c, rs)
        for r in rs:
            b.step("await", "reply", r)
        out.append(b.s)
    return out


def fam_long(rng, thorough, kind="aio", ms=None):
    """silence: between requests, in the middle of a frame, while a service runs, before the first byte"""
    out = []
    ms = ms or (11000 if thorough else 3200)
    for k in ("idle", "frame", "service", "first", "notimeout"):
        for p in ((1, 21, 40, -3) if k == "frame" else (0,)):
            b = Scn(kind)
            c, d = b.conn(), b.conn()
            if k == "idle" and kind == "aio":
                for j in range(2):
                    x = b.req()
                    b.send(c, x)
                    b.step("await", "reply", x)
                    b.step("sleep", ms if j else ms // 2)
            elif k == "frame":
                x = b.req()
                b.step("part", c, x, p)
                b.step("sleep", ms)
                b.step("rest", c, x)
                b.step("await", "reply", x)
                c = c if kind == "aio" else b.conn()
            elif k in ("service", "notimeout"):
                x = b.req(gate=True, T=-1 if k == "service" else rng.choice([0, 60000, 2 ** 31 - 1]))
                b.send(c, x)
                b.step("await", "start", x)
                b.step("sleep", ms)
                b.step("release", x)
                b.step("await", "reply", x)
                c = c if kind == "aio" else b.conn()
            else:
                b.step("sleep", ms)
            for y in (c, d):
                x = b.req(meth="other")
                b.send(y, x)
                b.step("await", "reply", x)
            out.append(b.s)
    return out


def fam_clock(rng, K, thorough):
    """Deadlines far beyond what a test can wait for, or lateness of milliseconds: the event loop's clock runs K times
    as fast as the real one.  T and sleeps in its ms."""
    out = []
    for T in [300, 3000, 4500, 6500] if thorough else [300, 4500]:
        real, T = T, int(T * K)
        for meth in ("echo", "boom", "empty"):
            b = Scn()              # not due yet when the service ends
            c = b.conn()
            r = b.req(gate=True, T=T, meth=meth)
            q = b.req(gate=True, T=[0, -1, 2 ** 31 - 1][len(out) % 3], meth=meth)
            e = b.req(gate=True, T=T, meth="other")
            b.send(c, [r, q, e])
            b.step("await", "start", q)
            if real > 2500:
                b.step("sleep", (real - 2000) * K)
                b.step("release", r)
            b.step("await", "reply", r)
            b.step("await", "reply", e)     # ... and this one runs out of time
            b.step("sleep", 1500 * K)
            b.step("release", q)
            b.step("await", "reply", q)
            b.step("release", r)
            b.step("release", e)
            b.step("await", "end", e)
            b.send(c, b.req())
            out.append(b.s)
    return out


def fam_brief(rng, K, thorough):
    """timeouts of a few ms (the clock is that slow): the service's own answer before, TIMEOUT soon after"""
    out = []
    for T in [1, 2, 5, 10, 20, 30, 45, 70, 99, 100, 101] if thorough else [1, 2, 5, 40, 70]:
        for meth in ("echo", "boom", "empty"):
            b = Scn()
            c = b.conn()
            if T >= 40:                    # in time
                r = b.req(gate=True, T=T, meth=meth)
                b.send(c, r)
                b.step("await", "start", r)
                b.step("release", r)
                b.step("await", "reply", r)
            r = b.req(gate=True, T=T, meth=meth)
            b.send(c, r)
            b.step("await", "start", r)
            b.step("await", "reply", r)        # runs out of time by itself
            b.step("release", r)
            b.step("await", "end", r)
            r = b.req(gate=True, T=T, meth=meth)
            b.send(c, r)
            b.step("await", "start", r)
            b.step("sleep", T + 4300 * K)
            b.step("release", r)
            b.step("await", "reply", r)
            b.send(c, b.req())
            out.append(b.s)
    return out


def fam_segments(rng, thorough):
    """pipelines of good and bad frames in every segmentation"""
    out = []
    bad = [dict(hdr=False, badhdr=k) for k in ("short", "utf8", "neg", "odd", "big")] + [dict(cls=False), dict(cmd="resp"),
          dict(cls=False, clsname="")]
    for seg in ["one", "bytes", 1000, 22, 7] + ["rand"] * (30 if thorough else 6):
        for q in (bad if seg != "bytes" else bad[:1] + bad[5:7]):
            b = Scn()
            c, d = b.conn(), b.conn()
            rs = [b.req(meth="echo"), b.req(**q), b.req(meth="empty"), b.req(cmd="hb"), b.req(**q), b.req(ty="one"), b.req()]
            ctl = b.req(gate=True)
            b.send(d, ctl)
            b.step("await", "start", ctl)
            for r in rs:
                if b.s["reqs"][str(r)]["cmd"] == "hb" and rng.random() < .6:
                    b.s["reqs"][str(r)].update(rng.choice(HBS))
            b.send(c, rs, seg)
            for r in rs:
                if b.s["reqs"][str(r)]["ty"] == "two":
                    b.step("await", "reply", r)
            b.step("release", ctl)
            out.append(b.s)
    # a split at every byte of a two-frame stream (positions sampled in the quick tier)
    total = 330
    for p in range(1, total, 1 if thorough else 3):
        b = Scn()
        c = b.conn()
        rs = [b.req(), b.req(), b.req()]
        b.send(c, rs, [p])
        out.append(b.s)
    return out


def fam_interleaved(rng, n, kind="aio"):
    """pieces of frames on several connections, taking turns: what one connection sends says nothing about another's"""
    out = []
    odd = [dict(cmd="hb"), dict(cmd="hb", hbody=300), dict(hdr=False), dict(cls=False), dict(svc="X"), dict(ty="one"), dict(cmd="resp"),
           dict(cls=False, clsname="")]
    for i in range(n):
        b = Scn(kind)
        cs = [b.conn() for _ in range(rng.choice([2, 2, 3]))]
        size = lambda: rng.choice([0, 1, 5, 40, 300, 3000, 70000])

        def request():
            if rng.random() < .25:
                return b.req(**rng.choice(odd))
            r = b.req(svc=rng.choice(["A", "com.x.B:1.0"]), meth=rng.choice(["echo", "other", "empty"]),
                      ctx=[["sofaTraceId", "t" * rng.choice([1, 8, 30])], ["user", "u" * rng.choice([1, 4, 100])]][:rng.randrange(3)])
            b.s["reqs"][str(r)]["body"] += (b"|" + b"z" * size()).hex()
            return r
        for j in range(3):
            begun = []
            for c in cs:
                if not begun or rng.random() < .6:
                    r = request()
                    b.step("part", c, r, rng.choice([1, 4, 21, 22, 23, 30, 60, 66, 70, 150, 250, -1, -2, -5]))
                    b.step("sleep", rng.choice([0, 2, 4]))
                    begun.append((c, r))
                else:
                    r = request()
                    b.send(c, r)
                    if b.s["reqs"][str(r)]["ty"] == "two" and rng.random() < .7:
                        b.step("await", "reply", r)
                if kind == "sock" and len(begun) == len(cs) - 1:
                    x = b.conn()
                    r = request()
                    b.send(x, r)
            rng.shuffle(begun)
            for c, r in begun:
                b.step("rest", c, r)
                if b.s["reqs"][str(r)]["ty"] == "two" and rng.random() < .5:
                    b.step("await", "reply", r)
            if kind == "sock":
                cs = [b.conn() for _ in range(2)]
        out.append(b.s)
    return out


def fam_many(rng, total, kinds=("req",), conns=1):
    """so many requests on a connection"""
    b = Scn()
    cs = [b.conn() for _ in range(conns)]
    for i in range(0, total, 50):
        rs = []
        for j in range(50):
            k = rng.choice(kinds)
            rs.append(b.req(ctx=[], **dict(req=dict(meth=["echo", "empty"][j % 2]), hb=dict(cmd="hb"), one=dict(ty="one"), bad=dict(hdr=False), err=dict(meth="boom"))[k]))
        b.send(cs[i // 50 % conns], rs)
        last = [r for r in rs if b.s["reqs"][str(r)]["ty"] == "two"]
        if last:
            b.step("await", "reply", last[-1])
    return [b.s]


def fam_cuts(rng, thorough, kind="aio"):
    """end of stream (shut down, close, reset) at every byte position of a frame that follows a finished one"""
    out = []
    size = 320
    positions = list(range(0, size, 1 if thorough else 2))
    for i, p in enumerate(positions):
        for mode in (["half", "rst"] if thorough else [["half", "half", "rst"][i % 3]]):
            b = Scn(kind)
            other = b.conn()
            c = b.conn()
            if kind == "aio":
                a = b.req(meth="echo")
                b.send(c, a)
                if i % 3:
                    b.step("await", "reply", a)
                    if i % 2:
                        h = b.req(cmd="hb")
                        b.send(c, h)
                        b.step("await", "reply", h)
            x = b.req(id=99, runs=False)
            b.step("part", c, x, p)
            if i % 4 == 0:
                b.step("sleep", 3)
            b.step("eof", c, mode)
            if mode == "half":
                b.step("await", "closed", c)
            # the other connection is not disturbed
            b.send(other, b.req())
            out.append(b.s)
    # requests in progress on the connection that ends
    if kind == "aio":
        for mode in ("half", "rst", "half"):
            b = Scn()
            other, c = b.conn(), b.conn()
            rs = [b.req(gate=True), b.req(gate=True), b.req(gate=True, ty="one")]
            b.send(c, rs)
            for r in rs:
                b.step("await", "start", r)
            o = b.req(gate=True)
            b.send(other, o)
            b.step("await", "start", o)
            b.step("eof", c, mode)
            if mode == "half":
                b.step("await", "closed", c)
            b.step("release", rs[0])
            b.step("await", "end", rs[0])
            e = b.req()
            b.send(other, e)
            b.step("await", "reply", e)
            b.step("release", o)
            b.step("await", "reply", o)
            out.append(b.s)
        # an idle connection which is shut down without having sent anything; clean shutdown after answers
        for k in range(4):
            b = Scn()
            c = b.conn()
            if k:
                r = b.req(meth=["echo", "boom", "none"][k - 1])
                b.send(c, r)
                b.step("await", "reply", r)
            b.step("eof", c, "half")
            b.step("await", "closed", c)
            out.append(b.s)
    return out


def fam_timeouts(rng, thorough):
    out = []
    Ts = [200, 350, 800] + ([1500, 3000, 5000] if thorough else [1500])
    for T in Ts:
        # never ends before the deadline; the late result is discarded and the connection keeps working
        for meth in ("echo", "boom", "none"):
            b = Scn()
            c = b.conn()
            r = b.req(gate=True, T=T, meth=meth)
            o = b.req(gate=True, T=T + 400, meth="echo")
            b.send(c, [r, o])
            b.step("await", "start", r)
            b.step("await", "reply", r)
            b.step("release", r)
            b.step("await", "end", r)
            b.step("await", "reply", o)
            e = b.req()
            b.send(c, e)
            b.step("await", "reply", e)
            b.s["linger"] = 60
            out.append(b.s)
    for T in (4000, 20000, 2 ** 31 - 1):
        # in time
        b = Scn()
        c = b.conn()
        rs = [b.req(gate=True, T=T), b.req(gate=True, T=T, meth="boom"), b.req(gate=True, T=T, meth="none"), b.req(T=T)]
        b.send(c, rs)
        for r in rs[:3]:
            b.step("await", "start", r)
        b.step("sleep", 600)
        for r in rs[:3]:
            b.step("release", r)
        out.append(b.s)
    for T in (0, -1, -5, -1000, -2 ** 31):
        b = Scn()
        c = b.conn()
        r = b.req(gate=True, T=T)
        q = b.req(T=T, meth="empty")
        b.send(c, [r, q])
        b.step("await", "start", r)
        b.step("sleep", 1200)
        b.step("quiet")
        b.step("release", r)
        out.append(b.s)
    # one-way requests have no deadline to answer for
    b = Scn()
    c = b.conn()
    r = b.req(gate=True, T=150, ty="one")
    b.send(c, r)
    b.step("await", "start", r)
    b.step("sleep", 500)
    b.step("release", r)
    b.send(c, b.req())
    out.append(b.s)
    # all workers busy: requests expire in the queue, later ones are served
    b = Scn()
    c = b.conn()
    rs = [b.req(gate=True) for _ in range(30)]
    b.send(c, rs)
    b.step("await", "count", 30)
    q = [b.req(gate=False, T=300, runs=False) for _ in range(3)]
    w = b.req(T=0)
    v = b.req(T=30000)
    b.send(c, q + [w, v])
    for x in q:
        b.step("await", "reply", x)
    for x in rs:
        b.step("release", x)
    b.step("await", "reply", w)
    out.append(b.s)
    # concurrent mix with different deadlines and completion orders
    for _ in range(12 if thorough else 4):
        b = Scn()
        cs = [b.conn(), b.conn()]
        rs = [b.req(gate=True, T=rng.choice([250, 400, 600, 900, 0, 8000]), meth=rng.choice(["echo", "boom", "obj", "empty"]))
              for _ in range(8)]
        for r in rs:
            b.send(rng.choice(cs), r)
        rng.shuffle(rs)
        for r in rs:
            b.step("await", "start", r)
        for r in rs:
            b.step("sleep", rng.choice([0, 30, 120, 200]))
            b.step("release", r)
        b.s["linger"] = 50
        out.append(b.s)
    return out


def fam_oneway(rng, kind, n=6):
    out = []
    specs = [dict(meth=m) for m in ("echo", "boom", "none", "obj", "exit", "timeout", "empty", "base")]
    specs += [dict(svc="X"), dict(meth="zip"), dict(svc=""), dict(meth=""), dict(cls=False), dict(hdr=False),
              dict(hdr=False, badhdr="utf8"), dict(cmd="resp"), dict(svc="F"), dict(svc="Fattr"),
              dict(ctx=[["sofaRpcId", "x"]], ctxok=False), dict(T=50), dict(gate=True), dict(gate=True, T=100)]
    for q in specs:
        b = Scn(kind)
        c = b.conn()
        o = b.req(ty="one", **q)
        b.send(c, o)
        if kind == "aio":
            if q.get("gate"):
                b.step("await", "start", o)
            e = b.req(meth="echo")
            b.send(c, e)
            b.step("await", "reply", e)
            if q.get("gate"):
                b.step("sleep", 250)
                b.step("release", o)
                b.step("await", "end", o)
                e = b.req(meth="echo")
                b.send(c, e)
                b.step("await", "reply", e)
        else:
            d = b.conn()
            if q.get("gate"):
                b.step("await", "start", o)
            e = b.req(meth="echo")
            b.send(d, e)
            b.step("await", "reply", e)
            if q.get("gate"):
                b.step("sleep", 250)
                b.step("release", o)
                b.step("await", "end", o)
            b.step("await", "closed", c)
        out.append(b.s)
    if kind == "aio":
        for _ in range(n):
            b = Scn()
            c, d = b.conn(), b.conn()
            rs = [b.req(ty=rng.choice(["one", "two"]), meth=rng.choice(["echo", "boom", "none"]), gate=rng.random() < .4)
                  for _ in range(20)]
            for i in range(0, 20, 5):
                b.send(rng.choice([c, d]), rs[i:i + 5], rng.choice(["one", "rand"]))
            out.append(b.s)
    return out


HBS = [dict(hbody=5), dict(hbody=22), dict(hbody=3000), dict(hbhdr=[["k", "v"]]), dict(hbcls="com.alipay.sofa.rpc.core.request.SofaRequest"),
       dict(hbcls="x", hbody=1, hbhdr=[["service", "A"], ["sofa_head_method_name", "echo"]])]


def fam_heartbeat(rng, kind):
    out = []
    for h in HBS:
        b = Scn(kind)
        c = b.conn()
        r = b.req(cmd="hb", **h)
        b.send(c, r)
        b.step("await", "reply", r)
        if kind == "aio":
            b.send(c, [b.req(), b.req(cmd="hb", **h), b.req()])
        out.append(b.s)
    for hid in (0, 1, 77, 2 ** 31 - 1):
        b = Scn(kind)
        c = b.conn()
        h = b.req(cmd="hb", id=hid)
        b.send(c, h, ["one", "bytes", 5][hid % 3])
        b.step("await", "reply", h)
        out.append(b.s)
    if kind == "aio":
        for n in (1, 29, 30, 34):
            # answered while services are running, also when all workers are busy
            b = Scn()
            c, d = b.conn(), b.conn()
            rs = [b.req(gate=True, runs=i < 30) for i in range(n)]
            b.send(c, rs)
            b.step("await", "count", min(n, 30))
            for cc in (c, d, c):
                h = b.req(cmd="hb")
                b.send(cc, h)
                b.step("await", "reply", h)
            b.step("quiet")
            out.append(b.s)
        b = Scn()
        c = b.conn()
        hs = [b.req(cmd="hb") for _ in range(10)]
        b.send(c, hs, "rand")
        out.append(b.s)
    else:
        b = Scn(kind)
        c = b.conn()
        rs = []
        for i in range(6):
            r = b.req(gate=True)
            rs.append((b.conn(), r))
            b.send(rs[-1][0], r)
            b.step("await", "start", r)
        h = b.req(cmd="hb")
        b.send(c, h)
        b.step("await", "reply", h)
        out.append(b.s)
    return out


def fam_sock(rng, thorough):
    out = []
    for s in fam_outcomes("sock") + fam_bodies("sock"):
        out.append(s)
    # segmentation
    for seg in ["bytes", 1000, 22, 7, 1] + ["rand"] * (20 if thorough else 5):
        for q in (dict(), dict(meth="empty"), dict(meth="boom"), dict(svc="X"), dict(hdr=False), dict(cmd="hb"), dict(ty="one")):
            b = Scn("sock")
            b.send(b.conn(), b.req(**q), seg)
            out.append(b.s)
    for p in range(1, 200, 1 if thorough else 6):
        b = Scn("sock")
        b.send(b.conn(), b.req(), [p])
        out.append(b.s)
    # disconnects while the service runs, other connections served meanwhile; several requests on a connection
    for mode in ("half", "rst"):
        for meth in ("echo", "boom"):
            b = Scn("sock")
            c = b.conn()
            r = b.req(gate=True, meth=meth)
            b.send(c, r)
            b.step("await", "start", r)
            b.step("eof", c, mode)
            d = b.conn()
            e = b.req()
            b.send(d, e)
            b.step("await", "reply", e)
            b.step("release", r)
            b.step("await", "end", r)
            out.append(b.s)
    b = Scn("sock")
    rs = []
    for i in range(8):
        c = b.conn()
        r = b.req(gate=True, meth=["echo", "boom", "none", "big"][i % 4])
        rs.append(r)
        b.send(c, r)
        b.step("await", "start", r)
    for r in reversed(rs):
        b.step("release", r)
        b.step("await", "reply", r)
    out.append(b.s)
    # silent and half-open peers do not block others
    b = Scn("sock")
    for i in range(5):
        c = b.conn()
        if i:
            x = b.req(id=5, runs=False)
            b.step("part", c, x, i * 30)
        d = b.conn()
        e = b.req()
        b.send(d, e)
        b.step("await", "reply", e)
    out.append(b.s)
    return out


# ------------------------------------------------------------------------------------------------ checks
BASE = "aio server"


def run_server(c, scs, clauses=None, timeout=420, shards=4, clock=1):
    salted(scs)
    tr = c.drive("server_driver", scs, timeout=timeout, shards=shards, env=dict(VERIF_CLOCK=str(clock)))
    stopped = [t for t in tr if t.get("stopped")]
    tr = [t for t in tr if not t.get("stopped")]
    c.cov["scenarios_skipped_after_stalls"] = len(stopped)
    vs = c.validate("ServerTrace", tr, clauses=clauses, scenarios=scs, what="server scenario",
                    cfg="SPECIFICATION TraceSpec\nVIEW View\nCHECK_DEADLOCK FALSE\n")
    if stopped and not vs and not c.violations:
        # every stall is logged as a quiet event owed something, possibly to a clause of another property
        c.log("stalls seen, but no clause of this property is broken; %d scenarios skipped" % len(stopped))
    return tr


GRAPHS = [(["ok", "one", "badhdr"], [1, 1, 1]), (["ok", "err", "hb"], [1, 1, 2]), (["late", "ok", "unksvc"], [1, 1, 2]),
          (["ok", "obj", "badcls"], [1, 2, 1]), (["oneerr", "late", "ctorfail"], [1, 1, 1]), (["ok", "cut"], [1, 1]),
          (["badctx", "ok", "cut"], [1, 2, 1]), (["nometh", "resp", "ok"], [1, 1, 1]), (["late", "late"], [1, 1]),
          (["onebad", "oneunk", "ok"], [1, 1, 1])]


def aio_models(c, extra=()):
    """the design satisfies every clause; state counts go to the evidence"""
    model(c, "AioServer", ["ok", "late", "one"], [1, 1, 2], workers=1, live=True)
    model(c, "AioServer", ["ok", "err", "badhdr", "hb"], [1, 1, 2, 2], workers=2)
    for k, cn, w in extra:
        model(c, "AioServer", k, cn, workers=w)
    if c.thorough:
        model(c, "AioServer", ["ok", "late", "one", "badhdr"], [1, 1, 2, 2], workers=2, live=True)
        model(c, "AioServer", ["ok", "obj", "ctorfail", "oneunk", "hb"], [1, 1, 1, 2, 2], workers=1)
        for k, cn in GRAPHS:
            model(c, "AioServer", k, cn, workers=1, live=True)


def aio_mutants(c, names):
    """each defective design must break a clause (the clauses are not vacuous)"""
    table = dict(dropReject=(["badhdr", "ok"], [1, 1]), answerOneway=(["one", "ok"], [1, 1]), reanswer=(["ok", "cut"], [1, 1]),
                 status=(["unksvc", "ok"], [1, 1]), lateReply=(["late", "ok"], [1, 1]), dropFailure=(["err", "ok"], [1, 1]),
                 twice=(["ok", "ok"], [1, 1]), swap=(["ok", "ok"], [1, 1]), hide=(["err", "ok"], [1, 1]),
                 noTimer=(["late", "ok"], [1, 1]))
    for n in names:
        k, cn = table[n]
        model(c, "AioServer", k, cn, workers=1, defect=n, expect="is violated")


def graph_scenarios(c, idx, quick_limit=60):
    out = []
    for i in idx if not c.thorough else range(len(GRAPHS)):
        out += paths(c, "AioServer", GRAPHS[i][0], GRAPHS[i][1], None if c.thorough else quick_limit)
    return out


def check_p03(c):
    aio_models(c)
    aio_mutants(c, ["dropReject", "dropFailure", "twice", "swap"])
    scs = fam_long(c.rng, c.thorough) + graph_scenarios(c, [0, 1, 2, 3, 6, 7]) + fam_outcomes() + fam_random(c.rng, 400 if c.thorough else 70)
    scs += fam_slow_reader(c.rng, c.thorough) + fam_hold(c.rng, 200 if c.thorough else 30) + fam_sameid(c.rng, 200 if c.thorough else 30)
    scs += fam_interleaved(c.rng, 200 if c.thorough else 30)
    scs += fam_many(c.rng, 1150, ["hb", "hb", "hb", "hb", "req", "one", "bad", "err"])
    if c.thorough:
        scs += fam_many(c.rng, 2200, ["req", "err", "one"], 2) + fam_many(c.rng, 4200, ["hb"])
    run_server(c, scs)
    run_server(c, fam_long(c.rng, False, ms=2000 * 300), clock=300)       # ten minutes of silence


def check_p04(c):
    aio_models(c)
    aio_mutants(c, ["status", "hide", "swap"])
    scs = graph_scenarios(c, [1, 3, 4, 6, 7]) + fam_outcomes() + fam_random(c.rng, 400 if c.thorough else 60)
    scs += [s for s in fam_timeouts(c.rng, False)][:4] + fam_hold(c.rng, 100 if c.thorough else 20)
    run_server(c, scs)


def check_p05(c):
    aio_models(c)
    scs = graph_scenarios(c, [0, 5, 6]) + fam_bodies() + fam_registry(c.rng, 60 if c.thorough else 14)
    scs += fam_outcomes() + fam_random(c.rng, 300 if c.thorough else 40) + fam_bodies("sock") + fam_outcomes("sock")
    scs += fam_cuts(c.rng, False)[::4] + fam_hold(c.rng, 100 if c.thorough else 20)
    for kind in ("aio", "sock"):
        scs += fam_interleaved(c.rng, 60 if c.thorough else 12, kind)
        scs += fam_near(c.rng, 100 if c.thorough or kind == "aio" else 12, kind) + fam_alike(c.rng, 40 if c.thorough else 8, kind)
    run_server(c, scs)
    from mesh_check import publish_isolation
    publish_isolation(c)


P06_CLAUSES = {"P03.missing", "P03.unsolicited", "P03.duplicate", "P03.torn", "P03.dropped", "P04.incomplete",
               "P05.twice", "P05.misrouted", "P05.notrun", "P05.truncated", "P05.rejected"}


def check_p06(c):
    aio_models(c, extra=[(["badhdr", "ok", "cut"], [1, 1, 1], 2)])
    aio_mutants(c, ["reanswer", "dropReject"])
    scs = fam_long(c.rng, c.thorough) + graph_scenarios(c, [0, 5, 7]) + fam_segments(c.rng, c.thorough) + fam_cuts(c.rng, c.thorough)
    scs += fam_large(c.rng, c.thorough) + fam_slow_reader(c.rng, c.thorough)[:2] + fam_heartbeat(c.rng, "aio")[:len(HBS)]
    scs += fam_interleaved(c.rng, 400 if c.thorough else 50)
    run_server(c, scs, clauses=lambda x: x.startswith("P06.") or x in P06_CLAUSES)


def check_p09(c):
    aio_models(c, extra=[(["late", "late", "ok"], [1, 1, 1], 1)])
    aio_mutants(c, ["lateReply", "noTimer"])
    scs = fam_long(c.rng, c.thorough) + graph_scenarios(c, [2, 8], quick_limit=40) + fam_timeouts(c.rng, c.thorough)
    run_server(c, scs, shards=6)
    for K in (.02, .1, 10, 100, 2000) if c.thorough else (.05, 100, 2000):
        run_server(c, fam_clock(c.rng, K, c.thorough), shards=6, clock=K)
    run_server(c, fam_brief(c.rng, .01, c.thorough), shards=8, clock=.01)


def sock_models(c):
    model(c, "SockServer", ["ok", "one", "err"], [1, 2, 3], live=True)
    model(c, "SockServer", ["ok", "badhdr", "cut", "hb"], [1, 2, 3, 4], live=True)


SGRAPHS = [(["ok", "err", "one"], [1, 2, 3]), (["ok", "cut"], [1, 2]), (["hb", "badhdr", "ok"], [1, 2, 3]),
           (["unksvc", "obj", "oneerr"], [1, 2, 3]), (["ok", "ok"], [1, 1])]


def sock_graph_scenarios(c, idx, quick_limit=50):
    out = []
    for i in idx if not c.thorough else range(len(SGRAPHS)):
        out += paths(c, "SockServer", SGRAPHS[i][0], SGRAPHS[i][1], None if c.thorough else quick_limit, kind="sock")
    return out


def check_p10(c):
    sock_models(c)
    for d, k, cn in (("dropReply", ["ok"], [1]), ("keepOpen", ["cut"], [1]), ("hide", ["err"], [1]), ("keepOpen", ["err"], [1])):
        model(c, "SockServer", k, cn, defect=d, expect="is violated")
    scs = fam_long(c.rng, c.thorough, "sock") + sock_graph_scenarios(c, [0, 1, 2, 3, 4]) + fam_sock(c.rng, c.thorough) + fam_cuts(c.rng, c.thorough, "sock")
    scs += fam_large(c.rng, c.thorough, "sock")
    held = json.loads(json.dumps(c.rng.sample(fam_sock(c.rng, False), 20)))
    for s in held:
        s["hold"] = dict(who="rest", n=sorted(c.rng.sample(range(1, 200), 6)), ms=c.rng.choice([5, 20]))
    scs += held + fam_interleaved(c.rng, 100 if c.thorough else 14, "sock")
    run_server(c, scs, clauses=lambda x: x.startswith("P10."))
    run_server(c, fam_long(c.rng, False, "sock", ms=2000 * 300), clauses=lambda x: x.startswith("P10."), clock=300)   # ten minutes of silence


CHECKS = dict(P03=check_p03, P04=check_p04, P05=check_p05, P06=check_p06, P09=check_p09, P10=check_p10)
