"""P07, P08, P11-P14: the asyncio client, decided by spec/ClientAbs.tla (abstract) and BoltClient.tla (design)."""
from common import *

STATUS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 18]
BADFORMS = ["badst", "badptype", "badcmd", "badcodec", "badproto", "badver2", "badhdr", "oddhdr", "neghdr", "utf8hdr", "reqcmd"]
HEAD = 20      # size of a response's fixed header


class CS:
    """builds one scenario"""

    def __init__(self, nsrv=1, **kw):
        self.s = dict(nsrv=nsrv, calls={}, steps=[], **kw)
        self.k = 0

    def call(self, kind="sync", a=1, body=None, **kw):
        self.k += 1
        if body is None:
            body = b"b%d" % self.k
        self.s["calls"][str(self.k)] = dict(kind=kind, a=a, body=body.hex(), **kw)
        return self.k

    def step(self, *a):
        self.s["steps"].append(list(a))
        return self

    def go(self, kind="sync", a=1, **kw):
        """a call which is made and has reached the server"""
        k = self.call(kind, a, **kw)
        self.step("call", k)
        self.step("await", "req", k)
        return k

    def whole(self, kind="sync", a=1, spec=None, **kw):
        k = self.go(kind, a, **kw)
        self.step("resp", k, spec or {})
        self.step("await", "ret", k)
        return k


KINDS3 = ["sync", "async", "cb"]


def perms(n):
    import itertools
    return list(itertools.permutations(range(n)))


def fam_orders(rng, thorough):
    """concurrent calls answered in every order, as separate segments, in one segment or byte by byte"""
    out = []
    for n in (2, 3, 4):
        ps = perms(n)
        if n == 4 and not thorough:
            ps = rng.sample(ps, 8)
        for i, p in enumerate(ps):
            b = CS()
            ks = [b.call(KINDS3[(i + j) % 3]) for j in range(n)]
            if i % 2:
                b.step("calls", ks)
            else:
                for k in ks:
                    b.step("call", k)
            order = [ks[j] for j in p]
            if i % 3 == 0:
                for k in order:
                    b.step("resp", k, {})
                    if i % 2:
                        b.step("await", "ret", k)
            else:
                for k in ks:
                    b.step("await", "req", k)
                b.step("resp", order, [{} for _ in order], ["one", "bytes", "rnd", 7][i % 4])
            out.append(b.s)
    return out


def fam_segments(rng, thorough):
    """two responses in a row, split at every position"""
    total = 2 * (HEAD + 44 + 4)
    b = None
    out = []
    for cut in range(1, total, 1 if thorough else 3):
        if b is None or b.k > 12:
            b = CS()
            out.append(b.s)
        k1, k2 = b.go(KINDS3[cut % 3]), b.go("async")
        b.step("resp", [k1, k2], [{}, {}], [cut], 2)
        b.step("await", "ret", k1).step("await", "ret", k2)
    for body in (b"", b"\x00", bytes(range(256)), b"A" * 70000, b"B" * 3000000):
        b = CS()
        for kind in KINDS3:
            k = b.go(kind, body=body[:200000])
            b.step("resp", k, dict(body=body[:65536].hex(), times=max(1, len(body) // 65536)), "one" if len(body) > 300 else "rnd")
            b.step("await", "ret", k)
        out.append(b.s)
    # large ones, followed by others at once
    for n in (66000, 270000, (1 << 20) + 5, 2500000) + (((1 << 24) + 3, 40000000) if thorough else ()):
        b = CS()
        ks = [b.go(kind) for kind in KINDS3 + ["async", "cb"]]
        big = dict(body=b"0123456789".hex(), times=n // 10)
        b.step("resp", ks, [{}, big, {}, dict(big, times=n // 7), {}], "one")
        for k in ks:
            b.step("await", "ret", k)
        b.whole("sync")
        out.append(b.s)
    # large requests, header extras
    for n in (60000, 1000000, 8000000):
        b = CS()
        for kind in KINDS3:
            b.whole(kind, body=b"0123456789", times=n // 10, T=15000)
        out.append(b.s)
    return out


def fam_interleaved(rng, n):
    """pieces of responses on several connections, taking turns: one connection says nothing about another"""
    out = []
    for i in range(n):
        ns = rng.choice([2, 2, 3])
        b = CS(nsrv=ns)
        for j in range(2):
            todo = []
            for a in range(1, ns + 1):
                k = b.go(rng.choice(KINDS3), a=a, body=b"q" * rng.choice([0, 1, 30, 500]))
                spec = rng.choice([{}, {}, dict(times=rng.choice([1, 10, 3000]), body=b"yz".hex()), dict(body=""), dict(st=rng.choice(STATUS))])
                cut = rng.choice([[1], [4], [12], [19], [20], [21], [40], [63], [64], [66], [-2], [-3], [20, 40], [7, 20], [21, -2], [3, 60], [20, 66]])
                todo.append((k, spec, [0] + cut + [-1]))
            live = list(range(len(todo)))
            while live:
                t = rng.choice(live)
                k, spec, cut = todo[t]
                b.step("chunk", k, spec, cut[0], cut[1])
                if rng.random() < .7:
                    b.step("sleep", rng.choice([1, 3]))
                del cut[0]
                if len(cut) == 1:
                    live.remove(t)
                    b.step("await", "ret", k)
            for a in range(1, ns + 1):
                if rng.random() < .4:
                    b.whole(rng.choice(KINDS3), a=a)
        out.append(b.s)
    return out


def fam_many(rng, total, kinds=KINDS3, nsrv=1, threads=4):
    """so many calls in the life of a connection"""
    b = CS(nsrv=nsrv, auto={str(a): dict(batch=8, wait=1, seg="one") for a in range(1, nsrv + 1)})
    gs = [[b.call(rng.choice(kinds), 1 + j % nsrv, T=20000) for j in range(total // threads)] for _ in range(threads)]
    b.step("calls", gs)
    for g in gs:
        b.step("await", "ret", g[-1])
    return [b.s]


def fam_hold(rng, thorough, kinds=("sync", "async", "cb", "one"), lost=True):
    """a thread of the client is held up at each of its lines, while everything else which can happen happens"""
    out = []
    for kind in kinds:
        for n in range(1, 40 if thorough else 28):
            b = CS(auto={1: dict(batch=1)}, linger=10, hold=dict(who="caller", n=[n], ms=40, ks=[1]))
            k = b.call(kind)
            b.step("call", k)
            if kind != "one":
                b.step("await", "ret", k)
            x = b.call(KINDS3[n % 3])
            b.step("call", x).step("await", "ret", x)
            out.append(b.s)
    for i in range(120 if thorough else 30):
        # the loop, or several callers at the same time
        b = CS(auto={1: dict(batch=1 + i % 3, wait=1)}, linger=10,
               hold=dict(who=["rest", "caller"][i % 4 == 0], n=sorted(rng.sample(range(1, 220 if i % 4 else 80), 3)), ms=25))
        ks = [b.call(rng.choice(KINDS3 + ["one"])) for _ in range(5)]
        b.step("calls", ks[:3])
        b.step("call", ks[3])
        for k in ks[:4]:
            if b.s["calls"][str(k)]["kind"] != "one":
                b.step("await", "ret", k)
        b.step("call", ks[4])
        out.append(b.s)
    for i in range((80 if thorough else 24) if lost else 0):
        # the connection is lost meanwhile
        b = CS(linger=20, hold=dict(who="rest", n=[rng.randrange(1, 160)], ms=40))
        k1, k2, k3 = b.call("async"), b.call("sync"), b.call("cb")
        b.step("calls", [k1, k2, k3])
        for k in (k1, k2, k3):
            b.step("await", "req", k)
        b.step("resp", k1, {})
        b.step("lose", ["n", 1], ["fin", "rst"][i % 2])
        b.step("sleep", rng.choice([0, 5, 60]))
        b.whole(KINDS3[i % 3])
        out.append(b.s)
    return out


def fam_burn(thorough):
    """a call stays outstanding while the process makes a great number of other requests"""
    out = []
    for i, kind in enumerate(["async", "cb", "async"] if thorough else ["async"]):
        b = CS(linger=20)
        k = b.go(kind, body=b"early")
        for e in range(4, 22 if thorough else 19):
            b.step("burn", k, e)
            for j in range(4):
                b.whole(["sync", "async", "cb"][(i + j) % 3])
        b.step("resp", k, {}).step("await", "ret", k)
        b.whole("sync")
        out.append(b.s)
    return out


def fam_foreign(rng, thorough):
    """duplicates, unknown ids, ids of later calls, late responses"""
    out = []
    for i in range(12 if thorough else 4):
        b = CS(linger=30)
        # duplicates, together and after the call returned
        k1, k2, k3 = b.go(KINDS3[i % 3]), b.go("async"), b.go("cb")
        b.step("resp", k1, dict(ncopies=2 + i % 2))
        b.step("await", "ret", k1)
        b.step("resp", k1, dict(body=b"again".hex()))
        b.step("resp", k1, dict(st=2))
        b.step("resp", k1, dict(form=BADFORMS[i % len(BADFORMS)]))
        b.step("resp", k3, {}).step("await", "ret", k3)
        b.step("resp", k3, {})
        b.step("resp", k2, {}).step("await", "ret", k2)
        b.whole("sync")
        out.append(b.s)
        # unknown ids before, between and after
        b = CS(linger=30)
        k1 = b.go(KINDS3[i % 3])
        b.step("resp", -500, dict(a=1, body=b"unknown".hex()))
        b.step("resp", -501, dict(a=1, st=7))
        b.step("resp", -502, dict(a=1, form=BADFORMS[(i + 4) % len(BADFORMS)]))
        b.step("resp", k1, {}).step("await", "ret", k1)
        b.step("resp", -503, dict(a=1)).step("resp", -1000000, dict(a=1, form="any"))
        b.whole("cb")
        out.append(b.s)
        # responses for ids of calls which are made only afterwards
        b = CS(linger=30)
        b.whole("sync")
        for d in (-1, -2, -3, -4):
            b.step("resp", d, dict(a=1, body=b"future".hex()))
        b.step("resp", -5, dict(a=1, st=7))
        b.step("sleep", 30)
        ks = [b.go(x) for x in KINDS3]
        for k in ks:
            b.step("resp", k, {}).step("await", "ret", k)
        b.whole("async")
        out.append(b.s)
        # the response to a call which has timed out
        b = CS(linger=30)
        k = b.go("sync", T=[120, 250.5, 60][i % 3])
        x = b.go("async")
        b.step("await", "ret", k)
        b.step("resp", k, dict(ncopies=1 + i % 2))
        y = b.go("sync")
        b.step("resp", [x, y], [{}, {}]).step("await", "ret", y).step("await", "ret", x)
        b.whole("cb")
        out.append(b.s)
    # responses sent to another address's connection than the request's
    return out


def fam_early(rng, thorough):
    """the response arrives while the request is still being written"""
    out = []
    for i, kind in enumerate(KINDS3):
        for size in (10, 100000, 8000000):
            for then in ("read", "rst"):
                if then == "rst" and size < 1000000:
                    continue
                b = CS(small=size > 1000000)
                b.whole("async")
                k = b.call(kind, body=b"0123456789", times=size // 10, T=9000)
                b.step("early", 1, k, {}, then)
                b.step("call", k).step("await", "ret", k)
                if then == "rst":
                    b.step("settle", ["n", 1])
                b.whole("sync")
                out.append(b.s)
    return out


def fam_status(rng, thorough):
    """every failure status and undecodable response, with other calls in flight on the connection"""
    out = []
    specs = [dict(st=x) for x in STATUS] + [dict(form=f) for f in BADFORMS]
    for i, spec in enumerate(specs):
        for j, kind in enumerate(KINDS3):
            if not thorough and (i + j) % 3 and "form" not in spec:
                continue
            b = CS(linger=20)
            x, y = b.go("async"), b.go("cb" if j else "sync")
            k = b.go(kind)
            if (i + j) % 2:
                b.step("resp", [k, x], [spec, {}], "rnd" if i % 4 else "one")
            else:
                b.step("resp", k, spec)
                b.step("await", "ret", k).step("resp", x, {})
            b.step("await", "ret", k).step("await", "ret", x)
            b.step("resp", y, {}).step("await", "ret", y)
            b.whole("sync")
            out.append(b.s)
    for i, st in enumerate(STATUS):     # a failure with no contents, or with much
        b = CS(linger=20)
        x = b.go("cb")
        for j, kw in enumerate([dict(body=""), dict(body="", hdr=dict(a="b")), dict(body="00" * 3000), dict(body="", form="any", cls="")]):
            b.whole(KINDS3[(i + j) % 3], spec=dict(st=st, **kw))
        b.step("resp", x, {}).step("await", "ret", x)
        out.append(b.s)
    for i, st in enumerate(STATUS):     # a failure with contents
        b = CS()
        b.whole(KINDS3[i % 3], spec=dict(st=st, body=b"details".hex()))
        b.whole("sync", spec=dict(hdr=dict(sofa_head_response_error="true")))
        b.whole(KINDS3[(i + 1) % 3], spec=dict(form="any", body=b"c".hex()))
        b.whole("async")
        out.append(b.s)
    # a heartbeat response carrying the id of a call is no result
    b = CS()
    k = b.go("async")
    b.step("resp", k, dict(form="hb")).step("sleep", 60)
    b.step("lose", ["n", 1], "fin").step("await", "ret", k)
    b.whole("sync")
    out.append(b.s)
    return out


def fam_unencodable(rng, thorough):
    out = []
    for i, (kind, enc) in enumerate((k, e) for k in KINDS3 + ["one"] for e in ("header", "content")):
        for before in (True, False):
            b = CS(linger=60)
            if before:
                x, y = b.go("async"), b.go("sync")
            k = b.call(kind, enc=enc, T=1500)
            b.step("call", k)
            b.step("await", "ret", k)
            if before:
                b.step("resp", x, {}).step("resp", y, {}).step("await", "ret", x).step("await", "ret", y)
            b.whole("cb")
            b.whole("sync")
            out.append(b.s)
    return out


def fam_loss(rng, thorough):
    """the connection is lost at every byte of a response, with several calls in flight; later calls succeed"""
    out = []
    size = HEAD + 44 + 3
    cuts = list(range(0, size)) if thorough else sorted({0, 1, 19, 20, 21, 63, 64, size - 1} | set(rng.sample(range(size), 10)))
    for i, n in enumerate(cuts):
        for how in ("fin", "rst"):
            b = CS()
            kinds = [KINDS3[(i + j) % 3] for j in range(3)]
            ks = [b.go(x) for x in kinds]
            if i % 3 == 0:
                b.step("resp", ks[2], {}).step("await", "ret", ks[2])
            if i % 4 == 1:
                b.step("await", "req", b.go("one"))
            b.step("cut", ks[0], {}, n, how, 5 if i % 2 else 0)
            b.step("await", "ret", ks[0]).step("await", "ret", ks[1])
            b.step("settle", ["n", 1]) if how == "rst" else b.step("await", "cclose", ["n", 1])
            b.whole("sync")
            k1, k2 = b.go("async"), b.go("cb")
            b.step("resp", [k1, k2], [{}, {}]).step("await", "ret", k1).step("await", "ret", k2)
            out.append(b.s)
    # an idle connection is lost
    for how in ("fin", "rst"):
        for kind in KINDS3 + ["one", "hb"]:
            b = CS()
            b.whole("sync")
            for i in range(2):
                b.step("lose", ["a", 1], how)
                b.step("settle", ["a", 1]) if how == "rst" else b.step("await", "cclose", ["a", 1])
                if kind == "one":
                    b.go("one")
                else:
                    b.whole(kind, spec=dict(form="hb") if kind == "hb" else None)
            b.whole("sync")
            out.append(b.s)
    # lost as soon as it was accepted: calls fail or are retried, never hang
    for how in ("fin", "rst"):
        for delay in (0, 1, 5, 30):
            b = CS(plan={"1": [["lose", how, delay]] * 2})
            ks = [b.call(x) for x in KINDS3 + ["hb"]]
            b.step("calls", ks)
            for k in ks[:1] if delay else []:
                b.step("await", "ret", k)
            b.step("await", "lost", 1)
            b.step("sleep", 100)
            b.step("plan", 1, [])
            b.s["auto"] = {"1": dict(batch=2)}
            out.append(b.s)
    # the loss of one address's connection does not touch another's
    for how in ("fin", "rst"):
        b = CS(nsrv=2)
        k1, k2, k3 = b.go("async", 1), b.go("sync", 2), b.go("cb", 1)
        b.step("lose", ["a", 1], how)
        b.step("await", "ret", k1).step("await", "ret", k3)
        b.step("resp", k2, {}).step("await", "ret", k2)
        b.step("settle", ["n", 1]) if how == "rst" else b.step("await", "cclose", ["n", 1])
        b.whole("sync", 1).__class__
        b.whole("sync", 2)
        out.append(b.s)
    return out


def fam_dial(rng, thorough):
    """first calls race to open the connection; several addresses"""
    out = []
    for i in range(20 if thorough else 6):
        b = CS(nsrv=3, auto={str(a): dict(batch=4, seg="rnd", wait=2) for a in (1, 2, 3)})
        ks = [b.call(rng.choice(KINDS3 + ["one", "hb"]), rng.choice([1, 1, 2, 3])) for _ in range(12)]
        b.step("calls", ks)
        for k in ks:
            if b.s["calls"][str(k)]["kind"] != "one":
                b.step("await", "ret", k)
        ks = [b.call(rng.choice(KINDS3), rng.choice([1, 2, 3])) for _ in range(6)]
        b.step("calls", ks)
        if i % 2:
            for k in ks:
                b.step("await", "ret", k)
            b.step("lose", ["a", 1], "rst").step("settle", ["a", 1])
            ks = [b.call(rng.choice(KINDS3), rng.choice([1, 1, 2])) for _ in range(8)]
            b.step("calls", ks)
        out.append(b.s)
    return out


def fam_down(rng, thorough):
    """nobody accepts connections: calls fail; afterwards they succeed"""
    out = []
    for kind in KINDS3 + ["one", "hb"]:
        b = CS(nsrv=2)
        b.step("down", 1)
        k = b.call(kind, lost=True)
        b.step("call", k).step("await", "ret", k)
        b.whole("sync", 2)
        k2, k3 = b.call("sync"), b.call("async")
        b.step("calls", [k2, k3]).step("await", "ret", k2).step("await", "ret", k3)
        b.step("sleep", 30)
        b.step("up", 1)
        b.whole("sync", 1)
        b.whole("cb", 1)
        out.append(b.s)
        # down after a loss
        b = CS()
        x = b.go("async")
        b.step("down", 1)
        b.step("lose", ["a", 1], "fin").step("await", "cclose", ["a", 1]).step("await", "ret", x)
        k = b.call(kind, lost=True)
        b.step("call", k).step("await", "ret", k)
        b.step("sleep", 30)
        b.step("up", 1)
        if kind == "one":
            b.go("one")
        else:
            b.whole(kind, spec=dict(form="hb") if kind == "hb" else None)
        b.whole("sync")
        out.append(b.s)
    return out


def fam_interrupted(rng, thorough):
    """the connection is lost while a request is being sent: it is sent again, at most three times"""
    out = []
    for i, kind in enumerate(KINDS3):
        for n in (1, 2, 3, 5):
            b = CS(small=True, plan={"1": [["stallrst", 100]] * n})
            k = b.call(kind, body=b"0123456789", times=1200000, T=20000)
            b.step("call", k)
            if n < 3:
                b.step("await", "req", k).step("resp", k, {})
            b.step("await", "ret", k)
            if n == 5:      # let the others be used up
                b.step("settle", ["a", 1]).step("plan", 1, [])
            elif n == 3:
                b.step("settle", ["a", 1])
            b.whole("sync")
            out.append(b.s)
    # several large requests on the same connection, all interrupted
    for n in (1, 2):
        b = CS(small=True, plan={"1": [["stallrst", 250]] * n}, auto={"1": dict(batch=2)})
        ks = [b.call(KINDS3[i % 3], body=b"0123456789", times=700000, T=20000) for i in range(3)]
        b.step("calls", ks)
        for k in ks:
            b.step("await", "ret", k)
        b.whole("sync")
        out.append(b.s)
    return out


def fam_timeouts(rng, thorough):
    out = []
    # never answered: by the timeout, with and without others
    for T in (1, 50, 300, 0.5, 99.9, 1000):
        b = CS()
        k = b.call("sync", T=T)
        b.step("call", k).step("await", "ret", k)
        x = b.call("sync", T=T)
        y = b.call("async")
        b.step("calls", [x, y]).step("await", "req", y).step("resp", y, {}).step("await", "ret", y).step("await", "ret", x)
        b.whole("sync")
        out.append(b.s)
    # the peer accepts but never reads
    for kind in KINDS3:
        b = CS(small=True, plan={"1": [["stall"]]}, fresh=True)
        k = b.call("sync", body=b"0123456789", times=1200000, T=400)
        b.step("call", k)
        k2 = b.call("sync", T=300)
        b.step("call", k2)
        b.step("await", "ret", k).step("await", "ret", k2)
        # ... and then reads on
        k3 = b.call(kind)
        b.step("call", k3)
        b.step("stall", ["n", 1], False)
        b.step("await", "req", k3).step("resp", k3, {}).step("await", "ret", k3)
        b.whole("sync")
        out.append(b.s)
        # ... or the connection is lost
        b = CS(small=True, plan={"1": [["stall"]]}, fresh=True)
        k = b.call(kind, body=b"0123456789", times=1200000, T=4000)
        b.step("call", k).step("sleep", 100)
        k2 = b.call("async")
        b.step("call", k2).step("sleep", 50)
        b.s["auto"] = {"1": dict(batch=2)}
        b.step("lose", ["n", 1], "rst")
        b.step("settle", ["n", 1])
        b.step("await", "ret", k).step("await", "ret", k2)
        b.whole("sync")
        out.append(b.s)
    # part of the response, then nothing
    for n in (1, 19, 20, 30, 64):
        b = CS(linger=20)
        k = b.go("sync", T=200)
        b.step("part", k, {}, n)
        b.step("await", "ret", k)
        b.step("rest")
        b.whole("sync")
        out.append(b.s)
    # a response in the nick of time
    b = CS()
    for d in (300, 600):
        k = b.go("sync", T=d + 1600)
        b.step("sleep", d).step("resp", k, {}).step("await", "ret", k)
    out.append(b.s)
    return out


def fam_cancel(rng, n, early=True):
    """callers cancel futures, in every state of their calls, with other calls on the same connection"""
    out = []
    for i in range(n):
        b = CS()
        if i % 3:
            b.whole("sync")
        others = [b.call(rng.choice(KINDS3)) for _ in range(rng.randrange(1, 4))]
        mine = [b.call(rng.choice(["async", "cb"])) for _ in range(rng.randrange(1, 3))]
        ks = others + mine
        rng.shuffle(ks)
        b.step("calls", ks)
        for k in ks:
            b.step("await", "req", k)
        order = [("c", k) for k in mine] + [("r", k) for k in others if rng.random() < .5]
        rng.shuffle(order)
        for what, k in order:
            if what == "c":
                if rng.random() < .3:
                    b.step("part", k, {}, rng.randrange(1, 60)).step("cancel", k).step("rest")
                else:
                    b.step("cancel", k)
                    if rng.random() < .3:
                        b.step("cancel", k)
            else:
                b.step("resp", k, {}).step("await", "ret", k)
        for k in mine:
            b.step("await", "ret", k)
        if rng.random() < .7:      # late answers
            b.step("resp", mine, rng.choice([{}, dict(st=7), dict(ncopies=2)]))
        if rng.random() < .4:
            x = b.go(rng.choice(KINDS3))
            others.append(x)
        rest = [k for k in others if ("r", k) not in order]
        if rest:
            b.step("resp", rest, {}, rng.choice(["one", "byte"]))
        for k in rest:
            b.step("await", "ret", k)
        b.whole(rng.choice(KINDS3))
        out.append(b.s)
    for kind in ("async", "cb"):
        # answered already
        b = CS()
        k = b.whole(kind)
        b.step("cancel", k)
        b.whole("sync")
        out.append(b.s)
        # while the peer does not read: the request is whole, or was never sent
        b = CS(small=True, plan={"1": [["stall"]]}, fresh=True)
        k = b.call(kind, body=b"0123456789", times=1200000)
        b.step("call", k).step("sleep", 100)
        x = b.call("async")
        b.step("call", x).step("sleep", 50).step("cancel", k).step("await", "ret", k).step("sleep", 50)
        b.step("stall", ["n", 1], False).step("await", "req", x).step("resp", x, {}).step("await", "ret", x)
        b.whole("sync")
        out.append(b.s)
        if early:
            # as soon as they are made, also while the connection is being made
            for i in range(6):
                b = CS(fresh=True)
                ks = [b.call(kind, cancel=j % 2 == i % 2) for j in range(6)]
                b.step("calls", ks)
                keep = [k for j, k in enumerate(ks) if j % 2 != i % 2]
                for k in keep:
                    b.step("await", "req", k)
                b.step("resp", keep, {})
                for k in ks:
                    b.step("await", "ret", k)
                b.whole("sync")
                out.append(b.s)
    return out


def fam_habit(kinds, Ts, parts=(0,), tries=12, **kw):
    """several calls in a row which are not answered: at least one of them ends when it should"""
    out = []
    for kind in kinds:
        for T in Ts:
            for n in parts:
                b = CS(**kw)
                b.step("habit", [b.call(kind, T=T) for _ in range(tries)], n)
                b.whole(kind if kind != "one" else "sync")
                out.append(b.s)
    return out


def fam_callbacks(rng, thorough):
    out = []
    for i in range(3):
        b = CS(linger=40)
        for shape in ("plain", "partial", "object", "method", "builtin", "class", "default"):
            b.whole("cb", shape=shape)
        k = b.go("cb", cbraise=True)
        x = b.go("cb")
        b.step("resp", k, {}).step("await", "ret", k)
        b.step("resp", x, dict(ncopies=3), "rnd").step("await", "ret", x)
        y = b.go("cb", T=3000)
        b.step("resp", y, dict(body="")).step("await", "ret", y)
        z = b.go("cb")
        b.step("resp", z, dict(st=STATUS[i])).step("await", "ret", z)
        z = b.go("cb")
        b.step("resp", z, dict(form=BADFORMS[i * 3])).step("await", "ret", z)
        b.step("await", "ret", b.whole("cb"))
        z, v = b.go("cb"), b.go("cb")
        b.step("lose", ["a", 1], "fin").step("await", "ret", z).step("await", "ret", v)
        b.whole("cb")
        out.append(b.s)
    return out


def fam_oneway(rng, thorough):
    """one-way calls: nobody waits for anything"""
    out = []
    for i in range(4):
        b = CS(linger=60)
        x = b.go("sync" if i % 2 else "async")
        for j in range(3):
            o = b.call("one")
            b.step("call", o).step("await", "ret", o).step("await", "req", o)
            if j == 1:        # a peer which answers all the same
                b.step("resp", o, {}).step("resp", o, dict(st=3))
        b.step("resp", x, {}).step("await", "ret", x)
        b.whole("sync")
        out.append(b.s)
    # as the first thing on a new connection; to an address nobody listens on; on a stalled connection
    b = CS(nsrv=2)
    ks = [b.call("one", 1 + i % 2) for i in range(8)]
    b.step("calls", ks)
    out.append(b.s)
    b = CS(nsrv=2)
    b.step("down", 1)
    o = b.call("one", 1, lost=True)
    b.step("call", o).step("await", "ret", o)
    b.whole("sync", 2)
    b.step("sleep", 50).step("up", 1)
    b.go("one", 1)
    b.whole("sync", 1)
    out.append(b.s)
    b = CS(small=True, plan={"1": [["stall"]]}, fresh=True)
    big = b.call("async", body=b"0123456789", times=1200000)
    b.step("call", big).step("sleep", 50)
    o = b.call("one", lost=True)
    b.step("call", o).step("await", "ret", o)
    b.step("stall", ["n", 1], False)
    b.step("await", "req", o)
    b.step("resp", big, {}).step("await", "ret", big)
    out.append(b.s)
    # large ones on a stalled connection, the very first thing on it or after others
    for first in (True, False):
        b = CS(small=True, plan={"1": [["stall"]]} if first else {}, fresh=first)
        if not first:
            b.whole("sync")
            b.step("stall", ["a", 1], True)
        os_ = []
        for times in (1200000, 10, 200000):
            o = b.call("one", body=b"0123456789", times=times)
            b.step("call", o).step("await", "ret", o)
            os_.append(o)
        b.step("sleep", 1700)
        b.step("stall", ["n" if first else "a", 1], False)
        for o in os_:
            b.step("await", "req", o)
        b.whole("sync")
        out.append(b.s)
    # big and empty bodies
    b = CS()
    for body, times in ((b"", 1), (b"0123456789", 300000), (b"\x00", 1)):
        o = b.call("one", body=body, times=times)
        b.step("call", o).step("await", "ret", o)
    b.whole("sync")
    out.append(b.s)
    # interrupted while being sent
    b = CS(small=True, plan={"1": [["stallrst", 60]]})
    o = b.call("one", body=b"0123456789", times=1200000)
    b.step("call", o).step("await", "ret", o).step("await", "req", o)
    b.whole("sync")
    out.append(b.s)
    # after a loss
    for how in ("fin", "rst"):
        b = CS()
        b.go("one")
        b.step("lose", ["a", 1], how)
        b.step("settle", ["a", 1]) if how == "rst" else b.step("await", "cclose", ["a", 1])
        b.go("one")
        b.whole("sync")
        out.append(b.s)
    return out


def fam_long(rng, thorough, kinds=None, ms=None):
    """calls which stay outstanding for a long time while others come and go, and long silence afterwards"""
    out = []
    for i, kind in enumerate(kinds or KINDS3 + ["one"]):
        b = CS(linger=(ms or (11000 if thorough else 3200)) // 2)
        x, y = b.go("async"), b.go("cb")
        if i % 2:
            b.step("await", "req", x)
        if kind == "one":
            for j in range(3):
                o = b.call("one", body=b"%d-oneway" % j, times=1 if j else 200000)
                b.step("call", o).step("await", "ret", o).step("await", "req", o)
        else:
            k = b.go(kind, T=30000)
            b.whole("sync")
            b.step("sleep", 50)
        b.step("sleep", ms or (11000 if thorough else 3200))
        o = b.call("one")
        b.step("call", o).step("await", "ret", o).step("await", "req", o)
        if kind != "one":
            b.step("resp", k, {}).step("await", "ret", k)
        b.step("resp", [x, y], [{}, {}]).step("await", "ret", x).step("await", "ret", y)
        b.whole("sync")
        b.step("sleep", 1500)
        b.whole("cb")
        out.append(b.s)
    return out


def fam_heartbeat(rng, thorough):
    """heartbeats asked for by the program, among ordinary calls"""
    out = []
    for i, spec in enumerate([dict(form="hb")] + [dict(form="hb", st=s) for s in STATUS]
                             + [dict(form=f) for f in BADFORMS[:6]]):
        b = CS(linger=10)
        x = b.go(KINDS3[i % 3])
        h = b.go("hb")
        if i % 2:
            y = b.go("async")
            b.step("resp", y, {}).step("await", "ret", y)
        b.step("resp", h, spec, "rnd" if i % 3 else "one").step("await", "ret", h)
        b.step("resp", x, {}).step("await", "ret", x)
        b.whole("sync")
        out.append(b.s)
    # lost, refused, foreign answers
    for how in ("fin", "rst"):
        b = CS()
        x, h = b.go("async"), b.go("hb")
        b.step("resp", -77, dict(a=1, form="hb")).step("sleep", 30)
        b.step("lose", ["a", 1], how).step("await", "ret", h).step("await", "ret", x)
        b.step("settle", ["a", 1]) if how == "rst" else b.step("await", "cclose", ["a", 1])
        b.whole("hb", spec=dict(form="hb"))
        b.whole("sync")
        out.append(b.s)
    b = CS()
    b.step("down", 1)
    h = b.call("hb")
    b.step("call", h).step("await", "ret", h).step("sleep", 20).step("up", 1)
    b.whole("hb", spec=dict(form="hb"))
    b.whole("sync")
    out.append(b.s)
    b = CS()
    x = b.go("async")
    h = b.go("hb")
    b.step("resp", [h, x], [dict(form="hb", ncopies=2), {}], "one").step("await", "ret", x).step("await", "ret", h)
    h2 = b.go("hb")
    b.step("resp", h, dict(form="hb")).step("sleep", 20)
    b.step("resp", h2, dict(form="hb", st=1)).step("await", "ret", h2)
    out.append(b.s)
    return out


def fam_storm(rng, n, nthreads=12, per=8):
    """many threads, all kinds, several addresses, shuffled and duplicated responses, foreign frames"""
    out = []
    for i in range(n):
        b = CS(nsrv=2, auto={"1": dict(batch=rng.choice([1, 4, 12]), wait=rng.choice([1, 4]), junk=.2, seg=rng.choice(["rnd", "one", 50])),
                             "2": dict(batch=6, wait=2, junk=.1, seg="rnd")}, linger=20)
        groups = []
        for t in range(nthreads):
            g = []
            for _ in range(per):
                kind = rng.choice(["sync"] * 3 + ["async", "cb", "one", "hb"])
                kw = {}
                x = rng.random()
                if kind in KINDS3:
                    if x < .12:
                        kw["resp"] = dict(st=rng.choice(STATUS))
                    elif x < .2:
                        kw["resp"] = dict(form=rng.choice(BADFORMS))
                    elif x < .3:
                        kw["ncopies"] = 2
                    elif x < .35:
                        kw["enc"] = rng.choice(["header", "content"])
                    elif x < .45:
                        kw.update(body=b"0123456789", times=rng.choice([10, 8000, 30000]))
                    if kind != "async" and rng.random() < .3:
                        kw["T"] = rng.choice([6000.5, 9000, 7000.25])
                g.append(b.call(kind, rng.choice([1, 1, 2]), **kw))
            groups.append(g)
        b.step("calls", groups)
        for g in groups:
            for k in g:
                q = b.s["calls"][str(k)]
                if q["kind"] != "one":
                    b.step("await", "ret", k)
        out.append(b.s)
    return out


# ------------------------------------------------------------------------------------------------ the design
def design(c, kinds, addrs, losses=1, downs=0, extras=0, forms=("ok",), emit=False, live=False, defect="none", expect=None):
    f = os.path.join(c.work, "client-model.json")
    json.dump(dict(kinds=kinds, addrs=addrs, forms=list(forms)), open(f, "w"))
    text = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " Kind <- KindV", " AddrOf <- AddrV", " Forms <- FormsV",
                      " Losses = %d" % losses, " Downs = %d" % downs, " Extras = %d" % extras,
                      " Emit = %s" % ("TRUE" if emit else "FALSE"), ' Defect = "%s"' % defect,
                      "INVARIANTS TableSound" if emit else "INVARIANTS Clean Settled OnePerAddress TableSound",
                      "CHECK_DEADLOCK FALSE", "VIEW " + ("gview" if emit else "view")]
                     + (["ACTION_CONSTRAINT EmitEdge", "CONSTRAINT EmitInit"] if emit else [])
                     + (["PROPERTY Ends EndsLost"] if live else [])) + "\n"
    if defect != "none":
        text = text.replace(" OnePerAddress TableSound", "")
    name = "BoltClient%s@%s/loss%d/down%d/extra%d/%s" % (kinds, addrs, losses, downs, extras, "+".join(forms))
    if defect != "none":
        name += "/" + defect
    if emit:
        return c.graph("MCBoltClient", text, name=name + "/graph", env=dict(MODEL=f), heap="8g")
    return c.mc("MCBoltClient", text, name=name, env=dict(MODEL=f), workers=8, expect_violation=expect, heap="8g")


def path_scenario(kinds, addrs, path, how):
    """a path of the design's state graph as driver steps; system steps which can be observed are awaited"""
    b = CS(nsrv=max(addrs))
    for k, (kind, a) in enumerate(zip(kinds, addrs)):
        b.call({"short": "sync", "unenc": "sync", "drop": "async"}.get(kind, kind), a, **(dict(T=300) if kind == "short" else {}),
               **(dict(enc="content", T=1500) if kind == "unenc" else {}), **(dict(lost=True) if kind == "one" else {}))
    lost = False
    for act, x, y in path:
        if act == "Call":
            b.step("call", x)
        elif act == "Req":
            b.step("await", "reqret", x)
        elif act == "Resp":
            spec = dict(ok={}, fail=dict(st=7), bad=dict(form="badst"))[y]
            if kinds[x - 1] == "hb":
                spec = dict(ok=dict(form="hb"), fail=dict(form="hb", st=7), bad=dict(form="badst"))[y]
            b.step("resp", x, spec)
        elif act == "Stranger":
            b.step("resp", -4000, dict(a=1, n=x))
        elif act == "Ret":
            # once a connection was lost the real client may have taken another path than the model
            b.step("await", "softret" if lost else "ret", x)
        elif act == "Accept":
            b.step("await", "soft", ["acc", y])
        elif act == "Cancel":
            b.step("cancel", x)
        elif act == "Lose":
            b.step("lose", ["s", x], how)
            lost = True
        elif act == "Notice":
            b.step("noticed", ["s", x], how)
        elif act == "Down":
            lost = True
            b.step("down", x)
        elif act == "Up":
            b.step("up", x)
        elif act == "Refused" and kinds[x - 1] != "one":
            b.step("await", "softret", x)
        elif act in ("Tick", "Timeout"):
            for k, kind in enumerate(kinds):
                if kind == "short" and ["call", k + 1] in b.s["steps"]:
                    b.step("await", "ret", k + 1)
    b.step("finish")
    return b.s


def paths(c, kinds, addrs, limit, **kw):
    g = design(c, kinds, addrs, emit=True, **kw)
    ps = g.cover(c.rng, maxlen=60, limit=limit)
    seen, out = set(), []
    for i, p in enumerate(ps):
        s = path_scenario(kinds, addrs, p, ["fin", "rst"][i % 2])
        k = json.dumps([s["steps"], s["calls"]])
        if k not in seen:
            seen.add(k)
            out.append(s)
    c.cov["graph_edges"] = c.cov.get("graph_edges", 0) + g.total
    c.cov["graph_edges_covered_by_scenarios"] = c.cov.get("graph_edges_covered_by_scenarios", 0) + g.covered
    return out


MUTANTS = dict(noLock=dict(kinds=["sync", "async"], addrs=[1, 1], losses=0), noWake=dict(kinds=["sync"], addrs=[1]),
               lateReg=dict(kinds=["sync"], addrs=[1], losses=0), anyId=dict(kinds=["sync", "async"], addrs=[1, 1], losses=0),
               hide=dict(kinds=["sync"], addrs=[1], losses=0, forms=("ok", "fail")),
               cbFail=dict(kinds=["cb"], addrs=[1], losses=0, forms=("fail",)), oneType=dict(kinds=["one"], addrs=[1], losses=0),
               oneWait=dict(kinds=["one"], addrs=[1], losses=0), fourTries=dict(kinds=["big"], addrs=[1], losses=4),
               oneTry=dict(kinds=["big"], addrs=[1], losses=2), cancelDrops=dict(kinds=["drop", "sync"], addrs=[1, 1], losses=0), hbTrue=dict(kinds=["hb"], addrs=[1], forms=("ok", "fail")))


def mutants(c, names):
    """each defective design must break a clause (the clauses are not vacuous)"""
    for n in names:
        design(c, defect=n, expect="is violated", **MUTANTS[n])


def client_models(c, extra=()):
    """the design satisfies every clause of the abstract specification, for every interleaving"""
    design(c, ["sync", "async", "one"], [1, 1, 1], losses=1, live=True)
    design(c, ["short", "cb"], [1, 1], losses=1, extras=1)
    design(c, ["drop", "cb"], [1, 1], losses=1, extras=1)
    for kw in extra:
        design(c, **kw)
    if c.thorough:
        design(c, ["sync", "cb", "hb"], [1, 1, 1], losses=1, extras=1, forms=("ok", "fail"))
        design(c, ["sync", "async", "cb"], [1, 1, 2], losses=2, live=True)
        design(c, ["big", "async"], [1, 1], losses=4)
        design(c, ["sync", "unenc", "one"], [1, 1, 1], losses=1, downs=1)
        design(c, ["short", "short", "async"], [1, 1, 1], losses=1, extras=1)
        design(c, ["big", "big"], [1, 1], losses=3)
        design(c, ["drop", "drop", "async"], [1, 1, 1], losses=1, extras=1)


GRAPHS = [dict(kinds=["sync", "cb"], addrs=[1, 1], losses=1), dict(kinds=["async", "sync"], addrs=[1, 1], losses=0, extras=1, forms=("ok", "fail")),
          dict(kinds=["short", "async"], addrs=[1, 1], losses=0, extras=1), dict(kinds=["async", "one"], addrs=[1, 1], losses=1),
          dict(kinds=["sync", "async"], addrs=[1, 2], losses=1, downs=1), dict(kinds=["cb", "hb"], addrs=[1, 1], losses=1, forms=("ok", "bad")),
          dict(kinds=["async", "cb"], addrs=[1, 1], losses=2), dict(kinds=["unenc", "sync"], addrs=[1, 1], losses=1),
          dict(kinds=["sync", "async", "cb"], addrs=[1, 1, 1], losses=0), dict(kinds=["drop", "sync"], addrs=[1, 1], losses=1)]


def graphs(c, idx, limit=50):
    out = []
    for i in range(len(GRAPHS)) if c.thorough else idx:
        out += paths(c, limit=1500 if c.thorough else limit, **GRAPHS[i])
    return out


# ------------------------------------------------------------------------------------------------ checks
def run_client(c, scs, clauses=None, timeout=400, shards=6, module="ClientTrace", clock=1):
    if clock != 1:
        for s in scs:
            for q in s["calls"].values():
                if q["kind"] == "sync":
                    q.setdefault("T", 100000)      # a time limit kept by the loop's clock is no concern here
    tr = c.drive("client_driver", scs, timeout=timeout, shards=shards, env=dict(VERIF_CLOCK=str(clock)))
    stopped = [t for t in tr if t.get("stopped")]
    tr = [t for t in tr if not t.get("stopped")]
    c.cov["scenarios_skipped_after_stalls"] = len(stopped)
    c.validate(module, tr, clauses=clauses, scenarios=scs, what="client scenario",
               cfg="SPECIFICATION TraceSpec\nVIEW View\nCHECK_DEADLOCK FALSE\n")
    return tr


def fam_hbtimer(c):
    """a client attached to the mesh, its loop on an accelerated clock; real time decides before an alarm is raised"""
    plans = [dict(port=12220, plan=["ok", "st3", "ok", "none", "ok", "fin", "ok", "rst"], length=400, calls=False),
             dict(plan=["none", "none", "ok", "none", "badst", "ok"], length=400, calls=True),
             dict(plan=["ok"] * 20, length=400, calls=True),
             dict(plan=["st1", "down", "ok", "st17", "badhdr"], length=400, calls=False),
             dict(plan=["rst", "fin", "none", "rst"], length=400, calls=False)]
    if c.thorough:
        acts = ["ok", "none", "fin", "rst", "down", "badst", "badhdr"] + ["st%d" % x for x in STATUS]
        plans += [dict(plan=[c.rng.choice(acts) for _ in range(20)], length=900, calls=False) for _ in range(10)]
        plans += [dict(plan=[c.rng.choice(["ok", "none", "badst", "st7"]) for _ in range(20)], length=900, calls=True) for _ in range(5)]
    return plans


def run_hbtimer(c, clauses):
    scs = fam_hbtimer(c)
    cfg = "SPECIFICATION TraceSpec\nVIEW View\nCHECK_DEADLOCK FALSE\n"
    before = len(c.violations)
    tr = c.drive("hb_driver", scs, timeout=120)
    c.validate("ClientTrace", tr, clauses=clauses, scenarios=scs, what="heartbeat timer scenario", cfg=cfg)
    if len(c.violations) > before:
        # what an accelerated clock shows counts only if the real clock shows it as well
        bad = {v[2]["scenario"]["sid"] for v in c.violations[before:] if v[2].get("scenario")}
        suspects = [dict(s, length=min(s["length"], 330)) for s in scs if s["sid"] in bad][:3]
        c.log("confirming in real time: %s" % sorted(bad))
        del c.violations[before:]
        if c.violations:
            return      # decided already
        tr = c.drive("hb_driver", suspects, timeout=500, env=dict(VERIF_HB_SPEED="1"))
        c.validate("ClientTrace", tr, clauses=clauses, scenarios=suspects, what="heartbeat timer scenario (real time)", cfg=cfg)


def run_hblong(c, clauses):
    """a long life: many heartbeats, and many failures in a row; the clock runs faster than for the fine timing"""
    acts = ["none", "st3", "rst", "badst", "fin", "badhdr", "st17"]
    scs = [dict(plan=["ok"] * 150, length=3000, calls=True), dict(plan=["none"] * 30 + ["ok"] * 100, length=3000, calls=False),
           dict(plan=["st%d" % (1 + i % 9) for i in range(60)], length=3000, calls=True), dict(plan=["rst", "fin"] * 30, length=3000, calls=False),
           dict(plan=["badhdr", "badst"] * 30, length=3000, calls=False), dict(plan=[c.rng.choice(acts) for _ in range(100)], length=3000, calls=False)]
    cfg = "SPECIFICATION TraceSpec\nVIEW View\nCHECK_DEADLOCK FALSE\n"
    for speed in (120, 12):
        before = len(c.violations)
        tr = c.drive("hb_driver", scs, timeout=500, env=dict(VERIF_HB_SPEED=str(speed)))
        c.validate("ClientTrace", tr, clauses=clauses, scenarios=scs, what="heartbeat timer scenario (long, clock x %d)" % speed, cfg=cfg)
        if len(c.violations) == before or speed == 12:
            return
        bad = {v[2]["scenario"]["sid"] for v in c.violations[before:] if v[2].get("scenario")}
        del c.violations[before:]
        if c.violations:
            return
        scs = [dict(s) for s in scs if s["sid"] in bad][:3]
        c.log("confirming at a slower clock: %s" % sorted(bad))


def check_p07(c):
    import server
    server.aio_models(c)
    server.aio_mutants(c, ["answerOneway"])
    client_models(c)
    mutants(c, ["oneType", "oneWait"])
    n = 20 if c.thorough else 6
    scs = server.graph_scenarios(c, [0, 4, 9], quick_limit=40) + server.fam_oneway(c.rng, "aio", n) \
        + server.fam_random(c.rng, 60 if c.thorough else 8)
    scs += server.sock_graph_scenarios(c, [0, 3], quick_limit=30) + server.fam_oneway(c.rng, "sock", n)
    server.run_server(c, scs, clauses=lambda x: x.startswith("P07."))
    scs = fam_long(c.rng, c.thorough) + graphs(c, [3]) + fam_oneway(c.rng, c.thorough) + fam_storm(c.rng, 10 if c.thorough else 2)
    scs += fam_habit(["one"], (5000,))
    run_client(c, scs, clauses=lambda x: x.startswith("P07."))
    import sync_check
    sync_check.sync_oneway(c)


def check_p08(c):
    import server
    server.aio_models(c)
    client_models(c)
    mutants(c, ["hbTrue"])
    scs = server.graph_scenarios(c, [1], quick_limit=40) + server.fam_heartbeat(c.rng, "aio") + server.fam_heartbeat(c.rng, "sock") \
        + server.sock_graph_scenarios(c, [2], quick_limit=30)
    server.run_server(c, scs, clauses=lambda x: x.startswith("P08."))
    scs = graphs(c, [5]) + fam_heartbeat(c.rng, c.thorough) + fam_storm(c.rng, 10 if c.thorough else 2)
    run_client(c, scs, clauses=lambda x: x.startswith("P08."))
    run_hblong(c, lambda x: x == "P08.stopped")
    run_hbtimer(c, lambda x: x.startswith("P08.") or x in ("P11.failed", "P11.lost", "P11.foreign", "P13.spurious", "P13.hang"))


def check_p11(c):
    client_models(c, [dict(kinds=["sync", "cb"], addrs=[1, 1], losses=0, extras=1, forms=("ok", "fail", "bad"))])
    mutants(c, ["lateReg", "anyId"])
    scs = fam_burn(c.thorough) + fam_long(c.rng, c.thorough) + graphs(c, [1, 2, 8]) + fam_orders(c.rng, c.thorough) + fam_segments(c.rng, c.thorough) \
        + fam_foreign(c.rng, c.thorough) + fam_early(c.rng, c.thorough) + fam_hold(c.rng, c.thorough, ["sync", "async"], False) + fam_storm(c.rng, 30 if c.thorough else 6)
    scs += fam_interleaved(c.rng, 400 if c.thorough else 60) + fam_many(c.rng, 4100 if c.thorough else 1100, KINDS3 + ["one"])
    scs += fam_cancel(c.rng, 200 if c.thorough else 30)
    run_client(c, scs, clauses=lambda x: x.startswith("P11."))


P12_CLAUSES = {"P11.failed", "P13.spurious", "P14.dropped", "P11.lost", "P14.unsent", "P11.foreign"}


def check_p12(c):
    client_models(c, [dict(kinds=["unenc", "cb"], addrs=[1, 1], losses=1, downs=1)])
    mutants(c, ["hide"])
    scs = fam_long(c.rng, c.thorough, ["async", "one"]) + graphs(c, [1, 7]) + fam_status(c.rng, c.thorough) + fam_unencodable(c.rng, c.thorough) \
        + fam_storm(c.rng, 12 if c.thorough else 3) + fam_cancel(c.rng, 100 if c.thorough else 20, False)
    run_client(c, scs, clauses=lambda x: x.startswith("P12.") or x in P12_CLAUSES)


def check_p13(c):
    client_models(c, [dict(kinds=["sync", "async"], addrs=[1, 1], losses=2, live=True)])
    mutants(c, ["noWake", "cbFail", "cancelDrops"])
    scs = fam_long(c.rng, c.thorough) + graphs(c, [0, 2, 5, 9]) + fam_cancel(c.rng, 200 if c.thorough else 30) + fam_timeouts(c.rng, c.thorough) + fam_loss(c.rng, c.thorough) \
        + fam_callbacks(c.rng, c.thorough) + fam_down(c.rng, c.thorough) + fam_interrupted(c.rng, c.thorough) \
        + fam_early(c.rng, False) + fam_hold(c.rng, c.thorough) + fam_storm(c.rng, 12 if c.thorough else 3) + fam_interleaved(c.rng, 20)
    scs += fam_habit(["sync"], (1, 120, 350, 1200, 2500, 9000) if c.thorough else (1, 120, 350, 1200), (0, 30))
    run_client(c, scs, clauses=lambda x: x.startswith("P13."))


def check_p14(c):
    client_models(c, [dict(kinds=["big", "async"], addrs=[1, 1], losses=2), dict(kinds=["sync", "async"], addrs=[1, 2], losses=2, downs=1)])
    mutants(c, ["noLock", "fourTries", "oneTry"])
    scs = fam_long(c.rng, c.thorough) + graphs(c, [0, 3, 4, 6]) + fam_dial(c.rng, c.thorough) + fam_loss(c.rng, c.thorough) \
        + fam_interrupted(c.rng, c.thorough) + fam_down(c.rng, c.thorough) + fam_orders(c.rng, False)[:8] \
        + fam_storm(c.rng, 12 if c.thorough else 3) + fam_many(c.rng, 4100 if c.thorough else 1100) + fam_many(c.rng, 400, nsrv=4) \
        + fam_cancel(c.rng, 100 if c.thorough else 20, False)
    run_client(c, scs, clauses=lambda x: x.startswith("P14."))
    # the event loop's clock a hundred times faster: minutes of silence
    run_client(c, fam_long(c.rng, False, ["async", "cb", "one"]), clauses=lambda x: x.startswith("P14."), clock=100)


CHECKS = dict(P07=check_p07, P08=check_p08, P11=check_p11, P12=check_p12, P13=check_p13, P14=check_p14)
