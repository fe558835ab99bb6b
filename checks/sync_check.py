"""P15 (and the blocking client's side of P07): decided by spec/SyncAbs.tla (abstract) and SyncClient.tla (design)."""
from common import *
from client import CS, STATUS, BADFORMS, run_client, fam_habit

SIZE = 20 + 44 + 3     # a response with three bytes of content
OFF = [0, 10, 20, 43, -1]
SCFG = dict(client="sync")


def sc(nsrv=1, **kw):
    return CS(nsrv, client="sync", **kw)


def design(c, resp="ok", kind="sync", pieces=2, emit=False, defect="none", expect=None):
    text = "\n".join(["SPECIFICATION Spec", "CONSTANTS", ' Kind = "%s"' % kind, ' Resp = "%s"' % resp, " Pieces = %d" % pieces,
                      " Emit = %s" % ("TRUE" if emit else "FALSE"), ' Defect = "%s"' % defect, "CHECK_DEADLOCK FALSE",
                      "VIEW " + ("gview" if emit else "view")]
                     + (["ACTION_CONSTRAINT EmitEdge", "CONSTRAINT EmitInit"] if emit else ["INVARIANTS Clean Settled"])
                     + (["PROPERTY Returns"] if kind == "sync" and defect == "none" and not emit else [])) + "\n"
    name = "SyncClient %s/%s/pieces%d" % (kind, resp, pieces)
    if emit:
        return c.graph("SyncClient", text, name=name + "/graph")
    return c.mc("SyncClient", text, name=name + ("" if defect == "none" else "/" + defect), expect_violation=expect)


def models(c):
    for r in ("ok", "fail", "foreign", "bad"):
        design(c, r, pieces=5 if c.thorough else 2)
    design(c, kind="one", pieces=3)


SPEC = dict(ok={}, fail=dict(st=7), foreign=dict(off=77777), bad=dict(form="badhdr"))


def path_scenarios(c, resp, kind, limit, rng):
    g = design(c, resp, kind, emit=True)
    out, seen, b = [], set(), None
    for p in g.cover(c.rng, maxlen=40, limit=limit):
        acts = [a for a, _ in p]
        # whether the peer stops reading, or the connection is lost while the request is being transmitted
        big = "Stall" in acts or ("Lose" in acts and ("Take", 2) not in [tuple(x) for x in p])
        refuse = "Connect" in acts and "Send" not in acts and "Lose" not in acts and "Stall" not in acts
        slow = "Tick" in acts
        key = json.dumps([x for x in p if x[0] in ("Byte", "Lose", "Take", "Stall", "Tick", "Read", "Connect")])
        if key in seen:
            continue
        seen.add(key)
        b = sc(small=big, plan={"1": [["stall"]]} if big else {})
        if refuse:
            b.step("down", 1)
        k = b.call(kind, T=200 if slow or big else 4000, **(dict(body=b"0123456789", times=600000) if big else {}), lost=big or refuse)
        n = 0
        for act, x in p:
            if act == "Call":
                b.step("call", k)
            elif act == "Connect" and not refuse:
                b.step("await", "soft", ["acc", 1])
            elif act == "Take" and x == 2:
                if big:
                    b.step("stall", ["s", 1], False)
                b.step("await", "reqret", k)
            elif act == "Byte":
                b.step("chunk", k, SPEC[resp], OFF[x - 1], OFF[x])
                n = x
            elif act == "Read":
                b.step("sleep", 3)
            elif act == "Lose":
                b.step("lose", ["s", 1], rng.choice(["fin", "rst"]) if n < 4 else "fin")
            elif act in ("Timeout", "Eof", "Decide") and kind != "one":
                b.step("await", "ret", k)
        if big:
            b.step("lose", ["s", 1], "rst")
        if refuse:
            b.step("await", "ret", k).step("up", 1)
        b.step("finish")
        if kind == "sync":
            b.whole("sync")
        out.append(b.s)
    c.cov["graph_edges"] = c.cov.get("graph_edges", 0) + g.total
    c.cov["graph_edges_covered_by_scenarios"] = c.cov.get("graph_edges_covered_by_scenarios", 0) + g.covered
    return out


def by_connection(scs):
    """the same scenarios with the calls made on a bare SocketConnection (sendall, recvexactly)"""
    out = []
    for s in scs:
        s = json.loads(json.dumps(s))
        for q in s["calls"].values():
            q["via"] = "connection"
        out.append(s)
    return out


def fam_cut(rng, thorough):
    """the response is split in two at every byte, and cut off at every byte; several threads at once"""
    out = []
    for lo in range(0, SIZE, 12):
        for what in ("split", "fin", "rst"):
            b = sc()
            cuts = range(lo, min(SIZE, lo + 12))
            ks = [b.call("sync", T=9000) for _ in cuts]
            b.step("calls", ks)
            for k in ks:
                b.step("await", "req", k)
            for k, n in zip(ks, cuts):
                if what == "split":
                    b.step("chunk", k, {}, 0, n)
                else:
                    b.step("cut", k, {}, n, what, 2)
            if what == "split":
                b.step("sleep", 20)
                for k, n in zip(ks, cuts):
                    b.step("chunk", k, {}, n, -1)
            for k in ks:
                b.step("await", "ret", k)
            b.whole("sync")
            out.append(b.s)
    for seg in ("bytes", "rnd", 1000, 65536, [19, 1], [20, 1], [21]):
        for size in (0, 1, 300, 70000, 3000000):
            if size > 1000 and seg in ("bytes", "rnd") or size > 100000 and seg == 1000:
                continue
            b = sc()
            k = b.go("sync", T=15000)
            body = b"0123456789" if size >= 10 else b"x" * size
            b.step("resp", k, dict(body=body.hex(), times=max(1, size // 10)), seg, 1)
            b.step("await", "ret", k)
            out.append(b.s)
    return out


def fam_requests(rng, thorough):
    """large requests, to slow readers as well, and requests which cannot be encoded"""
    out = []
    for n in (0, 1, 1000, 100000, 1000000, 6000000, 20000000):
        b = sc(small=n > 100000)
        b.whole("sync", body=b"0123456789" if n > 9 else b"x" * n, times=max(1, n // 10), T=20000)
        out.append(b.s)
    for n, pause in ((1200000, 300), (3000000, 600)):
        b = sc(small=True, plan={"1": [["stall"]]})
        k = b.call("sync", body=b"0123456789", times=n // 10 * 10 // 10, T=20000)
        b.step("call", k).step("await", "acc", 1).step("sleep", pause).step("stall", ["n", 1], False).step("await", "req", k)
        b.step("resp", k, {}).step("await", "ret", k)
        out.append(b.s)
    for n in (2000000,):      # one-way, to a peer which reads late
        b = sc(small=True, plan={"1": [["stall"]]})
        k = b.call("one", body=b"0123456789", times=n // 10)
        b.step("call", k).step("await", "acc", 1).step("sleep", 300).step("stall", ["n", 1], False).step("await", "req", k)
        out.append(b.s)
    for how in ("fin", "rst"):  # lost while the request is transmitted
        b = sc(small=True, plan={"1": [["stallrst", 100]]})
        k = b.call("sync", body=b"0123456789", times=600000, T=15000)
        b.step("call", k).step("await", "ret", k)
        b.whole("sync")
        out.append(b.s)
    for enc in ("content", "header"):
        for kind in ("sync", "one"):
            b = sc()
            k = b.call(kind, enc=enc, T=300)
            b.step("call", k).step("await", "ret", k)
            b.whole("sync")
            out.append(b.s)
    return out


def fam_answers(rng, thorough):
    """every status and every undecodable form; foreign ids; own response after a foreign one"""
    out = []
    specs = [dict(st=x) for x in STATUS] + [dict(st=STATUS[i], body=b"details".hex()) for i in (0, 6, 11)] \
        + [dict(st=x, body="") for x in STATUS] + [dict(st=x, body="", hdr=dict(a="b")) for x in STATUS] \
        + [dict(form=f) for f in BADFORMS] + [dict(form="hb"), dict(form="hb", st=7), dict(form="any", body=b"c".hex())]
    b = None
    for i, spec in enumerate(specs):
        if b is None or b.k >= 10:
            b = sc()
            out.append(b.s)
        k = b.go("sync")
        b.step("resp", k, spec, ["one", "rnd", "bytes"][i % 3]).step("await", "ret", k)
    for off in (1, -1, 2, 256, 1 << 16, 1 << 24, -(1 << 30), 12345):
        b = sc()
        k = b.go("sync")
        b.step("chunk", k, dict(off=off), 0, -1)
        if off % 2:
            b.step("chunk", k, {}, 0, -1)
        b.step("await", "ret", k)
        k = b.go("sync")
        b.step("chunk", k, dict(off=off, st=7), 0, -1).step("await", "ret", k)
        b.whole("sync")
        out.append(b.s)
    # concurrent callers: each response on the other's connection, then orders and sizes
    for i in range(6 if thorough else 2):
        b = sc()
        ks = [b.call("sync", T=9000) for _ in range(6)]
        b.step("calls", ks)
        for k in ks:
            b.step("await", "req", k)
        order = list(ks)
        rng.shuffle(order)
        for k in order:
            b.step("resp", k, dict(body=(b"%d-" % k).hex(), times=1 + 1000 * (k % 3)), "one" if i else "rnd")
        for k in ks:
            b.step("await", "ret", k)
        out.append(b.s)
    return out


def fam_timeouts(rng, thorough):
    """not answered in time: nothing at all, or everything but the last byte, or bytes which keep coming"""
    out = []
    for i, T in enumerate((1, 100, 300.5, 0.5, 700)):
        b = sc()
        ks = [b.call("sync", T=T) for _ in range(5)]
        b.step("calls", ks)
        for k in ks:
            b.step("await", "req", k)
        for k, n in zip(ks, (0, 1, 20, 21, SIZE - 1)):
            if n:
                b.step("chunk", k, {}, 0, n)
        for k in ks:
            b.step("await", "ret", k)
        b.step("chunk", ks[4], {}, SIZE - 1, SIZE)
        b.whole("sync")
        out.append(b.s)
    # trickling: the timeout is for the whole response
    b = sc()
    k = b.go("sync", T=300)
    for i in range(SIZE - 1):
        b.step("chunk", k, {}, i, i + 1).step("sleep", 45)
    b.step("await", "ret", k)
    out.append(b.s)
    for parts, gap in ((20, 420), (SIZE - 1, 120)):
        b = sc()
        k = b.go("sync", T=300)
        for i in range(parts):
            b.step("chunk", k, {}, i, i + 1).step("sleep", gap)
        b.step("await", "ret", k)
        out.append(b.s)
    # slow, but in time
    b = sc()
    ks = [b.call("sync", T=1500) for _ in range(3)]
    b.step("calls", ks)
    for k in ks:
        b.step("await", "req", k)
    b.step("sleep", 1000)
    for k in ks:
        b.step("resp", k, {}).step("await", "ret", k)
    out.append(b.s)
    # the peer never reads a large request
    b = sc(small=True, plan={"1": [["stall"]]})
    k = b.call("sync", body=b"0123456789", times=1200000, T=300)
    b.step("call", k).step("await", "ret", k)
    out.append(b.s)
    b = sc(small=True, plan={"1": [["stall"]] * 40})
    ks = [b.call("sync", body=b"0123456789", times=3000000, T=4500), b.call("sync", body=b"0123456789", times=2000000, T=3800)]
    b.step("calls", ks)
    for k in ks:
        b.step("await", "ret", k)
    out.append(b.s)
    return out


def fam_crowded(rng):
    """many descriptors are in use in the process"""
    out = []
    for n in (300, 1100, 5000):
        b = sc(2, fds=n)
        for i in range(4):
            b.whole("sync", 1 + i % 2)
        k = b.go("sync")
        b.step("chunk", k, {}, 0, 21).step("sleep", 5).step("chunk", k, {}, 21, -1).step("await", "ret", k)
        b.whole("sync", body=b"0123456789", times=100000)
        out += by_connection([b.s])
        k = b.call("sync", T=300)
        b.step("call", k).step("await", "ret", k)
        out.append(b.s)
    return out


def fam_oneway(rng, thorough):
    out = []
    for how in (None, "fin", "rst", "down"):
        b = sc()
        b.go("one")
        if how == "down":
            b.step("down", 1)
            k = b.call("one", lost=True)
            b.step("call", k).step("await", "ret", k).step("up", 1)
        elif how:
            k = b.call("one")
            b.step("call", k).step("await", "req", k).step("lose", ["r", k], how)
        ks = [b.call("one") for _ in range(6)]
        b.step("calls", ks)
        for k in ks:
            b.step("await", "req", k).step("await", "ret", k)
        b.whole("sync")
        out.append(b.s)
    b = sc()
    for n in (0, 1, 5000, 1000000, 8000000):
        b.go("one", body=b"0123456789" if n > 9 else b"x" * n, times=max(1, n // 10))
    out.append(b.s)
    return out


def fam_storm(rng, n, threads=10, per=6):
    out = []
    for i in range(n):
        b = sc(3, auto={str(a): dict(batch=rng.choice([1, 5]), wait=2, seg=rng.choice(["one", "rnd", 33])) for a in (1, 2, 3)})
        groups = []
        for _ in range(threads):
            g = []
            for _ in range(per):
                kw, x = {}, rng.random()
                if x < .15:
                    kw["resp"] = dict(st=rng.choice(STATUS))
                elif x < .25:
                    kw["resp"] = dict(form=rng.choice(BADFORMS))
                elif x < .4:
                    kw.update(body=b"0123456789", times=rng.choice([10, 8000, 60000]))
                g.append(b.call(rng.choice(["sync"] * 4 + ["one"]), rng.choice([1, 2, 3]), T=rng.choice([9000, 9000.5]), **kw))
            groups.append(g)
        b.step("calls", groups)
        for g in groups:
            for k in g:
                b.step("await", "ret", k)
        out.append(b.s)
    return out


def check_p15(c):
    models(c)
    for r, d in (("ok", "partialSend"), ("ok", "spin"), ("ok", "partial"), ("fail", "hide"), ("foreign", "anyId"), ("ok", "noTimeout")):
        design(c, r, defect=d, expect="is violated")
    scs = []
    for r in ("ok", "fail", "foreign", "bad"):
        scs += path_scenarios(c, r, "sync", 400 if c.thorough else 40 if r == "ok" else 15, c.rng)
    scs += fam_cut(c.rng, c.thorough) + fam_requests(c.rng, c.thorough) + fam_answers(c.rng, c.thorough) \
        + fam_timeouts(c.rng, c.thorough) + fam_down(c.rng) + fam_storm(c.rng, 20 if c.thorough else 4)
    scs += fam_crowded(c.rng) + fam_habit(["sync"], (1, 120, 350, 1200, 4000) if c.thorough else (1, 350, 1200), (0, 1, 20, 30), client="sync")
    scs += by_connection(fam_cut(c.rng, c.thorough) + fam_requests(c.rng, False)[:9])
    run_client(c, scs, module="SyncTrace", shards=8)


def fam_down(rng):
    b = sc(2)
    b.step("down", 1)
    ks = [b.call("sync", 1, T=2000) for _ in range(3)]
    b.step("calls", ks)
    for k in ks:
        b.step("await", "ret", k)
    b.whole("sync", 2)
    b.step("up", 1)
    b.whole("sync", 1)
    return [b.s]


def sync_oneway(c):
    """the blocking client's one-way calls (part of P07)"""
    design(c, kind="one", pieces=3)
    design(c, kind="one", defect="oneWait", expect="is violated")
    scs = path_scenarios(c, "ok", "one", 60, c.rng) + fam_oneway(c.rng, c.thorough) + [s for s in fam_requests(c.rng, False)
                                                                                          if any(q["kind"] == "one" for q in s["calls"].values())]
    scs += fam_storm(c.rng, 6 if c.thorough else 1) + fam_habit(["one"], (5000,), client="sync")
    run_client(c, scs, clauses=lambda x: x.startswith("P07."), module="SyncTrace", shards=8)


CHECKS = dict(P15=check_p15)
