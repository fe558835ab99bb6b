"""P24 (and the calls of P20): real clients against real listeners, decided by spec/EndAbs.tla; EndToEnd.tla is the composed design."""
from common import *


def design(c, kind, client, key, workers=2, idmod=8, giveups=0, defect="none", expect=None, emit=False, live=False):
    f = os.path.join(c.work, "e2e-model.json")
    json.dump(dict(kind=kind, client=client, key=key), open(f, "w"))
    text = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " Kind <- KindV", " ClientOf <- ClientOfV", " KeyOf <- KeyOfV", " Workers = %d" % workers, " IdMod = %d" % idmod,
                      " GiveUps = %d" % giveups, " Emit = %s" % str(emit).upper(), ' Defect = "%s"' % defect, "CHECK_DEADLOCK FALSE", "VIEW " + ("gview" if emit else "view")]
                     + (["ACTION_CONSTRAINT EmitEdge", "CONSTRAINT EmitInit"] if emit else ["INVARIANT Clean"]) + (["PROPERTY Ends"] if live else [])) + "\n"
    kw = dict(name="EndToEnd %s clients %s keys %s w%d id%d give%d%s" % (",".join(kind), client, key, workers, idmod, giveups, "" if defect == "none" else "/" + defect),
              env=dict(MODEL=f), heap="8g")
    if emit:
        kw["name"] += "/graph"
        return c.graph("MCEndToEnd", text, **kw)
    return c.mc("MCEndToEnd", text, expect_violation=expect, workers=8, **kw)


def models(c):
    design(c, ["two", "two", "one"], [1, 1, 2], [1, 2, 1], live=True)
    design(c, ["two", "boom", "two", "lost"], [1, 1, 2, 1], [1, 2, 1, 3])
    design(c, ["two", "two", "two"], [1, 1, 1], [1, 1, 2], giveups=1)
    if c.thorough:
        design(c, ["two", "two", "two", "one"], [1, 1, 2, 2], [1, 1, 1, 2], workers=3, giveups=1)
        design(c, ["two", "boom", "one", "two", "lost"], [1, 2, 1, 1, 2], [1, 2, 1, 2, 3])
    two = (["two", "two", "two"], [1, 1, 2], [1, 2, 3])
    for d, kw in (("sameId", {}), ("again", {}), ("lastId", dict(workers=1)), ("lastConn", {}), ("dropReply", dict(live=True)), ("none", dict(idmod=2, giveups=1))):
        exp = "" if d == "dropReply" else "is violated"
        k = two if d != "none" else (["two", "two", "two"], [1, 1, 1], [1, 2, 3])
        design(c, *k, defect=d, expect=exp, **kw)


PAIRS = [(0, "e2e.0.A"), (0, "e2e.0.B"), (1, "e2e.0.A"), (1, "e2e.1.A"), (0, "e2e.1.B"), (2, "e2e.0.A"), (3, "e2e.1.A"), (2, "e2e.2.A"), (3, "e2e.2.B"), (3, "e2e.3.A"),
         (0, "e2e.shared"), (2, "e2e.shared")]
CTX = [None, ["own", "0a0b", "1.2.3", []], ["own", "t9", "0", [["k", "v"], ["a.b", "\u4e2d"]]], ["child", "up", "1.4", [["penAttrs", "x=1&y"]]],
       ["own", "T", "7.1", [["prefix", "p"], ["expand", "e"]]]]


def mk(c, cl, iface, meth, label, size=20, api="sync", **kw):
    if cl >= 2 and api in ("async", "cb"):
        api = "sync"
    return dict(c=c, cl=cl, iface=iface, meth=meth, body=[label, size], api=api, **kw)


def path_scenarios(c, limit):
    out, seen = [], set()
    for kind, client, key, workers in ((["two", "two", "two"], [1, 1, 2], [1, 2, 3], 3), (["two", "one", "two", "lost"], [1, 1, 1, 2], [1, 2, 1, 3], 3)):
        g = design(c, kind, client, key, workers=workers, emit=True)
        for i, p in enumerate(g.cover(c.rng, maxlen=60, limit=limit)):
            steps = [[a, x] for a, x in p if a in ("call", "start", "finish", "recv")]
            k = json.dumps([steps, kind])
            if k in seen:
                continue
            seen.add(k)
            calls = []
            for j, kd in enumerate(kind):
                cl = (client[j] - 1) if i % 3 < 2 else 2 + (client[j] - 1)
                iface = "e2e.none0" if kd == "lost" else ["e2e.0.A", "e2e.0.B", "e2e.1.A"][(i + j) % 3] if i % 6 != 5 else "e2e.2.A"
                calls.append(mk(j + 1, cl, iface, "echo" if kd == "lost" else "gate", "k%d" % key[j], api="oneway" if kd == "one" else ["sync", "async", "cb"][(i + j) % 3],
                                ctx=CTX[(i + j) % len(CTX)]))
            if kind[2] == "two" and key[0] == key[2]:      # equal calls
                calls[2].update(iface=calls[0]["iface"])
            out.append(dict(mode="path", calls=calls, steps=steps))
        c.cov["graph_edges"] = c.cov.get("graph_edges", 0) + g.total
        c.cov["graph_edges_covered_by_scenarios"] = c.cov.get("graph_edges_covered_by_scenarios", 0) + g.covered
    return out


SIZES = [0, 1, 20, 100, 1000, 5000, 65536, 70001, 400000]


def fam_mix(rng, n, threads=8, each=6):
    out = []
    for i in range(n):
        k = 0
        ths = []
        style = rng.choice(["mixed", "same", "one", "pairs"])
        base = rng.choice(PAIRS)
        for t in range(rng.choice([2, 4, threads, threads])):
            qs = []
            for _ in range(rng.randint(1, each)):
                k += 1
                cl, iface = base if style == "one" else rng.choice(PAIRS)
                meth = rng.choice(["echo"] * 4 + ["rev", "empty", "same", "big", "boom", "s1", "s5", "s20", "s60", "nomethod"])
                if rng.random() < .05:
                    iface = "e2e.none%d" % rng.choice([0, 1, 2 if cl >= 2 else 0])
                api = rng.choice(["sync"] * 3 + ["async", "cb", "oneway"])
                lab = "same" if style == "same" and rng.random() < .6 else "b%d" % k
                kw = {}
                if rng.random() < .5:
                    kw["ctx"] = rng.choice(CTX)
                if cl < 2 and rng.random() < .3:
                    kw["extra"] = dict(target_app="app", uid="u", custom="x")
                if rng.random() < .06 and meth in ("s20", "s60") and cl < 2:
                    kw.update(T=rng.choice([1, 3, 10]), short=True)
                if rng.random() < .2:
                    kw.setdefault("T", rng.choice([15000.5, 9000.25, 60000]))
                qs.append(mk(k, cl, iface, meth, lab, 20 if lab == "same" else rng.choice(SIZES[:6] * 3 + SIZES), api, **kw))
            ths.append(qs)
        out.append(dict(mode="threads", threads=ths))
        if i % 3 == 0:
            out[-1]["hold"] = dict(who="rest", n=sorted(rng.sample(range(1, rng.choice([300, 3000, 20000])), 12)), ms=rng.choice([5, 15, 40]))
    return out


def fam_storm(rng, n, thorough):
    """many concurrent calls over one connection, more than the listener has workers; answers out of order"""
    out = []
    for i in range(n):
        N = 60 if not thorough else 150
        ths = [[mk(t * 10 + j + 1, t % 2, ["e2e.0.A", "e2e.0.B", "e2e.1.A"][(t + j) % 3], ["s20", "echo", "s5", "s1", "s60"][(t * 7 + j * 3 + i) % 5], "x%d.%d" % (t, j),
                   rng.choice([10, 300, 40000]), ["sync", "async", "cb"][(t + j) % 3]) for j in range(3)] for t in range(N)]
        out.append(dict(mode="threads", threads=ths))
        ths = [[mk(t * 10 + j + 1, 2 + t % 2, ["e2e.0.A", "e2e.2.A", "e2e.3.B"][(t + j) % 3], ["s20", "echo", "s1"][(t + j) % 3], "y%d.%d" % (t, j), rng.choice([10, 300, 40000]))
                for j in range(3)] for t in range(20)]
        out.append(dict(mode="threads", threads=ths))
    return out


def fam_big(rng):
    out = []
    for cl, iface in ((0, "e2e.0.A"), (2, "e2e.0.A"), (2, "e2e.2.A")):
        for size in (1 << 20, 3000000):
            out.append(dict(mode="threads", threads=[[mk(1, cl, iface, "same", "big", size)], [mk(2, cl, iface, "echo", "s", 10), mk(3, cl, iface, "rev", "big2", size)]]))
    return out


def fam_proxy(rng, n):
    """the stream is split, delayed or cut; faulty: calls may fail, values must still be right"""
    out = []
    for i in range(n):
        li = rng.choice([0, 0, 1, 2])
        iface = "e2e.%d.P" % li
        cls = [0, 1, 2] if li < 2 else [2, 3]
        mode = rng.choice(["chunk", "rnd", "cut", "cut", "cut"])
        p = dict(iface=iface)
        if mode == "chunk":
            p.update(chunk=rng.choice([1, 3, 19, 21]), delay=rng.choice([0, 0, 1]))
        elif mode == "rnd":
            p.update(rnd=True)
        else:
            p.update(cut=[rng.choice(["up", "down"]), rng.choice([0, 1, 10, 19, 20, 21, 50, 64, 80, 150, 300, 700, rng.randint(1, 2000)]), rng.choice(["fin", "rst"])],
                     conns=rng.choice([1, 1, 2, 5]), rnd=rng.random() < .3)
        k, ths = 0, []
        one = rng.choice(cls)
        for t in range(rng.choice([1, 2, 4])):
            qs = []
            for _ in range(rng.randint(1, 4)):
                k += 1
                qs.append(mk(k, one if rng.random() < .7 else rng.choice(cls), iface, rng.choice(["echo", "rev", "same", "s5", "big", "empty"]), "p%d" % k, rng.choice([0, 20, 20, 300, 3000]),
                             rng.choice(["sync", "sync", "async", "cb", "oneway"]), faulty=mode == "cut", T=3000 if mode == "cut" else 20000, ctx=rng.choice(CTX)))
            ths.append(qs)
        out.append(dict(mode="threads", threads=ths, proxies=[p]))
    return out


def fam_names(rng):
    """interfaces and methods with names which are easily taken for one another, all served by the same listeners"""
    out = []
    for part in range(0, len(ODD_NAMES), 6):
        for cl in range(4):
            names = ODD_NAMES[part:part + 6] + rng.sample(ODD_NAMES, 2)
            out.append(dict(mode="threads", odd=cl % 2 * 2 if cl >= 2 else cl % 2, threads=[
                [mk(2 * i + 1, cl, n, rng.choice(["echo", "Echo", "_echo", "echo2", "ECHO", "echo_"]), "n%d" % i, 5),
                 mk(2 * i + 2, cl, n, "rev", "n", 5, rng.choice(["sync", "oneway"]))] for i, n in enumerate(names)]))
    return out


def fam_calls(rng):
    """every client, kind of call and listener, with every context and extra headers (P20)"""
    out = []
    for cl, iface in PAIRS:
        for i, ctx in enumerate(CTX):
            for api in ("sync", "async", "oneway") if cl < 2 else ("sync", "oneway"):
                out.append(dict(mode="threads", threads=[[mk(1, cl, iface, "echo", "c", 10, api, ctx=ctx, **(dict(extra=dict(target_app="t", custom="rpc_trace")) if cl < 2 else {})),
                                                          mk(2, cl, iface, "echo", "c", 10, api, ctx=CTX[i - 1])]]))
    return out


def run_traces(c, scs):
    rng = random.Random(c.seed)
    rng.shuffle(scs)
    tr = c.drive("e2e_driver", scs, shards=8, timeout=850 if c.thorough else 400)
    c.validate("EndTrace", tr, scenarios=scs, what="end-to-end scenario", cfg="SPECIFICATION TraceSpec\nVIEW View\nCHECK_DEADLOCK FALSE\n")


def check(c):
    models(c)
    scs = path_scenarios(c, 3000 if c.thorough else 150)
    scs += fam_mix(c.rng, 600 if c.thorough else 80) + fam_storm(c.rng, 12 if c.thorough else 2, c.thorough) + fam_big(c.rng) + fam_names(c.rng)
    scs += fam_proxy(c.rng, 600 if c.thorough else 80)
    run_traces(c, scs)


CHECKS = dict(P24=check)
