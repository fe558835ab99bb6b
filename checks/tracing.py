"""P19, P20, P21: spans, contexts and ids, decided by spec/SpanAbs, CtxAbs and IdTrace (Spans and Ids are the designs)."""
from common import *


# ------------------------------------------------------------------------------------------------ P19: spans
def design(c, procs=2, nodes=5, defect="none", expect=None, emit=False, live=False):
    text = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " Procs = {%s}" % ",".join(map(str, range(1, procs + 1))),
                      " MaxNodes = %d" % nodes, " Emit = %s" % str(emit).upper(), ' Defect = "%s"' % defect,
                      "CHECK_DEADLOCK FALSE", "VIEW " + ("gview" if emit else "view")]
                     + (["ACTION_CONSTRAINT EmitEdge", "CONSTRAINT EmitInit"] if emit else
                        ["INVARIANTS Unique" + ("" if defect != "none" else " Right Same AbsUnique")])
                     + (["PROPERTY Ends"] if live else [])) + "\n"
    name = "Spans p%d n%d%s" % (procs, nodes, "" if defect == "none" else "/" + defect)
    if emit:
        return c.graph("Spans", text, name=name + "/graph", heap="8g")
    return c.mc("Spans", text, name=name, expect_violation=expect, workers=8, heap="8g")


CHILD = ["child_of", "child_of_ctx", "ref", "reflist", "helper", "direct"]
FOLLOW = ["ref", "reflist", "helper", "direct"]
ROOTS = [["span", [], 1, "", []], ["ctx", [], 1, "", []], ["helper", [], 1, "", []],
         ["given", ["0", "3"], 7, "given-trace", [["k", "v"], ["test", ""]]],
         ["extract", ["1"], 10, "up-trace", [["a.b", "x"], ["unicode", "\u4e2d\u6587"]]],
         ["extract", [], 999999, "up2", []], ["given", [], 0, "g0", [["penAttrs", "p=1&q=2"]]]]


def how(rng, kind, only=None):
    return rng.choice(CHILD if kind == "child" else FOLLOW)


def path_scenarios(c, nodes, limit):
    g = design(c, procs=1, nodes=nodes, emit=True)
    out, seen = [], set()
    for i, p in enumerate(g.cover(c.rng, maxlen=100, limit=limit)):
        calls = [(k, a) for act, _, a, k in p if act == "call"]
        if not calls or json.dumps(calls) in seen:
            continue
        seen.add(json.dumps(calls))
        out.append(dict(mode="spans_seq", steps=[["new", *ROOTS[i % len(ROOTS)]]] + [[k, how(c.rng, k), a] for k, a in calls]))
    c.cov["graph_edges"] = g.total
    c.cov["graph_edges_covered_by_scenarios"] = g.covered
    return out


def fam_forest(rng, n, size):
    """several traces in one process; deep chains, wide families, any mixture"""
    out = []
    for i in range(n):
        steps, live = [], []
        shape = rng.choice(["mixed", "mixed", "deep", "wide", "follow"])
        for j in range(size):
            x = rng.random()
            if not live or x < .05:
                steps.append(["new", *rng.choice(ROOTS)])
                live.append(len(live) + 1)
                continue
            par = live[-1] if shape == "deep" and rng.random() < .8 else live[0] if shape == "wide" and rng.random() < .7 else rng.choice(live)
            if x < .15:
                steps.append([rng.choice(["peek", "use"]), par])
                continue
            kind = "follow" if rng.random() < (.85 if shape == "follow" else .4) else "child"
            steps.append([kind, how(rng, kind), par])
            live.append(len(live) + 1)
        out.append(dict(mode="spans_seq", steps=steps))
    # every way to derive, from every kind of origin
    for r in ROOTS:
        out.append(dict(mode="spans_seq", steps=[["new", *r]] + [["child", h, 1] for h in CHILD] + [["follow", h, 1] for h in FOLLOW]
                        + [["follow", h, 2] for h in FOLLOW] + [["child", h, 9] for h in CHILD] + [["child", "ref", 1], ["follow", "ref", 14]]))
    # families of any size
    for n in (8, 63, 98, 254, 998, 1023, 4094, 9997, 32766, 65534):
        r = rng.choice(ROOTS)
        out.append(dict(mode="spans_seq", steps=[["new", *r], ["child", "ref", 1], ["many", "child", 1, n], ["child", how(rng, "child"), 1], ["follow", how(rng, "follow"), 2],
                                                 ["child", "ref", 1], ["many", "follow", 1, n], ["follow", "ref", 1], ["follow", how(rng, "follow"), 1], ["child", "ref", 3],
                                                 ["child", "ref", 1], ["many", "child", 3, n // 3], ["child", "ref", 3], ["follow", "ref", 8]]))
    # long families: numbers of several digits
    out.append(dict(mode="spans_seq", steps=[["new", *ROOTS[0]]] + [["child" if k % 3 else "follow", "ref", 1 if k % 3 else 1 + k % 40] for k in range(260)], peeks=300))
    return out


def fam_threads(budget):
    C = lambda par, h="ref": ["child", h, par]
    F = lambda par, h="ref": ["follow", h, par]
    new = lambda i=0: ["new", *ROOTS[i]]
    rows = [
        ([new()], [[C(1)], [C(1)]]),
        ([new()], [[F(1)], [F(1)]]),
        ([new(), C(1)], [[C(1)], [F(2)]]),
        ([new(), C(1)], [[F(2)], [F(2)]]),
        ([new(), C(1), C(1)], [[F(2)], [F(3)]]),
        ([new(), C(1), C(1)], [[F(2)], [F(3)], [C(1)]]),
        ([new(3)], [[C(1, "helper"), C(1, "direct")], [C(1, "child_of"), F(1, "direct")]]),
        ([new(4)], [[C(1), F(101)], [C(1), F(201)]]),
        ([new()], [[C(1), C(101)], [C(1), C(201)], [F(1)]]),
        ([new(), F(1), F(2)], [[F(1)], [F(2)], [F(3)]]),
        ([], [[["new", *ROOTS[0]], C(101)], [["new", *ROOTS[1]], C(201)]]),
    ]
    return [dict(mode="spans_threads", pre=pre, threads=th, post=[["child", "ref", 1], ["follow", "ref", 1]] + ([["follow", "ref", 2]] if len(pre) > 1 else []),
                 budget=budget) for pre, th in rows]


def check_p19(c):
    design(c, procs=2, nodes=5, live=True)
    design(c, procs=3, nodes=5)
    if c.thorough:
        design(c, procs=2, nodes=6)
        design(c, procs=4, nodes=5)
    for d in ("split", "perSpan", "childOwn", "followOwn", "fixed"):
        design(c, nodes=4 if d == "split" else 5, defect=d, expect="is violated")
    scs = path_scenarios(c, 6 if c.thorough else 5, 6000 if c.thorough else 400)
    scs += fam_forest(c.rng, 400 if c.thorough else 60, 60)
    scs += fam_threads(4000 if c.thorough else 400)
    scs += [dict(mode="spans_stress", n=8, ops=40) for _ in range(20 if c.thorough else 5)]
    tr = c.drive("trace_driver", scs, shards=8, timeout=600)
    c.cov["schedules_run"] = sum({t["sid"]: t.get("runs", 0) for t in tr}.values())
    c.explain("SpanTrace", tr, "P19.unexplained", scenarios=scs, what="span scenario")


# ------------------------------------------------------------------------------------------------ P20: contexts
NAMES = ["k", "sofaCallerApp", "a.b", "", "penAttrs", "x y", "\u4e2d", "K", "rpc_trace_context.x", "baggage", "prefix", "expand", "kwargs", "cls", "items", "__class__x", "_baggage", "sofaRpcIdX"]
VALUES = ["v", "", "a=b&c=d", "\u4e2d\u6587\U0001f600", "1.2.3", "0", "x" * 30, " lead", "line\nbreak", "rpc_trace_context.y"]
OTHERS = ["service", "sofa_head_target_service", "rpc_trace_context", "Rpc_trace_context.a", "xrpc_trace_context.sofaRpcId", "pc_trace_context.sofaRpcId", "",
          "sofaTraceId", "sofaRpcId", "rpc_trace_contextXsofaTraceId", "trace_context.k"]
IDS_OK = ["1", "0", "1.1", "0.1.2.3", "10.20.30", "1.2147483647", "99999999999.1", "1." * 40 + "7"]
IDS_ODD = ["01", "1.007", "+1", " 1", "1_0", "-1", "a.1", "1.x.2", ".1", "1..2", "\u0661", "1.-2"]
IDS_BAD = ["", "x", "1.x", "1.", ".", "1.2.", "1,2", "1.2a", "0x1", "1.1e3", "None", "\u4e2d", "1. .", "1.1.5.", "1.2-3"]
TRACES = ["0123456789abcdef", "t", "", "\u4e2d", "a b.c", "7f0000011527216040123100110", "x" * 60]


def fam_ctx(rng, n):
    out = []
    for tid in TRACES:
        for i in IDS_OK:
            out.append([["ctx", tid, i, []], ["inject", "text", []], ["derive", "child", "ref"], ["inject", "text", []]])
    for nm in NAMES:
        for k, v in enumerate(VALUES):
            if k % 3 == len(nm) % 3 or nm in ("prefix", "expand", "k"):
                out.append([["ctx", "tr", "1.2", [[nm, v]]], ["inject", "text", [["service", "s"]]], ["derive", "follow", "direct"], ["inject", "text", []],
                            ["header", "svc", "meth", "app", []]])
    for i in IDS_OK + IDS_ODD + IDS_BAD:
        car = [["rpc_trace_context.sofaTraceId", "T"], ["rpc_trace_context.sofaRpcId", i], ["service", "x"]]
        out.append([["extract", "text", car], ["inject", "text", []], ["extract", "text", car[::-1], "other"]])
        out.append([["extract", "text", car + [["rpc_trace_context." + rng.choice(NAMES), rng.choice(VALUES)]]]])
    for nm in ("reference", "self"):
        out.append([["extract", "text", [["rpc_trace_context." + nm, "x"], ["rpc_trace_context.sofaTraceId", "T"], ["rpc_trace_context.sofaRpcId", "1"]]]])
    for f in ("binary", "http", "none", "word", "num"):
        out.append([["inject", f, []], ["inject", f, [["a", "b"], ["rpc_trace_context.k", "v"]]],
                    ["extract", f, [["rpc_trace_context.sofaTraceId", "T"], ["rpc_trace_context.sofaRpcId", "1.1"]]], ["extract", f, []],
                    ["extract", f, "none"], ["extract", f, [["rpc_trace_context.sofaRpcId", "bad"]]]])
    for x in ("seq", "num", "none"):
        out.append([["extract", "text", x]])
    for k in (20, 60, 140, 300, 1100):
        bag = [["k%d" % i, "v%d" % i] for i in range(k)]
        out.append([["ctx", "tr", "1.2", bag], ["inject", "text", [["service", "s"]]], ["derive", "follow", "direct"], ["inject", "text", []], ["header", "svc", "meth", "app", [["x", "1"]]],
                    ["extract", "text", [["rpc_trace_context." + a, b] for a, b in bag] + [["rpc_trace_context.sofaTraceId", "T"], ["rpc_trace_context.sofaRpcId", "1.4"]]]])
    out.append([["extract", "text", []], ["inject", "text", []], ["extract", "text", [["a", "b"]]], ["inject", "text", []]])
    out.append([["extract", "text", [["rpc_trace_context.sofaTraceId", "T"]]], ["inject", "text", []], ["extract", "text", [["rpc_trace_context.sofaRpcId", "3.4"]]]])
    for _ in range(n):
        steps = []
        for _ in range(rng.randint(2, 8)):
            ids = rng.choice(IDS_OK * 3 + IDS_ODD + IDS_BAD)
            bag = [[k, rng.choice(VALUES)] for k in rng.sample(NAMES, rng.randint(0, 5))]
            oth = [[k, rng.choice(VALUES + IDS_BAD)] for k in rng.sample(OTHERS, rng.randint(0, 5))]
            x = rng.random()
            if x < .3:
                steps.append(["ctx", rng.choice(TRACES), rng.choice(IDS_OK), bag])
            elif x < .6:
                pre = [["rpc_trace_context." + k, "old"] for k in rng.sample(NAMES + ["sofaRpcId", "sofaTraceId"], rng.randint(0, 3))]
                steps.append(["inject", rng.choice(["text"] * 6 + ["binary", "http"]), oth + pre] + rng.choice([[], ["other"]]))
            elif x < .85:
                car = oth + [["rpc_trace_context." + k, v] for k, v in bag] + [["rpc_trace_context.sofaTraceId", rng.choice(TRACES)], ["rpc_trace_context.sofaRpcId", ids]]
                rng.shuffle(car)
                steps.append(["extract", rng.choice(["text"] * 8 + ["binary"]), car] + rng.choice([[], ["other"]]))
            elif x < .92:
                steps.append(["derive", rng.choice(["child", "follow"]), "ref"])
            else:
                steps.append(["header", *random_call(rng)])
        out.append(steps)
    return [dict(mode="ctx_seq", steps=s) for s in out]


def random_call(rng):
    # the keys of extra headers which the call itself does not use
    extra = [[k, rng.choice(VALUES)] for k in rng.sample(["x", "y.z", "sofa_head_response_error", "trace", "rpc_trace", "\u4e2d", "generic"], rng.randint(0, 3))]
    return [rng.choice(["com.alipay.Svc:1.0", "i", "\u670d\u52a1", ""]), rng.choice(["m", "sayHello", "\u65b9"]), rng.choice(["", "app", "\u5e94"]), extra]


def fam_spans(rng, n):
    steps = []
    tagsets = [[], [["a", "b"]], [["n", 5], ["f", 1.5], ["none", None], ["t", True], ["", "e"]], [["a", ""], ["z", "\u4e2d"]]]
    for h in ("new", "start", "child", "childsame", "follow", "followsame", "ref", "childof"):
        for tags in tagsets:
            for st in (None, 1.25, 1527216040.125, 0.5, 0.0, -1.5):
                if st is not None and h not in ("start", "ref", "childof"):
                    continue
                steps.append(["span", h, rng.choice(["op", "", "\u540d", "a.b"]) if h in ("new", "start", "ref", "childof") else "named", [t for t in tags if t[0] or h in ("start", "ref")], st])
    return [dict(mode="ctx_seq", steps=steps[i:i + 10]) for i in range(0, len(steps), 10)]


def chain(c, hops, defect="none", expect=None):
    c.mc("Chain", "\n".join(["SPECIFICATION Spec", "CONSTANTS", " Hops = %d" % hops, ' Defect = "%s"' % defect, "CHECK_DEADLOCK FALSE", "INVARIANTS Clean Kept Bounded"]) + "\n",
         name="Chain %d hops%s" % (hops, "" if defect == "none" else "/" + defect), expect_violation=expect, workers=8)


def check_p20(c):
    chain(c, 4 if c.thorough else 3)
    for d in ("noPrefix", "dropEmpty", "keepOld", "anywhere", "leak", "stripAll", "lastPart"):
        chain(c, 3, d, "is violated")
    scs = fam_ctx(c.rng, 6000 if c.thorough else 600) + fam_spans(c.rng, 1)
    tr = c.drive("trace_driver", scs, shards=8, timeout=600)
    c.validate("CtxTrace", tr, scenarios=scs, what="context scenario")
    import e2e
    scs = e2e.fam_calls(c.rng)
    if c.thorough:
        scs += e2e.fam_mix(c.rng, 200)
    e2e.run_traces(c, scs)


# ------------------------------------------------------------------------------------------------ P21: ids
def id_model(c, procs=2, mod=5, cycle=3, pertick=3, ticks=2, n=12, defect="none", expect=None):
    text = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " Procs = {%s}" % ",".join(map(str, range(1, procs + 1))), " Mod = %d" % mod, " Cycle = %d" % cycle,
                      " PerTick = %d" % pertick, " Ticks = %d" % ticks, " NDraws = %d" % n, ' Defect = "%s"' % defect, "CHECK_DEADLOCK FALSE", "INVARIANT Right"]) + "\n"
    c.mc("Ids", text, name="Ids p%d mod%d cycle%d%s" % (procs, mod, cycle, "" if defect == "none" else "/" + defect), expect_violation=expect, workers=8)


TOP = 0x7fffffff


def check_p21(c):
    id_model(c)
    id_model(c, procs=3, mod=4, n=9)
    if c.thorough:
        id_model(c, procs=3, mod=8, cycle=5, pertick=5, ticks=3, n=20)
    for d, kw in (("split", {}), ("wrapToOne", {}), ("wide", {}), ("none", dict(pertick=4))):
        id_model(c, defect=d, expect="is violated", **kw)
    kinds = ["two", "one", "hb", "raw"]
    scs = [dict(mode="ids_seq", steps=[["forward", TOP - 3], ["draw", kinds, 12]])]
    if c.thorough:      # once around
        scs.append(dict(mode="ids_seq", steps=[["forward", TOP - 2], ["draw", kinds, 8], ["forward", TOP - 2], ["draw", kinds, 8]]))
    scs.append(dict(mode="ids_seq", steps=[["draw", kinds, 20], ["memory", 30000000 if c.thorough else 4000000], ["draw", ["two"], 30], ["draw", ["hb"], 30], ["draw", ["one"], 10]]))
    b = 1000 if c.thorough else 200
    for th in ([["raw"], ["raw"]], [["two", "two"], ["one", "hb"]], [["two"], ["one"], ["hb"], ["raw"]], [["hb", "hb"], ["two"], ["two"]]):
        scs.append(dict(mode="ids_threads", threads=th, budget=b, ids=True))
    scs += [dict(mode="ids_stress", n=8, ops=60) for _ in range(16 if c.thorough else 4)]
    for i in range(8 if c.thorough else 2):
        off = c.rng.randrange(10 ** 6)
        scs += [dict(mode="trace_ids", how="burst", n=7999, ticks=1, off=off), dict(mode="trace_ids", how="burst", n=7999, ticks=2, off=off),
                dict(mode="trace_ids", how="burst", n=1300, ticks=7, off=off),
                dict(mode="trace_ids", how="threads", n=7992, off=off), dict(mode="trace_ids", how="fork", n=600, off=off)]
    tr = c.drive("trace_driver", scs, shards=8, timeout=800)
    c.explain("IdTrace", tr, "P21.unexplained", scenarios=scs, what="id scenario")


CHECKS = dict(P19=check_p19, P20=check_p20, P21=check_p21)
