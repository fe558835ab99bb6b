"""P18: the pool manager and its container, decided by spec/LruAbs.tla (sequential) through LruTrace.tla (linearisation)."""
from common import *


def design(c, procs=2, keys=3, maxp=2, nops=4, dels=True, defect="none", expect=None, live=False, emit=False):
    text = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " Procs = {%s}" % ",".join(map(str, range(1, procs + 1))),
                      " AllKeys = {%s}" % ",".join(map(str, range(1, keys + 1))), " MaxPools = %d" % maxp, " NOps = %d" % nops,
                      " Dels = %s" % str(dels).upper(), " Emit = %s" % str(emit).upper(), ' Defect = "%s"' % defect,
                      "CHECK_DEADLOCK FALSE", "VIEW " + ("gview" if emit else "view")]
                     + (["ACTION_CONSTRAINT EmitEdge", "CONSTRAINT EmitInit"] if emit else ["INVARIANTS Right Same Bounded Closed"])
                     + (["PROPERTY Ends"] if live else [])) + "\n"
    name = "Lru p%d k%d max%d ops%d%s" % (procs, keys, maxp, nops, "" if defect == "none" else "/" + defect)
    if emit:
        return c.graph("Lru", text, name=name + "/graph", heap="8g")
    return c.mc("Lru", text, name=name, expect_violation=expect, workers=8, heap="8g")


def path_scenarios(c, keys, maxp, nops, limit):
    g = design(c, procs=1, keys=keys, maxp=maxp, nops=nops, emit=True)
    out, seen = [], set()
    for i, p in enumerate(g.cover(c.rng, maxlen=200, limit=limit)):
        ops = [[1, a, k] if a != "clear" else [1, a] for a, _, k in p if a in ("pool", "del", "clear")]
        k = json.dumps(ops)
        if k in seen or not ops:
            continue
        seen.add(k)
        tail = [[1, "keys"]] + [[1, "pool", x] for x in range(1, keys + 1)]
        out.append(dict(mode="seq", target="manager", cfg=dict(max=maxp), steps=ops + tail))
        ops = [[p, "set" if a == "pool" and (i + j) % 3 else a, *r] if a != "pool" else
               [p, "get" if (i + j) % 4 == 0 else "set", *r] for j, (p, a, *r) in enumerate(ops)]
        out.append(dict(mode="seq", target="container", cfg=dict(max=maxp), steps=ops + [[1, "keys"], [1, "len"]]))
    c.cov["graph_edges"] = c.cov.get("graph_edges", 0) + g.total
    c.cov["graph_edges_covered_by_scenarios"] = c.cov.get("graph_edges_covered_by_scenarios", 0) + g.covered
    return out


HOWS = [None, "value", "name", "attr", "kbd", "abort", "gen", "stop", "rt", "empty", "closed", "sys"]


def fam_random(rng, n, length=50):
    out = []
    for i in range(n):
        mx = rng.choice([1, 2, 3, 5, 10])
        nk = mx + rng.choice([0, 1, 2])
        man = rng.random() < .6
        steps = []
        for _ in range(length):
            k = rng.randint(1, nk)
            x = rng.random()
            if man:
                if x < .45:
                    steps.append([1, "pool", k])
                elif x < .6:
                    steps.append([1, "enter", k])
                elif x < .75:
                    steps.append([1, "exit", rng.choice(HOWS)])
                elif x < .8:
                    steps.append([1, "fail"])
                    steps.append([1, rng.choice(["pool", "enter"]), k])
                elif x < .86:
                    steps.append([1, rng.choice(["del", "get"]), k])
                elif x < .89:
                    steps.append([1, "set", k])
                elif x < .92:
                    steps.append([1, rng.choice(["len", "keys"])])
                elif x < .94:
                    steps.append([1, "clear"] + rng.choice([[], ["with"], ["raise"]]))
                else:
                    steps.append([1, "pool", k])
            else:
                op = rng.choice(["set"] * 4 + ["get"] * 3 + ["del", "len", "keys"] + (["clear"] if rng.random() < .3 else []))
                steps.append([1, op] + ([k] if op in ("set", "get", "del") else []))
        out.append(dict(mode="seq", target="manager" if man else "container", cfg=dict(max=mx), steps=steps))
    return out


def fam_large(rng, thorough):
    """containers of hundreds, thousands of operations"""
    out = []
    for man, mx in ((True, 60), (False, 60), (True, 130), (False, 130)) if not thorough else ((True, 60), (False, 250), (True, 130), (False, 1025), (True, 250)):
        pool, nk = "pool" if man else "set", min(mx + 10, 250)
        steps = [[1, pool, k] for k in range(1, nk + 1)] + [[1, "len"], [1, "keys"]]
        for _ in range(400 if not thorough else 2000):
            steps.append([1, rng.choice([pool, pool, "get", "get", "del"]), rng.randint(1, nk)])
        steps += [[1, "keys"], [1, "clear"], [1, "len"], [1, pool, 1], [1, "keys"]]
        out.append(dict(mode="seq", target="manager" if man else "container", cfg=dict(max=mx), steps=steps))
        # one of them is in use all the time
        out.append(dict(mode="seq", target="manager" if man else "container", cfg=dict(max=3),
                        steps=[[1, pool, k] for i in range(150) for k in (1, 2 + i % 5)] + [[1, "keys"]]))
    return out


def fam_scopes():
    out = []
    for how in HOWS:
        out.append([[1, "enter", 1], [1, "exit", how], [1, "enter", 1], [1, "exit", how], [1, "pool", 1]])
        # its pool is evicted, deleted, cleared meanwhile
        for mid in ([[1, "pool", 2], [1, "pool", 3]], [[1, "del", 1]], [[1, "clear"]], [[1, "set", 1]]):
            out.append([[1, "enter", 1], *mid, [1, "exit", how], [1, "pool", 1], [1, "enter", 2], [1, "exit", how]])
        # nested scopes of one and of several keys
        out.append([[1, "enter", 1], [1, "enter", 1], [1, "exit", how], [1, "enter", 2], [1, "exit", how], [1, "exit", how], [1, "enter", 1], [1, "exit"]])
    for pre in ([], [[1, "pool", 1]]):
        out.append(pre + [[1, "fail"], [1, "enter", 2], [1, "enter", 2], [1, "exit"], [1, "pool", 2], [1, "pool", 1]])
    res = [dict(mode="seq", target="manager", cfg=dict(max=2), steps=s) for s in out]
    # the pool has nothing to lend
    for n in (1, 2):
        res.append(dict(mode="seq", target="manager", cfg=dict(max=2), kw=dict(max_connections=n, initial_connections=0, min_free_connections=0, max_free_connections=1),
                        steps=[[1, "enter", 1]] * (n + 1) + [[1, "exit"]] * n + [[1, "enter", 1], [1, "exit", "value"], [1, "pool", 1]]))
    d = [[1, "pool", k] for k in range(1, 11)] + [[1, "pool", 1], [1, "pool", 11], [1, "keys"], [1, "len"], [1, "pool", 1], [1, "pool", 2], [1, "keys"], [1, "clear", "with"], [1, "pool", 1]]
    res.append(dict(mode="seq", target="manager", default=True, cfg=dict(max=10), steps=d))
    return res


def fam_threads(budget):
    P, S, G, D = (lambda k: ["pool", k]), (lambda k: ["set", k]), (lambda k: ["get", k]), (lambda k: ["del", k])
    C = ["clear"]
    sc = lambda k, how=None: [["enter", k], ["exit", how]]
    two = [
        (1, [], [[P(1)], [P(1)]]),
        (2, [], [[P(1), P(1)], [P(1), P(2)]]),
        (1, [], [[P(1)], [P(2)]]),
        (2, [1, 2], [[P(1)], [P(3)]]),
        (2, [1, 2], [[P(3)], [P(4)]]),
        (2, [1, 2], [[P(3)], [P(3)]]),
        (2, [1], [[P(1)], [D(1)]]),
        (2, [1], [[P(1)], [C]]),
        (2, [1, 2], [[P(3)], [C]]),
        (2, [1, 2], [[P(3)], [D(1)]]),
        (2, [1], [[D(1)], [D(1)]]),
        (2, [1, 2], [[C], [C]]),
        (2, [1, 2], [[C], [D(2)], [P(1)]]),
        (1, [], [[P(1)], [P(1)], [P(1)]]),
        (1, [], [[P(1)], [P(2)], [P(1)]]),
        (2, [1], [sc(1), [P(2), P(3)]]),
        (2, [1], [sc(1, "value"), [D(1), P(1)]]),
        (1, [], [sc(1), sc(1, "rt")]),
        (2, [1, 2], [[["keys"], ["len"]], [P(3), D(3)]]),
        (2, [1, 2], [[G(1), G(2)], [P(3)]]),
        (2, [1], [[S(1)], [P(1)]]),
        (2, [1, 2], [[S(1)], [D(1)]]),
    ]
    cont = [
        (2, [1, 2], [[S(3)], [G(1)]]),
        (2, [1, 2], [[S(3)], [S(4)]]),
        (1, [1], [[S(1)], [S(1)]]),
        (2, [1, 2], [[D(1)], [S(1)]]),
        (2, [1, 2], [[C], [S(3)]]),
        (2, [1, 2], [[C], [G(1), ["len"]]]),
        (2, [1], [[D(1)], [D(1)], [S(1)]]),
        (2, [1, 2], [[["keys"]], [S(3)], [D(2)]]),
    ]
    out = []
    for tgt, rows, op in (("manager", two, "pool"), ("container", cont, "set")):
        for mx, pre, ths in rows:
            ks = sorted({st[1] for th in ths for st in th if len(st) > 1 and isinstance(st[1], int)} | set(pre))
            post = [[1, "keys"], [1, "len"]] + [[1, "get", k] for k in ks]
            out.append(dict(mode="threads", target=tgt, cfg=dict(max=mx), pre=[[1, op, k] for k in pre], threads=ths, post=post, budget=budget))
    return out


def scenarios(c):
    lim = 3000 if c.thorough else 150
    scs = path_scenarios(c, 3, 2, 5, lim) + path_scenarios(c, 2, 1, 5, lim)
    if c.thorough:
        scs += path_scenarios(c, 4, 3, 6, lim)
    scs += fam_random(c.rng, 2500 if c.thorough else 250) + fam_scopes() + fam_large(c.rng, c.thorough)
    return scs + fam_threads(6000 if c.thorough else 500)


def check(c):
    design(c, live=True)
    design(c, procs=3, keys=3, maxp=1, nops=4)
    design(c, procs=2, keys=3, maxp=1, nops=5)
    if c.thorough:
        design(c, procs=3, keys=4, maxp=2, nops=5)
        design(c, procs=2, keys=4, maxp=3, nops=6)
    for d, kw in (("noLock", {}), ("noTouch", dict(nops=5)), ("evictNew", {}), ("shutTwice", {})):
        design(c, defect=d, expect="is violated", **kw)
    scs = scenarios(c)
    tr = c.drive("lru_driver", scs, shards=8, timeout=800 if c.thorough else 300)
    c.cov["schedules_run"] = sum({t["sid"]: t.get("runs", 0) for t in tr}.values())
    c.explain("LruTrace", tr, "P18.unexplained", scenarios=scs, what="manager scenario")


CHECKS = dict(P18=check)
