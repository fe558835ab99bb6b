"""P16, P17: the connection pool, decided by spec/PoolAbs.tla (abstract) and Pool.tla (design, all interleavings)."""
from common import *

LEAK = {"P16.leak": "refused-for-reserve"}


def design(c, cfg, procs=2, initial=1, nconn=4, nops=3, deaths=0, fails=0, closers=(), defect="none", expect=None, live=False,
           emit=False):
    f = os.path.join(c.work, "pool-model.json")
    json.dump(dict(procs=procs, cfg=cfg, closers=list(closers)), open(f, "w"))
    text = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " Procs <- ProcsV", " Cfg <- CfgV", " Closers <- ClosersV",
                      " Initial = %d" % initial, " NConn = %d" % nconn, " NOps = %d" % nops, " Deaths = %d" % deaths,
                      " Fails = %d" % fails, " Emit = %s" % ("TRUE" if emit else "FALSE"), ' Defect = "%s"' % defect,
                      "CHECK_DEADLOCK FALSE", "VIEW " + ("gview" if emit else "view")]
                     + ([] if emit else ["INVARIANTS %s %s" % ("Clean" if cfg[2] else "Strict",
                                                               "Counted Bounded Distinct" if defect == "none" else "")])
                     + (["ACTION_CONSTRAINT EmitEdge", "CONSTRAINT EmitInit"] if emit else [])
                     + (["PROPERTY Ends"] if live else [])) + "\n"
    name = "Pool max%d/free%d/reserve%d p%d i%d c%d o%d d%d f%d close%s" % (*cfg, procs, initial, nconn, nops, deaths, fails, list(closers))
    kw = dict(name=name + ("" if defect == "none" else "/" + defect), env=dict(MODEL=f), heap="8g")
    if emit:
        kw["name"] += "/graph"
        return c.graph("MCPool", text, **kw)
    return c.mc("MCPool", text, expect_violation=expect, workers=8, **kw)


def models(c):
    design(c, [2, 1, 0], nops=4)
    design(c, [2, 1, 1], nops=4)
    design(c, [2, 1, 0], deaths=1, fails=1)
    design(c, [2, 2, 1], deaths=1, fails=1, nconn=5, live=c.thorough)
    design(c, [2, 1, 1], deaths=1, closers=(2,))
    design(c, [3, 2, 0], procs=3, initial=2)
    if c.thorough:
        design(c, [2, 1, 1], deaths=1, fails=1, nops=4, nconn=5, live=True)
        design(c, [3, 2, 1], procs=3, nops=4, nconn=5)
        design(c, [2, 1, 0], procs=3, nops=3, deaths=1, closers=(3,))
        design(c, [3, 1, 0], procs=3, nops=4, deaths=1, fails=1, nconn=5)
        design(c, [2, 1, 1], procs=2, nops=3, deaths=1, fails=1, closers=(1, 2), nconn=5)


MUTANTS = dict(noLock=dict(cfg=[2, 1, 0], nops=4), peek=dict(cfg=[2, 1, 0]), noDec=dict(cfg=[3, 1, 0], nops=4),
               keepSurplus=dict(cfg=[3, 1, 0], nops=4), dropKeep=dict(cfg=[2, 1, 0], deaths=1), noCheck=dict(cfg=[2, 1, 0], deaths=1),
               countFail=dict(cfg=[2, 1, 0], fails=1), lose=dict(cfg=[2, 1, 1], fails=1), closeLazy=dict(cfg=[2, 1, 0], closers=(2,)))


def mutants(c, names):
    for n in names:
        design(c, defect=n, expect="is violated", **MUTANTS[n])


def path_scenarios(c, cfg, limit, **kw):
    """every edge of the sequential design as operations of one borrower on the real pool"""
    g = design(c, cfg, procs=1, emit=True, **kw)
    out, seen = [], set()
    for i, p in enumerate(g.cover(c.rng, maxlen=120, limit=limit)):
        steps = []
        for act, _, x in p:
            if act == "get":
                steps.append([1, "get"])
            elif act == "put":
                steps.append([1, "put", x])
            elif act == "close":
                steps.append([1, "close"] + (["with"] if i % 3 == 2 else []))
            elif act == "die":
                steps.append([1, "die", x, ["fin", "rst", "data"][(i + x) % 3]])
            elif act == "fail":
                j = max(j for j, s in enumerate(steps) if s[1] == "get")
                steps.insert(j, [1, "fail"])
        k = json.dumps(steps)
        if k not in seen:
            seen.add(k)
            out.append(dict(mode="seq", cfg=dict(initial=kw.get("initial", 1), max=cfg[0], maxfree=cfg[1], minfree=cfg[2]), steps=steps))
    c.cov["graph_edges"] = c.cov.get("graph_edges", 0) + g.total
    c.cov["graph_edges_covered_by_scenarios"] = c.cov.get("graph_edges_covered_by_scenarios", 0) + g.covered
    return out


def fam_random(rng, n, length=60):
    """long random histories over many configurations"""
    out = []
    for i in range(n):
        mx = rng.choice([1, 2, 3, 5, 20])
        mf = rng.randint(1, min(mx, 5))
        mn = rng.choice([0, 0, 1, rng.randint(0, mf)])
        cfg = dict(max=mx, maxfree=mf, minfree=mn, initial=rng.randint(0, mf))
        if rng.random() < .15:
            cfg["block"] = True
        steps = []
        for j in range(length):
            x = rng.random()
            p = rng.choice([1, 1, 2, 3])
            if x < .45:
                steps.append([p, "get", 0.01] if cfg.get("block") else [p, "get"])
            elif x < .8:
                steps.append([p, "put", rng.randint(1, 20)])
            elif x < .9:
                steps.append([p, "die", rng.randint(1, 15), rng.choice(["fin", "rst", "data"])])
            elif x < .96:
                steps.append([p, "fail"])
            elif j > length / 2:
                steps.append([p, "close"] + rng.choice([[], ["with"]]))
        out.append(dict(mode="seq", cfg=cfg, steps=steps))
    return out


def fam_defaults():
    """the pool as everybody uses it: default limits, up to and beyond the maximum"""
    d = dict(max=20, maxfree=5, minfree=1, initial=1)
    a = [[1, "get"]] * 19 + [[1, "put"]] * 19 + [[1, "get"]] * 12 + [[1, "put"]] * 3 + [[1, "die", 3, "fin"], [1, "die", 20, "data"]] \
        + [[1, "get"]] * 6 + [[1, "put"]] * 20
    b = [[1, "get"]] * 23 + [[1, "put"]] * 23 + [[1, "get"]] * 3 + [[1, "close"], [1, "get"], [1, "put"], [1, "put"], [1, "close"], [1, "get"]]
    nores = dict(max=3, maxfree=2, minfree=0, initial=0)
    e = ([[1, "get"]] * 4 + [[1, "put"]] * 3) * 6
    return [dict(mode="seq", cfg=d, steps=a), dict(mode="seq", cfg=d, steps=b), dict(mode="seq", cfg=nores, steps=e),
            dict(mode="seq", cfg=dict(max=4, maxfree=4, minfree=0, initial=4),
                 steps=[[1, "die", i, "fin"] for i in (1, 2, 3, 4)] + [[1, "get"]] * 5 + [[1, "put"]] * 4 + [[1, "get"]] * 4)]


def fam_life(rng, thorough):
    """a long life: a connection borrowed again and again, pools of hundreds, hundreds of deaths"""
    d = dict(max=20, maxfree=5, minfree=1, initial=1)
    n = 1100
    out = [dict(mode="seq", cfg=d, steps=[[1, "get"], [1, "put", 1]] * n + [[1, "get"]] * 3),
           dict(mode="seq", cfg=dict(max=2, maxfree=1, minfree=0, initial=0), scope=2, steps=[[1, "get"], [1, "put", 1]] * 600),
           dict(mode="seq", cfg=d, steps=[[1, "get"], [1, "die", 1, "fin"], [1, "put", 1]] * 300 + [[1, "get"]] * 3),
           dict(mode="seq", cfg=d, steps=[[1, "fail"], [1, "get"], [1, "get"], [1, "put", 1]] * 150 + [[1, "get"]] * 22)]
    for mx, mf in ((150, 120), (300, 40)) if thorough else ((120, 90),):
        out.append(dict(mode="seq", cfg=dict(max=mx, maxfree=mf, minfree=0, initial=2), steps=[[1, "get"]] * (mx + 2) + [[1, "put", 1]] * (mx + 2) + [[1, "get"]] * mf
                        + [[1, "put", 1]] * mf + [[1, "close"], [1, "get"]]))
    return out


def fam_threads(budget, thorough):
    """two or three threads; every single preemption between source lines, then pairs, random and priority schedules"""
    g, p, cl = ["get"], ["put"], ["close"]
    C = lambda mx, mf, mn, i, **kw: dict(max=mx, maxfree=mf, minfree=mn, initial=i, **kw)
    two = [
        (C(1, 1, 0, 0), [], [[g, p], [g, p]]),
        (C(2, 1, 0, 1), [[1, "get"], [2, "get"]], [[p, g], [p, g]]),
        (C(2, 2, 1, 1), [], [[g, p], [g]]),
        (C(3, 1, 0, 1), [[1, "get"], [2, "get"]], [[p], [p]]),
        (C(3, 1, 1, 1), [[1, "get"]], [[p, g], [g]]),
        (C(2, 2, 0, 2), [], [[g, ["die", "mine"], p], [g]]),
        (C(2, 2, 0, 2), [[1, "die", 2, "fin"]], [[g], [g]]),
        (C(1, 1, 0, 1), [[1, "die", 1, "fin"]], [[g, p], [g]]),
        (C(2, 1, 0, 0), [], [[g], [g], [g]]),
        (C(2, 2, 0, 2), [], [[g, p], [g, p], [g]]),
    ]
    shut = [
        (C(3, 2, 0, 2), [], [[g], [cl]]),
        (C(3, 2, 0, 1), [[1, "get"]], [[p], [cl]]),
        (C(3, 2, 1, 2), [[1, "get"]], [[p, g], [cl, g]]),
        (C(2, 2, 0, 2), [], [[cl], [cl], [g]]),
    ]
    fail = [(C(1, 1, 0, 0), [], [[g], [g]]), (C(2, 1, 1, 1), [], [[g], [g]])]
    blk = [(C(1, 1, 0, 1, block=True), [[1, "get"]], [[p], [["get", 1.0]]])]
    out = []
    post = [[1, "get"], [1, "put"], [2, "put"]]
    for cfg, pre, ths in two + shut:
        out.append(dict(mode="threads", cfg=cfg, pre=pre, threads=ths, post=post, budget=budget))
    for cfg, pre, ths in fail:
        out.append(dict(mode="threads", cfg=cfg, pre=pre, threads=ths, post=post, fails=1, budget=budget))
    for cfg, pre, ths in blk:
        out.append(dict(mode="threads", cfg=cfg, pre=pre, threads=ths, budget=min(budget, 60)))
    return out


def fam_stress(n):
    return [dict(mode="stress", cfg=dict(max=m, maxfree=f, minfree=0, initial=1, loose=True), n=6, ops=150) for m, f in ((4, 2), (6, 5), (200, 3), (3, 1))[:n]]


def fam_scopes(rng, n):
    """the same histories by way of borrowing scopes, which end in every way a block can end"""
    d = dict(max=3, maxfree=2, minfree=0, initial=0)
    out = [dict(mode="seq", cfg=d, scope=i + 1, steps=[[1, "get"], [2, "get"], [1, "put"], [1, "get"], [2, "put"], [3, "get"], [2, "get"], [2, "get"],
                                                  [3, "put"], [1, "put"], [2, "put"]] * 8) for i in range(6)]
    for i, s in enumerate(fam_random(rng, n)):
        if not s["cfg"].get("block"):
            out.append(dict(s, scope=1 + i % 60))
    for i, s in enumerate(fam_defaults()):
        out.append(dict(s, scope=20 + i))
    for i, s in enumerate(fam_threads(60, False)):
        if not s["cfg"].get("block"):
            out.append(dict(s, scope=3 + i))
    return out


def scenarios(c):
    lim = 4000 if c.thorough else 150
    scs = path_scenarios(c, [2, 1, 0], lim, nops=5, deaths=1, fails=1, closers=(1,), nconn=6)
    scs += path_scenarios(c, [3, 2, 1], lim, nops=5, deaths=1, fails=1, initial=2, nconn=7)
    scs += fam_random(c.rng, 1500 if c.thorough else 150) + fam_defaults()
    scs += fam_threads(12000 if c.thorough else 1500, c.thorough)
    scs += fam_scopes(c.rng, 600 if c.thorough else 60)
    scs += fam_stress(4) + fam_life(c.rng, c.thorough)
    return scs


def check(c, names):
    models(c)
    mutants(c, names)
    scs = scenarios(c)
    tr = c.drive("pool_driver", scs, shards=8, timeout=900 if c.thorough else 300)
    c.cov["schedules_run"] = sum({t["sid"]: t.get("runs", 0) for t in tr}.values())
    c.validate("PoolTrace", tr, scenarios=scs, what="pool scenario", keys=LEAK,
               cfg="SPECIFICATION TraceSpec\nVIEW View\nCHECK_DEADLOCK FALSE\n")


def check_p16(c):
    check(c, ["noLock", "peek", "noDec", "keepSurplus", "countFail", "lose"])


def check_p17(c):
    check(c, ["dropKeep", "noCheck", "closeLazy"])


CHECKS = dict(P16=check_p16, P17=check_p17)
