"""P22, P23 (and the publication part of P05): spec/Mesh.tla, MeshAbs.tla, Routing.tla."""
from common import *

BAD = ["500", "404", "201", "503", "202", "400", "false", "falsebare", "missing", "null", "nonjson", "list", "empty", "str",
       "one", "strfalse", "jnull", "error", "reset", "hang up"]
TV = "SPECIFICATION TraceSpec\nVIEW View\nCHECK_DEADLOCK FALSE\n"
APP = "configs/application"


def app_data(a, kw):
    names = ["appName", "dataCenter", "zone", "registryEndPoint", "accessKey", "secretKey", "antShareCloud"]
    d = dict(zip(names, a))
    d.update(kw)
    return {k: v for k, v in d.items() if v}


def base_data(a, kw):
    """application data of a client or listener constructor"""
    tr = dict(data_center="dataCenter", zone="zone", registry_end_point="registryEndPoint", is_antsharecloud="antShareCloud",
              access_key="accessKey", secret_key="secretKey")
    d = {"appName": a[0]}
    d.update({tr[k]: v for k, v in kw.items()})
    return {k: v for k, v in d.items() if v}


def meta(app="app", **kw):
    return dict(dict(protocol="1", version="4.0", serializeType="protobuf", appName=app), **kw)


def pub(svc, app="app", port="@", **kw):
    return dict(dict(serviceName=svc, providerMetaInfo=meta(app), port=port, protocolType="DEFAULT", onlyPublishInCloud=False), **kw)


class M:
    def __init__(self, tag):
        self.s = dict(do="mesh", objs={}, phases=[], plan={})
        self.n = 0
        self.tag = tag

    def mesh(self, cl, a=None, kw=None):
        a, kw = a or ["app%s%s" % (self.tag, cl)], kw or {}
        self.s["objs"][cl] = dict(what="mesh", a=a, kw=kw)
        self.data = getattr(self, "data", {})
        self.data[cl] = app_data(a, kw)
        return cl

    def obj(self, what, cl, infs=(), kw=None):
        a, kw = ["app%s%s" % (self.tag, cl)], kw or {}
        self.s["objs"][cl] = dict(what=what, a=a, kw=kw, infs=list(infs))
        self.data = getattr(self, "data", {})
        self.data[cl] = base_data(a, kw)
        return cl

    def plan(self, path, key, answers):
        self.s["plan"].setdefault(path + "|" + key, []).extend([x if isinstance(x, list) else [x, 0] for x in answers])

    def op(self, k, cl, svc=None, want=None, **kw):
        self.n += 1
        if k in ("startup", "ctor"):
            want = [[APP, self.data[cl]]]
        elif k in ("subscribe", "unsubscribe", "unpublish"):
            want = [["services/" + k, dict(serviceName=svc)]]
        return dict(op=self.n, k=k, cl=cl, svc=svc, want=want, **kw)

    def do(self, *ops):
        self.s["phases"].append(list(ops))


def mesh_paths(c, ops, threads, limit):
    f = os.path.join(c.work, "m.json")
    json.dump(dict(ops=ops, threads=threads), open(f, "w"))
    cfg = lambda emit, defect: "\n".join([
        "SPECIFICATION Spec", "CONSTANTS", " Ops <- OpsV", " Thread <- ThreadV", " Emit = " + emit, ' Defect = "%s"' % defect,
        "INVARIANTS Clean OneRegistration" if emit == "FALSE" else "", "PROPERTY AllEnd" if emit == "FALSE" else "",
        "VIEW " + ("view" if emit == "FALSE" else "gview"),
        "ACTION_CONSTRAINT EmitEdge\nCONSTRAINT EmitInit" if emit == "TRUE" else "", "CHECK_DEADLOCK FALSE"]) + "\n"
    c.mc("MCMesh", cfg("FALSE", "none"), name="Mesh%s%s" % (ops, threads), env=dict(MODEL=f))
    if limit == 0:
        return []
    g = c.graph("MCMesh", cfg("TRUE", "none"), name="Mesh%s%s/graph" % (ops, threads), env=dict(MODEL=f))
    return g.cover(c.rng, maxlen=60, limit=limit)


def mutant(c, ops, threads, defect):
    f = os.path.join(c.work, "m.json")
    json.dump(dict(ops=ops, threads=threads), open(f, "w"))
    c.mc("MCMesh", "SPECIFICATION Spec\nCONSTANTS\n Ops <- OpsV\n Thread <- ThreadV\n Emit = FALSE\n Defect = \"%s\"\n"
         "INVARIANTS Clean OneRegistration\nVIEW view\nCHECK_DEADLOCK FALSE\n" % defect, name="Mesh/" + defect,
         env=dict(MODEL=f), expect_violation="is violated")


def path_to_scenario(rng, ops, threads, path, tag):
    """the answers of a design path, in its order; the operations of different threads really run concurrently"""
    m = M(tag)
    cl = m.mesh("c1")
    app = m.data[cl]["appName"]
    chains = {}
    good = {o + 1: [] for o in range(len(ops))}
    startans = []
    for a, o in path:
        if a in ("Good", "Bad"):
            x = rng.choice(["good", "goodx"]) if a == "Good" else rng.choice(BAD)
            (startans if ops[o - 1] == "startup" else good[o]).append([x, rng.choice([0, 5, 20])])
    called = [o for a, o in path if a == "Call"]
    for o in called:
        k = ops[o - 1]
        if k == "startup":
            chains.setdefault(threads[o - 1], []).append(m.op("startup", cl))
        else:
            kk = rng.choice(["subscribe", "unsubscribe", "unpublish", "publish"])
            svc = "svc%s-%d" % (tag, o)
            m.plan("services/" + kk, svc, good[o][:1] or ["good"])
            chains.setdefault(threads[o - 1], []).append(
                m.op(kk, cl, svc, want=[["services/publish", pub(svc, port="12200")]]))
    m.plan(APP, app, startans or ["good"])
    m.do(*[v for v in chains.values()]) if len(chains) > 1 else [m.do(o) for v in chains.values() for o in v]
    return m.s


def registration(c):
    rng = c.rng
    out = []
    # every answer kind for the registration, then success, then nothing more
    for i, b in enumerate(BAD):
        m = M("r%d" % i)
        cl = m.mesh("c")
        m.plan(APP, m.data[cl]["appName"], [b, b, "good", "good"])
        for _ in range(5):
            m.do(m.op("startup", cl))
        out.append(m.s)
    # settings; empty ones are left out
    sets = [(["a1"], {}), (["a2", "dc"], {}), (["a3", "", "z", None], {}), (["a4", None, None, "reg", "ak", "sk", True], {}),
            (["a5"], dict(zone="z", antShareCloud=True, accessKey="k", secretKey="")), (["a6", "dc", "z", "r", "a", "s", False], {}),
            (["a\u00e97"], dict(dataCenter="\u6570"))]
    for i, (a, kw) in enumerate(sets):
        m = M("s%d" % i)
        cl = m.mesh("c", a, kw)
        m.do(m.op("startup", cl))
        m.do(m.op("startup", cl))
        out.append(m.s)
    # many threads
    for i in range(30 if c.thorough else 10):
        m = M("t%d" % i)
        cl = m.mesh("c")
        nb = rng.choice([0, 1, 2, 5])
        m.plan(APP, m.data[cl]["appName"], [[rng.choice(BAD), rng.choice([0, 10, 30])] for _ in range(nb)] + [["good", 40], ["good", 0]])
        m.do(*[[m.op("startup", cl) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 5, 12]))])
        m.do(m.op("startup", cl))
        out.append(m.s)
    # unreachable, then reachable
    m = M("d")
    cl = m.mesh("c")
    m.s["phases"].append("down")
    for k in ("startup", "subscribe", "unsubscribe", "unpublish", "publish", "startup"):
        m.do(m.op(k, cl, "svc", want=[["services/publish", pub("svc", port="1")]]))
    m.s["phases"].append("up")
    for k in ("startup", "subscribe", "startup"):
        m.do(m.op(k, cl, "svc"))
    m.s["phases"].append("down")
    for k in ("startup", "subscribe"):
        m.do(m.op(k, cl, "svc"))
    m.s["phases"].append("up")
    out.append(m.s)
    # every operation with every answer; the same service again
    for k in ("subscribe", "unsubscribe", "unpublish", "publish"):
        for b in BAD + ["good", "goodx"]:
            m = M("o")
            cl = m.mesh("c")
            for n, x in (("x:1.0", b), ("y", "good"), ("x:1.0", "good"), ("x:1.0", b)):
                m.plan("services/" + k, n, [x])
            kw = rng.choice([{}, dict(protocolType="BOLT", onlyPublishInCloud=True)])
            for n in ("x:1.0", "y", "x:1.0", "x:1.0"):
                m.do(m.op(k, cl, n, want=[["services/publish", pub(n, app=rng.choice(["a", "b"]), port=rng.choice(["12200", "1"]), **kw)]],
                          set=sorted(kw)))
            out.append(m.s)
    return out


def listener_scenarios(c, n=None):
    rng = c.rng
    out = []
    kinds = [["aiol"], ["sockl"], ["aiol", "aiol"], ["aiol", "sockl"], ["sockl", "sockl"], ["sockl", "aiol", "aiol"]]
    for j in range(n or (60 if c.thorough else 24)):
        m = M("l%d" % j)
        names = ["i.A:1.0", "i.B", "C", "D:2.0@X"]
        cls = []
        for i, k in enumerate(kinds[j % len(kinds)]):
            infs = rng.sample(names, rng.choice([0, 1, 2, 3, 4]) if j >= len(kinds) else 2)
            kw = rng.choice([{}, dict(data_center="dc"), dict(zone="z", registry_end_point="r", is_antsharecloud=True,
                                                             access_key="a", secret_key="s")])
            cl = m.obj(k, "l%d" % i, infs, kw)
            start = "good" if rng.random() < .85 else rng.choice(BAD)
            m.plan(APP, m.data[cl]["appName"], [start])
            m.do(m.op("ctor", cl))
            cls.append((cl, infs, start))
        # interfaces occur on several listeners: answers are given per interface
        badinf = {i: rng.choice(BAD) for i in names if rng.random() < .2}
        for path in ("services/publish", "services/unpublish"):
            for i in names:
                m.plan(path, i, [badinf.get(i, "good")])
        for _ in range(rng.choice([1, 2])):
            for cl, infs, start in rng.sample(cls, len(cls)):
                app = m.data[cl]["appName"]
                ok = start == "good"
                m.do(m.op("lpublish", cl, want=[["services/publish", pub(i, app=app)] for i in infs] if ok else []))
                if rng.random() < .7:
                    m.do(m.op("lunpublish", cl, want=[["services/unpublish", dict(serviceName=i)] for i in infs] if ok else []))
        out.append(m.s)
    return out


def client_scenarios(c):
    """constructing a client registers its application and never raises"""
    out = []
    for i, (what, ans) in enumerate([(w, a) for w in ("aioc", "sockc") for a in ["good"] + BAD[::3]]):
        m = M("k%d" % i)
        cl = m.obj(what, "k", kw=[{}, dict(zone="z", data_center="dc")][i % 2])
        m.plan(APP, m.data[cl]["appName"], [ans])
        m.do(m.op("ctor", cl))
        out.append(m.s)
    m = M("kd")
    m.s["phases"].append("down")
    for what in ("aioc", "sockc", "aiol", "sockl"):
        m.do(m.op("ctor", m.obj(what, "k" + what)))
    m.s["phases"].append("up")
    out.append(m.s)
    return out


def many(c):
    """hundreds of services, and of requests in the life of a mesh client"""
    rng = c.rng
    out = []
    m = M("many")
    cl = m.mesh("c")
    m.do(m.op("startup", cl))
    for i in range(600 if c.thorough else 150):
        n, k = "i%d" % i, ["subscribe", "publish", "unsubscribe", "unpublish", "startup"][i % 5 if i > 120 else i % 2]
        if rng.random() < .05:
            m.plan("services/" + k, n, [rng.choice(BAD)])
        m.do(m.op(k, cl, n, want=[["services/publish", pub(n, port="7")]]))
    m.do(m.op("startup", cl))
    out.append(m.s)
    for what, n in (("aiol", 110), ("sockl", 40)):
        m = M("many" + what)
        infs = ["com.x.Service%d:1.0" % i for i in range(n)]
        cl = m.obj(what, "l", infs)
        app = m.data[cl]["appName"]
        m.do(m.op("ctor", cl))
        for _ in range(2):
            m.do(m.op("lpublish", cl, want=[["services/publish", pub(i, app=app)] for i in infs]))
        m.do(m.op("lunpublish", cl, want=[["services/unpublish", dict(serviceName=i)] for i in infs]))
        out.append(m.s)
    return out


def run_mesh(c, scs, clauses=None):
    tr = c.drive("mesh_driver", scs, timeout=300)
    return c.validate("MeshTrace", tr, clauses=clauses, scenarios=scs, what="mesh scenario", cfg=TV)


def publish_isolation(c):
    run_mesh(c, listener_scenarios(c, 12), clauses=lambda x: x == "P23.unexpected")


def check_p23(c):
    scs = []
    for i, (ops, th) in enumerate([(["startup", "startup", "startup"], [1, 2, 3]), (["startup", "single", "startup"], [1, 1, 2]),
                                   (["startup", "startup", "single", "single"], [1, 2, 1, 2])]):
        for j, p in enumerate(mesh_paths(c, ops, th, None if c.thorough else 40)):
            scs.append(path_to_scenario(c.rng, ops, th, p, "g%d-%d" % (i, j)))
    mesh_paths(c, ["startup", "startup", "multi", "startup"], [1, 2, 3, 1], 0)
    for d in ("nolock", "forget", "swallow", "retry"):
        mutant(c, ["startup", "startup", "multi"], [1, 2, 1], d)
    scs += registration(c) + listener_scenarios(c) + client_scenarios(c) + many(c)
    run_mesh(c, scs)


def check_p22(c):
    ifaces, addrs = ["i1", "i2"], ["h:hosta", "t:1111"]
    if c.thorough:
        ifaces = ["i1", "i2", "i3"]
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Ifaces = {%s}\n Addrs = {%s}\n Emit = %%s\nINVARIANT TypeOK\nPROPERTY NeverOverwritten\n" \
          "CHECK_DEADLOCK FALSE\nVIEW gview\n" % (",".join('"%s"' % x for x in ifaces), ",".join('"%s"' % x for x in addrs))
    c.mc("Routing", cfg % "FALSE", name="Routing")
    g = c.graph("Routing", cfg % "TRUE" + "ACTION_CONSTRAINT EmitEdge\nCONSTRAINT EmitInit\n", name="Routing/graph")
    scs = []
    rng = c.rng
    who = [("aio", True), ("sock", True), ("aio", False), ("sock", False)]
    for p in g.cover(rng, maxlen=50):
        steps = []
        for lab in p:
            if lab[0] == "set":
                steps.append(lab)
            elif lab[0] in ("sub", "unsub"):
                k = rng.choice(who[:2])
                gl = lab[2] if isinstance(lab[2], list) else [lab[2][str(i + 1)] for i in range(len(lab[1]))]
                steps.append([lab[0], k[0], k[1], lab[1], [rng.choice(["good", "goodx"]) if x else rng.choice(BAD) for x in gl]])
            else:
                k = rng.choice(who[2:])
                steps.append([lab[1], k[0], k[1], lab[2], ["good"] * len(lab[2])])
            steps.append(["get", rng.choice(who), ifaces + ["other"]])
        scs.append(dict(do="routing", steps=steps))
    c.cov["graph_edges"], c.cov["graph_edges_covered_by_scenarios"] = g.total, g.covered
    # long random histories, more interfaces
    for n in range(200 if c.thorough else 40):
        infs = rng.sample(ODD_NAMES, 6) if n % 3 == 0 else ["i%d" % i for i in range(rng.choice([2, 5, 8]))] + ["\u63a5\u53e3:1.0"]
        steps = []
        for _ in range(25):
            x = rng.random()
            k = rng.choice(who)
            if x < .3:
                steps.append(["set", rng.choice(infs), rng.choice(["h:hosta", "h:10.1.2.3", "t:1111", "t:12200", "t:12220"])])
            else:
                l = [rng.choice(infs) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
                steps.append([rng.choice(["sub", "sub", "unsub"]), k[0], k[1], l, [rng.choice(["good"] * 4 + BAD) for _ in l]])
                # one interface twice in a call: the stub answers by name and order
            steps.append(["get", rng.choice(who), infs])
        scs.append(dict(do="routing", steps=steps))
    # very many of them
    infs = ["i%d" % i for i in range(300)]
    steps = [["set", i, "t:%d" % (1000 + k)] for k, i in enumerate(infs[::2])]
    for i in range(0, 300, 60):
        part = rng.sample(infs, 60)
        steps.append(["sub", "aio" if i % 120 else "sock", True, part, [rng.choice(["good"] * 9 + BAD[:1]) for _ in part]])
    steps += [["set", i, "h:late"] for i in infs[::3]] + [["get", rng.choice(who), infs]]
    scs.append(dict(do="routing", steps=steps))
    tr = c.drive("mesh_driver", scs, timeout=300)
    c.validate("RoutingTrace", tr, scenarios=scs, what="routing scenario", cfg=TV)


CHECKS = dict(P22=check_p22, P23=check_p23)
