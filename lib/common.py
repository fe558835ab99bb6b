"""Shared machinery of the checks: TLC runs, driver runs, trace validation, evidence, verdicts.

Exit codes of a check: 0 held, 1 VIOLATION printed, anything else = the machinery itself failed.
"""
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers"))
from names import ODD_NAMES  # noqa

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
DEV = bool(os.environ.get("VERIF_DEV"))


class MachineryError(Exception):
    pass


class Tlc:
    """Result of one TLC run."""

    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0

    def lines(self, tag):
        """JSON values printed by PrintT(ToJson(<<tag, ...>>))"""
        pre = '"[\\"%s\\"' % tag
        res = []
        for ln in self.out.splitlines():
            if ln.startswith(pre):
                res.append(json.loads(json.loads(ln)))
        return res


def tlc(module, cfg, work, env=None, workers=4, timeout=600, extra=(), heap="3g", java=()):
    """Run TLC on spec/<module>.tla with config text or spec/<cfg>."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=work)
    for f in os.listdir(SPEC):
        if f.endswith(".tla") or f.endswith(".cfg"):
            shutil.copy(os.path.join(SPEC, f), d)
    if "\n" in cfg:
        with open(os.path.join(d, "gen.cfg"), "w") as fh:
            fh.write(cfg)
        cfg = "gen.cfg"
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, *java, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-config", cfg, *extra, module + ".tla"]
    t0 = time.time()
    with open(os.path.join(d, "out.txt"), "wb") as fo:
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=fo, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -9
    with open(os.path.join(d, "out.txt"), errors="replace") as fo:
        out = fo.read()
    if not DEV:
        shutil.rmtree(d, ignore_errors=True)
    return Tlc(rc, out, time.time() - t0)


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.level = level
        self.rng = random.Random("%s/%s" % (pid, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=os.environ.get("VERIF_TMP") or None)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0,
                        models=[], drivers=[], samples=[])
        self.assumptions = []
        self.violations = []
        self.known = []
        self.thorough = self.tier == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- TLC on a design model -------------------------------------------------------------------
    def mc(self, module, cfg, name=None, workers=4, timeout=600, expect_violation=None, extra=(), env=None,
           count=True, heap="4g"):
        """Exhaustive exploration; the model must satisfy its invariants (a failure is a machinery error: a model
        is independent of the code)."""
        name = name or (cfg if "\n" not in cfg else module)
        r = tlc(module, cfg, self.work, workers=workers, timeout=timeout, extra=extra, env=env, heap=heap)
        if expect_violation is not None:
            ok = r.rc in (12, 13, 11, 10) and (expect_violation == "" or expect_violation in r.out)
            if not ok:
                raise MachineryError("mutant model %s was not rejected (rc=%s):\n%s" % (name, r.rc, r.out[-3000:]))
            self.cov.setdefault("rejected_mutant_models", []).append(name)
            return r
        if r.rc != 0:
            raise MachineryError("model %s failed (rc=%s): %s\n%s" % (
                name, r.rc, " / ".join(re.findall(r"^Error: .*", r.out, re.M)), r.out[-6000:]))
        if count:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
        self.cov["models"].append(dict(model=name, distinct_states=r.distinct, transitions=r.generated,
                                       depth=r.depth, wall_s=round(r.wall, 1)))
        self.log("model %s: %d distinct states, %d transitions, depth %d (%.1fs)" % (
            name, r.distinct, r.generated, r.depth, r.wall))
        return r

    def graph(self, module, cfg, name=None, **kw):
        """Explore and collect the edges the model prints as <<"EDGE", from, label, to>>."""
        r = self.mc(module, cfg, name, workers=1, **kw)
        g = Graph()
        for _, a, lab, b in r.lines("EDGE"):
            g.add(json.dumps(a, sort_keys=True), lab, json.dumps(b, sort_keys=True))
        for _, a in r.lines("INIT"):
            g.inits.append(json.dumps(a, sort_keys=True))
        if not g.inits or not g.n:
            raise MachineryError("model %s printed no edges:\n%s" % (module, r.out[-3000:]))
        return g

    # ---- driving the real code -------------------------------------------------------------------
    def drive(self, driver, scenarios, timeout=300, shards=1, env=None, hang_clause=None, args=(), chunk=None):
        """Run scenarios through the real code; returns the list of traces (same order as scenarios where present).

        A driver that does not finish is a hang of the code under test (all waits of the drivers are bounded):
        reported as a violation of this property naming the scenario it was in."""
        if not scenarios:
            return []
        for i, s in enumerate(scenarios):
            s["sid"] = i + 1
        shards = max(1, min(shards, len(scenarios)))
        procs = []
        for k in range(shards):
            part = scenarios[k::shards]
            d = tempfile.mkdtemp(prefix="drv-", dir=self.work)
            with open(os.path.join(d, "in.json"), "w") as fh:
                json.dump(dict(seed=self.seed, tier=self.tier, shard=k, scenarios=part), fh)
            e = dict(os.environ)
            e.update(PYTHONPATH=REPO + ":" + os.path.join(VERIF, "drivers"), PYTHONDONTWRITEBYTECODE="1",
                     PYTHONPYCACHEPREFIX=os.path.join(d, "pyc"), PYTHONHASHSEED=str(self.seed),
                     NO_PROXY="*", no_proxy="*", VERIF_SHARD=str(k), PYTHONFAULTHANDLER="1")
            for v in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"):
                e.pop(v, None)
            e.update(env or {})
            fo = open(os.path.join(d, "log"), "wb")
            p = subprocess.Popen([PY, "-B", os.path.join(VERIF, "drivers", driver + ".py"), d, *args], cwd=d, env=e,
                                 stdout=fo, stderr=subprocess.STDOUT, start_new_session=True)
            procs.append((p, d, part, fo))
        deadline = time.time() + timeout
        traces = []
        hung = []
        for p, d, part, fo in procs:
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                rc = "hang"
                try:
                    p.send_signal(signal.SIGABRT)  # faulthandler prints the stacks
                    time.sleep(0.5)
                except OSError:
                    pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            fo.close()
            log = open(os.path.join(d, "log"), errors="replace").read()
            got = []
            last = None
            if os.path.exists(os.path.join(d, "out.ndjson")):
                for ln in open(os.path.join(d, "out.ndjson")):
                    try:
                        o = json.loads(ln)
                    except ValueError:
                        continue
                    if "at" in o:
                        last = o["at"]
                    else:
                        got.append(o)
            traces += got
            if rc == "hang":
                sc = [s for s in part if s["sid"] == last]
                hung.append((sc[0] if sc else None, log[-4000:]))
            elif rc != 0 or len({o["sid"] for o in got}) < len(part):
                # the import of the code under test, or its behaviour, broke the driver itself
                tb = [ln for ln in log.splitlines() if 'File "%s' % REPO in ln]
                if rc != 0 and tb and "driver-ready" not in log:
                    self.violation("driver.import", "code under test cannot be used: " + log[-1500:], dict(log=log[-8000:]))
                elif rc == 1 and "driver-ready" in log and undigested(log):
                    # the drivers expect every outcome the code may have: this one is of a kind it never has
                    self.violation(self.pid + ".crash", "scenario %s: %s" % (last, undigested(log)),
                                   dict(scenario=next((s for s in part if s["sid"] == last), None), log=log[-8000:]))
                else:
                    raise MachineryError("driver %s failed (rc=%s, %d/%d traces, at %s):\n%s" % (
                        driver, rc, len(got), len(part), last, log[-6000:]))
            if DEV:
                self.last_log = log
        for sc, log in hung:
            self.violation(hang_clause or (self.pid + ".hang"),
                           "the code under test did not return (driver %s)" % driver, dict(scenario=sc, stacks=log))
        traces.sort(key=lambda t: t["sid"])
        self.cov["drivers"].append(dict(driver=driver, scenarios=len(scenarios), traces=len(traces),
                                        events=sum(len(t["ev"]) for t in traces)))
        self.log("driver %s: %d scenarios, %d traces, %d events" % (
            driver, len(scenarios), len(traces), sum(len(t["ev"]) for t in traces)))
        return traces

    # ---- trace validation ------------------------------------------------------------------------
    def validate(self, module, traces, clauses=None, scenarios=None, workers=8, timeout=600, cfg=None, heap="6g",
                 what="trace", batch=4000, keys=None):
        """Deterministic trace spec: prints <<"BAD", t, l, {clauses}>> for every offending event (total verdict)."""
        if not traces:
            return []
        clauses = clauses or (lambda c: c.split(".")[0] == self.pid)
        bads = []
        for off in range(0, len(traces), batch):
            part = traces[off:off + batch]
            f = os.path.join(self.work, "traces-%d.json" % off)
            with open(f, "w") as fh:
                json.dump([dict(cfg=t["cfg"], ev=t["ev"]) for t in part], fh)
            r = tlc(module, cfg or "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n", self.work,
                    env=dict(TRACES=f), workers=workers, timeout=timeout, heap=heap)
            want = sum(len(t["ev"]) + 1 for t in part)
            if r.rc != 0 or r.distinct != want:
                raise MachineryError("trace validation %s: rc=%s, %d of %d states\n%s" % (
                    module, r.rc, r.distinct, want, r.out[-5000:]))
            self.cov["trace_states"] = self.cov.get("trace_states", 0) + r.distinct
            for _, t, l, cl in r.lines("BAD"):
                bads.append((off + t - 1, l, cl))
            if not DEV:
                os.unlink(f)
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["events_validated"] += sum(len(t["ev"]) for t in traces)
        found = []
        others = {}
        for t, l, cl in sorted(bads):
            mine = sorted(c for c in cl if clauses(c))
            for c in cl:
                if not clauses(c):
                    others[c] = others.get(c, 0) + 1
            if mine:
                found.append((t, l, mine))
        if others:
            self.cov["clauses_of_other_properties_seen"] = others
        # clauses with a key name a deviation of the specification (see KNOWN_FINDINGS.txt); they are judged separately
        for k in keys or {}:
            hit = next(((t, l) for t, l, cl in found if k in cl), None)
            if hit:
                tr = traces[hit[0]]
                self.violation(k, "%s %s event %d: %s" % (what, tr["sid"], hit[1], json.dumps(tr["ev"][hit[1] - 1])[:300]),
                               dict(key=keys[k], clauses=[k], cfg=tr["cfg"], events=tr["ev"][:hit[1]]))
        found = [(t, l, [c for c in cl if c not in (keys or {})]) for t, l, cl in found]
        found = [f for f in found if f[2]]
        seen = set()
        for t, l, cl in found:
            tr = traces[t]
            key = (tr["sid"], json.dumps(tr.get("run")))
            if key in seen:
                continue
            seen.add(key)
            sc = None
            if scenarios:
                sc = next((s for s in scenarios if s["sid"] == tr["sid"]), None)
            self.violation(cl[0], "%s %s event %d: %s" % (what, tr["sid"], l, json.dumps(tr["ev"][l - 1])[:300]),
                           dict(clauses=cl, scenario=sc, run=tr.get("run"), cfg=tr["cfg"], events=tr["ev"][:l], rest=tr["ev"][l:]))
        self.sample(traces)
        self.log("validated %d traces with %s: %d violation(s)" % (len(traces), module, len(found)))
        return found

    def explain(self, module, traces, clause, scenarios=None, workers=8, timeout=900, heap="8g", what="trace", batch=3000):
        """Trace spec with hidden steps: a trace none of whose explanations reaches its end is a violation."""
        if not traces:
            return []
        cfg = "SPECIFICATION TraceSpec\nCONSTRAINT %s\nCHECK_DEADLOCK FALSE\n"
        found = []
        for off in range(0, len(traces), batch):
            part = traces[off:off + batch]
            f = os.path.join(self.work, "traces-%d.json" % off)
            with open(f, "w") as fh:
                json.dump([dict(cfg=t["cfg"], ev=t["ev"]) for t in part], fh)
            r = tlc(module, cfg % "Report", self.work, env=dict(TRACES=f), workers=workers, timeout=timeout, heap=heap)
            if r.rc != 0:
                raise MachineryError("trace explanation %s: rc=%s\n%s" % (module, r.rc, r.out[-5000:]))
            self.cov["trace_states"] = self.cov.get("trace_states", 0) + r.distinct
            ok = {t for _, t in r.lines("OK")}
            bad = [i for i in range(len(part)) if i + 1 not in ok]
            found += [off + i for i in bad]
            if not DEV:
                os.unlink(f)
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["events_validated"] += sum(len(t["ev"]) for t in traces)
        seen, show = set(), []
        for i in found:
            k = (traces[i]["sid"], json.dumps(traces[i].get("run")))
            if k not in seen:
                seen.add(k)
                show.append(i)
        if show:       # how far the first of them can be explained
            part = [traces[i] for i in show[:20]]
            f = os.path.join(self.work, "traces-bad.json")
            with open(f, "w") as fh:
                json.dump([dict(cfg=t["cfg"], ev=t["ev"]) for t in part], fh)
            r = tlc(module, cfg % "Progress", self.work, env=dict(TRACES=f), workers=workers, timeout=timeout, heap=heap)
            at = {}
            for _, t, l in r.lines("AT"):
                at[t] = max(at.get(t, 0), l)
            for j, i in enumerate(show):
                tr = traces[i]
                l = at.get(j + 1, 1)
                ev = tr["ev"][l - 1] if l <= len(tr["ev"]) else "the end, with something left to do"
                sc = next((s for s in scenarios or [] if s["sid"] == tr["sid"]), None)
                self.violation(clause, "%s %s cannot be explained beyond event %d: %s" % (what, tr["sid"], l, json.dumps(ev)[:300]),
                               dict(clauses=[clause], scenario=sc, run=tr.get("run"), cfg=tr["cfg"], events=tr["ev"][:l], rest=tr["ev"][l:]))
        self.sample(traces)
        self.log("explained %d traces with %s: %d violation(s)" % (len(traces), module, len(found)))
        return found

    def sample(self, traces, n=2):
        if traces and len(self.cov["samples"]) < 4:
            for t in traces[:1] + traces[len(traces) // 2:len(traces) // 2 + 1]:
                self.cov["samples"].append(dict(sid=t["sid"], cfg=t["cfg"], events=t["ev"][:12]))

    # ---- verdicts --------------------------------------------------------------------------------
    def violation(self, clause, text, replay):
        self.violations.append((clause, text, replay))

    def finish(self):
        known = load_known(self.pid)
        new = []
        for clause, text, replay in self.violations:
            k = next((k for k in known if k["clause"] == clause and k["key"] == replay.get("key")), None)
            if k:
                self.known.append(k)
            else:
                new.append((clause, text, replay))
        for k in {json.dumps(k, sort_keys=True): k for k in self.known}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
        self.cov["known_findings_seen"] = len(self.known)
        self.cov["samples"] = self.cov["samples"][:6]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if new:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            for i, (clause, text, replay) in enumerate(new[:5]):
                p = os.path.join(rd, "%s-%d.json" % (self.pid, i + 1))
                with open(p, "w") as fh:
                    json.dump(dict(property=self.pid, clause=clause, text=text, replay=replay), fh, indent=1)
                print("  %s: %s" % (clause, text[:600]), flush=True)
                print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
            if len(new) > 5:
                print("  ... and %d more" % (len(new) - 5))
        self.log("done: %d new violation(s), %d known" % (len(new), len(self.known)))
        return 1 if new else 0


def load_known(pid):
    """KNOWN-FINDING entries: lines 'known: property=<id> clause=<clause> key=<key> :: <what fails>'"""
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) clause=(\S+) key=(\S+) :: (.*)", ln.strip())
            if m and m.group(1) == pid:
                res.append(dict(clause=m.group(2), key=m.group(3), what=m.group(4)))
    return res


class Graph:
    """Labelled state graph printed by a model; path covers become test scenarios."""

    def __init__(self):
        self.adj = {}
        self.inits = []
        self.n = 0
        self.seen = set()

    def add(self, a, lab, b):
        k = (a, json.dumps(lab, sort_keys=True), b)
        if k in self.seen:
            return
        self.seen.add(k)
        self.adj.setdefault(a, []).append((lab, b))
        self.n += 1

    def cover(self, rng, maxlen=60, limit=None, keep=lambda lab: True):
        """Paths from an initial state which together take every (kept) edge; deterministic in rng."""
        left = {}
        for a, es in self.adj.items():
            idx = [i for i, (lab, _) in enumerate(es) if keep(lab)]
            if idx:
                left[a] = set(idx)
        total = sum(map(len, left.values()))
        paths = []
        # distance of each node to an uncovered edge is recomputed lazily with BFS
        while left and (limit is None or len(paths) < limit):
            node = self.inits[len(paths) % len(self.inits)]
            path = []
            progressed = False
            while len(path) < maxlen:
                if node in left:
                    i = rng.choice(sorted(left[node]))
                    left[node].discard(i)
                    if not left[node]:
                        del left[node]
                    lab, nxt = self.adj[node][i]
                    path.append(lab)
                    node = nxt
                    progressed = True
                    continue
                hop = self._nearest(node, left, maxlen - len(path) if progressed else 10 ** 9)
                if hop is None:
                    break
                for lab, nxt in hop:
                    path.append(lab)
                    node = nxt
            if not progressed:
                # the remaining edges are not reachable from this initial state
                if len(paths) >= len(self.inits) and all(self._nearest(n, left, 10 ** 9) is None for n in self.inits):
                    break
                paths.append([])
                continue
            # finish: run to a terminal state if there is one close by
            paths.append(path)
        paths = [p for p in paths if p]
        self.covered = total - sum(map(len, left.values()))
        self.total = total
        return paths

    def _nearest(self, node, left, maxd):
        from collections import deque
        prev = {node: None}
        dq = deque([(node, 0)])
        while dq:
            n, d = dq.popleft()
            if n in left:
                path = []
                while prev[n] is not None:
                    p, lab = prev[n]
                    path.append((lab, n))
                    n = p
                return path[::-1]
            if d >= maxd:
                continue
            for lab, m in self.adj.get(n, ()):
                if m not in prev:
                    prev[m] = (n, lab)
                    dq.append((m, d + 1))
        return None

    def walk(self, rng, length):
        node = rng.choice(self.inits)
        path = []
        while len(path) < length and self.adj.get(node):
            lab, node = rng.choice(self.adj[node])
            path.append(lab)
        return path


def undigested(log):
    """the error of a driver which was thrown by the code under test, or which its results led to; not a lack of
    resources, and not a missing internal name"""
    i = log.rfind("Traceback (most recent call last)")
    if i < 0:
        return None
    tb = log[i:].splitlines()
    frames = [ln for ln in tb if ln.startswith('  File "')]
    err = next((ln for ln in tb[1:] if re.match(r"[A-Za-z_][\w.]*(Error|Exception|Iteration)\b", ln)), "")
    if not frames or not err:
        return None
    kind = err.split(":")[0].split(".")[-1]
    if kind in ("OSError", "MemoryError", "BlockingIOError", "ImportError", "ModuleNotFoundError", "NameError", "JSONDecodeError"):
        return None
    if kind == "AttributeError" and 'File "%s' % REPO not in frames[-1]:
        return None
    if kind in ("TypeError", "ValueError", "KeyError", "IndexError", "AssertionError", "RecursionError", "UnicodeDecodeError",
                "UnicodeEncodeError", "ZeroDivisionError", "StopIteration", "struct.error", "AttributeError") or 'File "%s' % REPO in frames[-1]:
        return err[:300]
    return None


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except MachineryError as e:
        print("MACHINERY: " + str(e), flush=True)
        rc = 2
        if c.violations:
            # what was already decided stands
            rc = c.finish() or 2
    except Exception:
        traceback.print_exc()
        rc = 2
        if c.violations:
            rc = c.finish() or 2
    finally:
        if not DEV:
            shutil.rmtree(c.work, ignore_errors=True)
    return rc
