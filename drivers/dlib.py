"""Common part of the drivers (run with the project's interpreter, PYTHONPATH = repo:drivers)."""
import faulthandler
import hashlib
import json
import logging
import os
import random
import signal
import sys
import threading
import time

faulthandler.enable(all_threads=True)
K = float(os.environ.get("VERIF_CLOCK", "1"))     # event loops run on a clock this much faster
logging.disable(logging.CRITICAL)
sys.setrecursionlimit(5000)


def fast_loops():
    """Event loops made from now on live K times faster than everything else.

    To be called after the import of the code under test, which chooses uvloop where that is installed; with
    VERIF_LOOP=std, and in every second shard, the loops are asyncio's own, which the code uses where it is not."""
    import asyncio
    import selectors

    class FastSelector(selectors.DefaultSelector):
        def select(self, timeout=None):
            return super().select(timeout / K if K != 1 and timeout and timeout > 0 else timeout)

    class FastLoop(asyncio.SelectorEventLoop):
        def __init__(self):
            super().__init__(FastSelector())

        def time(self):
            return time.monotonic() * K

    class FastPolicy(asyncio.DefaultEventLoopPolicy):
        def new_event_loop(self):
            return FastLoop()

    if K != 1:
        # timeouts which the code under test (or its socketserver) sets on sockets
        import socket
        root = os.path.realpath(os.environ.get("VERIF_REPO") or "/repo")
        plain = socket.socket.settimeout

        def settimeout(self, value):
            f = sys._getframe(1).f_code.co_filename
            if value and (f.startswith(root) or f.endswith("socketserver.py")):
                value /= K
            return plain(self, value)
        socket.socket.settimeout = settimeout

    kind = os.environ.get("VERIF_LOOP") or ("std" if int(os.environ.get("VERIF_SHARD", 0)) % 2 else "")
    if kind == "std" or K != 1:
        asyncio.set_event_loop_policy(FastPolicy())


class Hold:
    """Holds a thread up at the n-th line it executes in the code under test, for so long that whatever else can
    happen meanwhile does happen.  who: "caller" (threads which call mine()) or "rest" (all others)."""

    def __init__(self, *parts):
        root = os.path.realpath(os.environ.get("VERIF_REPO") or "/repo")
        self.prefixes = tuple(os.path.join(root, p) for p in parts)
        self.spec, self.count, self.role = None, 0, threading.local()

    def arm(self, spec):
        self.spec, self.count = spec, 0
        if spec and spec["who"] != "caller":
            threading.settrace(self.trace)
            threading.settrace_all_threads(self.trace)

    def mine(self):
        self.role.caller = True
        if self.spec and self.spec["who"] == "caller":
            sys.settrace(self.trace)

    def off(self):
        if self.spec and self.spec["who"] != "caller":
            threading.settrace(None)
            threading.settrace_all_threads(None)
        self.spec = None

    def trace(self, frame, event, arg):
        s = self.spec
        if s is None or not frame.f_code.co_filename.startswith(self.prefixes):
            return None
        if (s["who"] == "caller") != getattr(self.role, "caller", False):
            return None
        return self.line

    def line(self, frame, event, arg):
        s = self.spec
        if event == "line" and s is not None:
            self.count += 1
            if self.count in s["n"]:
                time.sleep(s["ms"] / 1000)
        return self.line


class Driver:
    def __init__(self):
        self.dir = sys.argv[1]
        with open(os.path.join(self.dir, "in.json")) as fh:
            o = json.load(fh)
        self.seed, self.tier, self.shard = o["seed"], o["tier"], o["shard"]
        self.scenarios = o["scenarios"]
        self.out = open(os.path.join(self.dir, "out.ndjson"), "w")
        self.rng = random.Random("%s/%s" % (self.seed, self.shard))

    def ready(self):
        print("driver-ready", flush=True)

    def run(self, fn):
        for s in self.scenarios:
            self.out.write(json.dumps({"at": s["sid"]}) + "\n")
            self.out.flush()
            tr = fn(s)
            if tr is None:       # the scenario has written its traces itself
                continue
            tr["sid"] = s["sid"]
            self.out.write(json.dumps(tr) + "\n")
            self.out.flush()

    def done(self):
        self.out.flush()
        self.out.close()
        sys.stdout.flush()
        os._exit(0)


class Log:
    """The event log of one scenario: appended under one lock, so its order is the order of the observations."""

    def __init__(self):
        self.lock = threading.RLock()
        self.cond = threading.Condition(self.lock)
        self.ev = []
        self.t0 = time.monotonic()
        self.closed = False

    def now(self):
        return int((time.monotonic() - self.t0) * 1000)

    def add(self, e, **kw):
        with self.lock:
            if self.closed:
                return None
            d = dict(e=e, t=self.now(), **kw)
            self.ev.append(d)
            self.cond.notify_all()
            return d

    def wait(self, pred, timeout):
        """wait until pred(self.ev) holds; False when the time is over"""
        end = time.monotonic() + timeout
        with self.lock:
            while not pred(self.ev):
                left = end - time.monotonic()
                if left <= 0:
                    return False
                self.cond.wait(left)
            return True

    def finish(self):
        with self.lock:
            self.closed = True
            return list(self.ev)


def exc_name(e):
    return type(e).__name__


def hx(b):
    """bytes as they appear in the log; long ones by length and digest"""
    if isinstance(b, (bytearray, memoryview)):
        b = bytes(b)
    if not isinstance(b, bytes):
        return "not bytes: " + repr(b)[:80]
    return b.hex() if len(b) <= 64 else "#%d:%s" % (len(b), hashlib.sha256(b).hexdigest()[:32])
