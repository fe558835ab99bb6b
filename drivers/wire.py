"""The harness's own Bolt v1 codec (never the code under test's)."""
import socket
import struct

REQ_CLASS = b"com.alipay.sofa.rpc.core.request.SofaRequest"
RESP_CLASS = b"com.alipay.sofa.rpc.core.response.SofaResponse"
REQ = struct.Struct(">bbhbibiHHI")
RESP = struct.Struct(">bbhbibhHHI")
STATUS = {0: "SUCCESS", 1: "ERROR", 2: "SERVER_EXCEPTION", 3: "UNKNOWN", 4: "SERVER_THREADPOOL_BUSY", 5: "ERROR_COMM",
          6: "NO_PROCESSOR", 7: "TIMEOUT", 8: "CLIENT_SEND_ERROR", 9: "CODEC_EXCEPTION", 16: "CONNECTION_CLOSED",
          17: "SERVER_SERIAL_EXCEPTION", 18: "SERVER_DESERIAL_EXCEPTION"}
CODE = {v: k for k, v in STATUS.items()}
PREFIX = "rpc_trace_context."


def enc_map(m):
    out = b""
    for k, v in (m.items() if isinstance(m, dict) else m):
        for s in (k, v):
            e = s.encode() if isinstance(s, str) else s
            out += struct.pack(">i", len(e)) + e
    return out


def dec_map(b):
    ss = []
    while b:
        if len(b) < 4:
            raise ValueError("short")
        n = struct.unpack(">i", b[:4])[0]
        if n == -1:
            n = 0
        if n < 0 or n > len(b) - 4:
            raise ValueError("bad length")
        ss.append(b[4:4 + n].decode("utf-8"))
        b = b[4 + n:]
    if len(ss) % 2:
        raise ValueError("odd")
    return dict(zip(ss[::2], ss[1::2]))


def request(rid, header=b"", content=b"", ptype=1, cmd=1, timeout=-1, cls=REQ_CLASS, codec=11, proto=1, ver2=1):
    if not isinstance(header, bytes):
        header = enc_map(header)
    return REQ.pack(proto, ptype, cmd, ver2, rid, codec, timeout, len(cls), len(header), len(content)) + cls + header + content


def response(rid, content=b"", status=0, cmd=2, cls=RESP_CLASS, header=b"", ptype=0, codec=11, proto=1, ver2=1):
    if not isinstance(header, bytes):
        header = enc_map(header)
    return RESP.pack(proto, ptype, cmd, ver2, rid, codec, status, len(cls), len(header), len(content)) + cls + header + content


class Parser:
    """Incremental frame parser; kind is "req" (frames of a client) or "resp" (frames of a server)."""

    def __init__(self, kind):
        self.kind = kind
        self.st = REQ if kind == "req" else RESP
        self.buf = b""

    def feed(self, data):
        self.buf += data
        out = []
        while len(self.buf) >= self.st.size:
            proto, ptype, cmd, ver2, rid, codec, x, cl, hl, ctl = self.st.unpack(self.buf[:self.st.size])
            n = self.st.size + cl + hl + ctl
            f = dict(proto=proto, ptype=ptype, cmd=cmd, ver2=ver2, id=rid, codec=codec, x=x)
            # garbage is recognised early, a torn frame could otherwise wait for gigabytes
            f["sane"] = (proto == 1 and ver2 == 1 and codec in (1, 2, 11) and ptype in (0, 1, 2) and cmd in (0, 1, 2)
                         and (self.kind == "req" or x in STATUS))
            if not f["sane"]:
                f.update(cls=b"", header=b"", content=b"")
                out.append(f)
                self.buf = b""
                break
            if len(self.buf) < n:
                break
            b = self.buf[self.st.size:n]
            f.update(cls=b[:cl], header=b[cl:cl + hl], content=b[cl + hl:])
            self.buf = self.buf[n:]
            out.append(f)
        return out


def free_port(lo=None):
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p
