"""Runs codec operations on the real code and records what they did."""
from dlib import Driver

drv = Driver()
from anthunder.protocol import BoltRequest, BoltResponse, SofaHeader
from anthunder.protocol.exceptions import ProtocolError, DecodeError
from anthunder.command.heartbeat import HeartbeatRequest, HeartbeatResponse
from anthunder.command.fail_response import FailResponse
from anthunder.protocol.constants import PTYPE, CMDCODE, RESPSTATUS, CODEC

drv.ready()


def txt(cps):
    return "".join(map(chr, cps))


def hmap(pairs):
    return SofaHeader({txt(k): txt(v) for k, v in pairs})


def pairs(m):
    return [[list(map(ord, k)), list(map(ord, v))] for k, v in dict.items(m)]


def fields(kind, p):
    return dict(proto=int(p.proto), ptype=int(p.ptype), cmd=int(p.cmdcode), ver2=int(p.ver2), id=int(p.request_id),
                codec=int(p.codec), x=int(p.timeout if kind == "req" else p.respstatus))


def dedup(ps):
    d = {}
    for k, v in ps:
        d[tuple(k)] = v
    return [[list(k), v] for k, v in d.items()]


def enc(op):
    kind, f = op["kind"], op["f"]
    ev = dict(op="enc", kind=kind, cls=kind, f=f, hdr=dedup(op["hdr"]), content=op["content"], ok=False, b=[], lens=[])
    try:
        h, c = hmap(op["hdr"]), bytes(op["content"])
        how = op.get("how", "plain")
        if how in ("plain", "enum"):
            e = (lambda cls, v: cls(v)) if how == "enum" else (lambda cls, v: v)
            kw = dict(proto=f["proto"], ptype=e(PTYPE, f["ptype"]), cmdcode=e(CMDCODE, f["cmd"]), ver2=f["ver2"],
                      request_id=f["id"], codec=e(CODEC, f["codec"]))
            if kind == "req":
                p = BoltRequest(h, c, timeout=f["x"], **kw)
            else:
                p = BoltResponse(h, c, respstatus=e(RESPSTATUS, f["x"]), **kw)
        else:
            # constructors: the expected fields follow from what they were asked for
            base = dict(proto=1, ver2=1, codec=11)
            if how == "new_request":
                t = op["timeout"]
                kw = {} if t is None else dict(timeout_ms=t)
                p = BoltRequest.new_request(h, c, ptype=op["ptype"], **kw) if op["ptype"] != 1 else \
                    BoltRequest.new_request(h, c, **kw)
                ev["f"] = dict(base, ptype=op["ptype"], cmd=1, id=p.request_id, x=-1 if not t else t)
            elif how == "response_to":
                p = BoltResponse.response_to(c, request_id=f["id"])
                ev["hdr"] = []
                ev["f"] = dict(base, ptype=0, cmd=2, id=f["id"], x=0)
            elif how == "fail":
                p = FailResponse.response_to(f["id"], RESPSTATUS(f["x"]))
                ev["hdr"], ev["content"] = [], []
                ev["f"] = dict(base, ptype=0, cmd=2, id=f["id"], x=f["x"])
            elif how == "hbreq":
                p = HeartbeatRequest.new_request()
                ev["hdr"], ev["content"], ev["cls"] = [], [], "none"
                ev["f"] = dict(base, ptype=1, cmd=0, id=p.request_id, x=0)
                ev["anyx"] = True
            else:
                p = HeartbeatResponse.response_to(f["id"])
                ev["hdr"], ev["content"], ev["cls"] = [], [], "none"
                ev["f"] = dict(base, ptype=0, cmd=0, id=f["id"], x=0)
        b = p.to_stream()
        ev.update(ok=True, b=list(b), lens=[p.class_len, p.header_len, p.content_len, p.body_len])
    except Exception as e:
        ev["err"] = repr(e)[:200]
    return ev


def dec(op):
    kind = op["kind"]
    ev = dict(op="dec", kind=kind, b=op["b"], ok=False, perr=False, f=dict(none=0), hdr=[], content=[])
    cls = BoltRequest if kind == "req" else BoltResponse
    try:
        p = cls.from_stream(bytes(op["b"]))
        ev.update(f=fields(kind, p), hdr=pairs(p.header), content=list(p.content), ok=True)
    except ProtocolError as e:
        ev.update(perr=True, err=repr(e)[:100])
    except Exception as e:
        ev.update(err=repr(e)[:200])
    return ev


def henc(op):
    ev = dict(op="henc", hdr=dedup(op["hdr"]), ok=False, b=[], len=-1)
    try:
        h = hmap(op["hdr"])
        ev.update(b=list(h.to_bytes()), len=len(h), ok=True)
    except Exception as e:
        ev["err"] = repr(e)[:200]
    return ev


def hdec(op):
    ev = dict(op="hdec", b=op["b"], ok=False, derr=False, hdr=[])
    try:
        h = SofaHeader.from_bytes(bytes(op["b"]))
        ev.update(hdr=pairs(h), ok=True)
    except DecodeError as e:
        ev.update(derr=True)
    except Exception as e:
        ev.update(err=repr(e)[:200])
    return ev


OPS = dict(enc=enc, dec=dec, henc=henc, hdec=hdec)


def run(s):
    return dict(cfg={"none": 0}, ev=[OPS[op["op"]](op) for op in s["ops"]])


drv.run(run)
drv.done()
