"""P01, P02: the wire format, decided by spec/Codec.tla."""
from common import *


def chunks(ops, n=150):
    return [dict(ops=ops[i:i + n]) for i in range(0, len(ops), n)]


def rand_text(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .5:
            out.append(rng.randrange(32, 127))
        elif r < .6:
            out.append(rng.choice([0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfeff]))
        elif r < .8:
            out.append(rng.randrange(0x80, 0x800))
        else:
            c = rng.randrange(0x800, 0x110000)
            out.append(c if not 0xd800 <= c < 0xe000 else 0x4e2d)
    return out


def rand_map(rng, big=False):
    n = rng.choice([0, 1, 1, 2, 3, 5, 12])
    m = {}
    for _ in range(n):
        m[tuple(rand_text(rng, rng.choice([0, 1, 2, 5, 20])))] = rand_text(rng, rng.choice([0, 0, 1, 3, 30, 120]))
    return [[list(k), v] for k, v in m.items()]


def rand_bytes(rng, n):
    return [rng.choice([0, 1, 255, 128, rng.randrange(256)]) for _ in range(n)]


def rand_field(rng, kind):
    i31 = lambda: rng.choice([0, 1, 2 ** 31 - 1, rng.randrange(2 ** 31), rng.randrange(256) << rng.choice([0, 8, 16])])
    f = dict(proto=1, ptype=rng.randrange(3), cmd=rng.randrange(3), ver2=1, id=i31(), codec=rng.choice([1, 2, 11]))
    f["x"] = (rng.choice([0, -1, 1, -2 ** 31, 2 ** 31 - 1, rng.randrange(-2 ** 31, 2 ** 31)]) if kind == "req"
              else rng.choice(list(range(10)) + [16, 17, 18]))
    return f


def py_frame(kind, f, hdr, content):
    """an independent encoder, only used to make inputs"""
    import struct
    h = b""
    for k, v in hdr:
        for s in (k, v):
            e = "".join(map(chr, s)).encode()
            h += struct.pack(">i", len(e)) + e
    cls = b"com.alipay.sofa.rpc.core." + (b"request.SofaRequest" if kind == "req" else b"response.SofaResponse")
    fmt = ">bbhbib" + ("i" if kind == "req" else "h") + "HHI"
    return list(struct.pack(fmt, f["proto"], f["ptype"], f["cmd"], f["ver2"], f["id"], f["codec"], f["x"], len(cls), len(h),
                            len(content)) + cls + h + bytes(content))


def mutate(rng, b):
    b = list(b)
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        if k < .35 and b:
            b = b[:rng.randrange(len(b) + 1)]
        elif k < .5:
            b = b + rand_bytes(rng, rng.randrange(1, 6))
        elif k < .6 and b:
            i = rng.randrange(len(b) + 1)
            b = b[:i] + rand_bytes(rng, rng.randrange(1, 4)) + b[i:]
        elif k < .7 and b:
            i = rng.randrange(len(b))
            b = b[:i] + b[i + rng.randrange(1, 5):]
        elif b:
            b[rng.randrange(min(len(b), rng.choice([22, 100, 10 ** 6])))] = rng.choice([0, 1, 255, 128, 127, rng.randrange(256)])
    return b


def check_p01(c):
    r = c.mc("CodecMC", "SPECIFICATION Spec\nINVARIANT Inv\nCONSTANT Tier = \"%s\"\nCHECK_DEADLOCK FALSE\n" % c.tier,
             name="CodecMC/" + c.tier, workers=8)
    rng = c.rng
    ops = []
    for i, (_, kind, f, m, cont) in enumerate(sorted(r.lines("PKG"), key=json.dumps)):
        ops.append(dict(op="enc", kind=kind, f=f, hdr=m, content=cont, how="enum" if i % 2 else "plain"))
        ops.append(dict(op="dec", kind=kind, b=py_frame(kind, f, m, cont)))
    n_model = len(ops)
    for _, kind, b in sorted(r.lines("BYTES"), key=json.dumps):
        ops.append(dict(op="dec", kind=kind, b=b))
    c.cov["model_cases"] = len(ops)
    for ptype in (1, 2):
        for t in (None, 0, 1, -1, 3000, 2 ** 31 - 1, -2 ** 31):
            ops.append(dict(op="enc", kind="req", how="new_request", ptype=ptype, timeout=t, f={}, hdr=rand_map(rng),
                            content=rand_bytes(rng, 5)))
    for i in (0, 1, 255, 256, 2 ** 31 - 1, 77777):
        for cont in ([], [0], [1, 2, 3]):
            ops.append(dict(op="enc", kind="resp", how="response_to", f=dict(id=i), hdr=[], content=cont))
        ops.append(dict(op="enc", kind="resp", how="hbresp", f=dict(id=i), hdr=[], content=[]))
        ops.append(dict(op="enc", kind="req", how="hbreq", f=dict(id=i), hdr=[], content=[]))
        for st in list(range(10)) + [16, 17, 18]:
            ops.append(dict(op="enc", kind="resp", how="fail", f=dict(id=i, x=st), hdr=[], content=[]))
    # boundary sizes
    big = [[[107], [97] * (65535 - 9)]]
    many = [[[0x4e00 + i], []] for i in range(1100)]
    for hdr, n in ((big, 3), (many, 2), (many[:300], 2), ([], 65536), ([], 70000), ([[[107], [98] * 300]], 256)):
        f = rand_field(rng, "req")
        ops.append(dict(op="enc", kind="req", f=f, hdr=hdr, content=[i % 251 for i in range(n)]))
        ops.append(dict(op="dec", kind="req", b=py_frame("req", f, hdr, [i % 251 for i in range(n)])))
    for _ in range(3000 if c.thorough else 400):
        kind = rng.choice(["req", "resp"])
        f, hdr, cont = rand_field(rng, kind), rand_map(rng), rand_bytes(rng, rng.choice([0, 1, 7, 60, 600]))
        ops.append(dict(op="enc", kind=kind, f=f, hdr=hdr, content=cont))
        b = py_frame(kind, f, hdr, cont)
        ops.append(dict(op="dec", kind=kind, b=b))
        for _ in range(2):
            ops.append(dict(op="dec", kind=kind, b=mutate(rng, b)))
        # bytes of one kind presented to the parser of the other
        ops.append(dict(op="dec", kind="resp" if kind == "req" else "req", b=b))
    sc = chunks(ops)
    tr = c.drive("codec_driver", sc, shards=4)
    strip_hb(tr)
    c.validate("CodecTrace", tr, scenarios=sc, what="codec batch", batch=60)
    c.cov["operations_on_real_code"] = len(ops)


def strip_hb(traces):
    """The timeout of a heartbeat request is not specified: take it from the bytes."""
    for t in traces:
        for e in t["ev"]:
            if e.pop("anyx", None) and len(e["b"]) >= 14:
                e["f"]["x"] = int.from_bytes(bytes(e["b"][10:14]), "big", signed=True)


def check_p02(c):
    n = 4 if c.thorough else 3
    r = c.mc("HeaderMC", "SPECIFICATION Spec\nINVARIANT Inv\nVIEW View\nCONSTANT N = %d\nCHECK_DEADLOCK FALSE\n" % n,
             name="HeaderMC/N=%d" % n, workers=8)
    rng = c.rng
    ops = [dict(op="hdec", b=b) for _, b in sorted(r.lines("HDR"))]
    c.cov["model_cases"] = len(ops)
    maps = [rand_map(rng) for _ in range(6000 if c.thorough else 900)]
    maps += [[], [[[], []]], [[[97], []]], [[[], [97]]]]
    maps += [[[[cp], [cp, cp]]] for cp in (0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff,
                                          0x10000, 0x1f600, 0x10fffe, 0x10ffff)]
    maps += [[[[107], [97 + i % 26 for i in range(k)]]] for k in (127, 128, 255, 256, 257, 4096, 30000, 65526)]
    maps += [[[[0x4e2d, i], [0xe9] * i] for i in range(1, 60)]]
    maps += [[[[0x4e00 + i], [97] * (i % 2)] for i in range(k)] for k in (100, 130, 300, 1030)]
    for m in maps:
        ops.append(dict(op="henc", hdr=m))
        b = b"".join(len(e).to_bytes(4, "big") + e for kv in m for s in kv for e in ["".join(map(chr, s)).encode()])
        ops.append(dict(op="hdec", b=list(b)))
        if len(b) < 3000:
            ops.append(dict(op="hdec", b=mutate(rng, b)))
            # null markers in place of strings
            out, p = [], 0
            while p < len(b):
                ln = int.from_bytes(b[p:p + 4], "big")
                out += [255] * 4 if rng.random() < .3 else list(b[p:p + 4 + ln])
                p += 4 + ln
            ops.append(dict(op="hdec", b=out))
    for _ in range(4000 if c.thorough else 600):
        ops.append(dict(op="hdec", b=rand_bytes(rng, rng.randrange(0, 24))))
    sc = chunks(ops)
    tr = c.drive("codec_driver", sc, shards=4, hang_clause="P02.hang")
    c.validate("CodecTrace", tr, scenarios=sc, what="header batch", batch=60)
    c.cov["operations_on_real_code"] = len(ops)


CHECKS = dict(P01=check_p01, P02=check_p02)
