"""R04, D01, D02: detection, headers and payloads of records."""
import struct
import msr, obs
from core import *
from props import prop

CRC, UNPACK, EOF = 4, 1, 16


def buf(s, b, slot=0):
    s.do("buf_set b=%d hex=%s" % (slot, b.hex()), lambda r: {"op": "buf", "b": list(b)})


def detects(s, lens, off=0):
    """detection on every given prefix length, each from an exact copy"""
    got = []
    for k, n in enumerate(lens):
        def fn(r, k=k):
            if k == 0:
                got.clear()
            got.append({"rv": r["rv"], "fv": r["fv"]})
            if k == len(lens) - 1:
                return {"op": "detects", "off": off, "lens": list(lens), "r": list(got)}
        s.do("detect b=0 off=%d len=%d" % (off, n), fn)


def parse(s, n, off=0, crc=False, unpack=False, eof=False, reuse=False):
    fl = (CRC if crc else 0) | (UNPACK if unpack else 0) | (EOF if eof else 0)

    def fn(r):
        o = {"cls": obs.cls(r["rv"])}
        if o["cls"] == "eof":
            o["cls"] = "need"
        if o["cls"] == "need":
            o["need"] = r["rv"]
        if o["cls"] == "ok":
            o.update(obs.rec(r, unpack))
        return {"op": "parse", "off": off, "len": n, "crc": crc, "unpack": unpack, "eof": eof, "r": o}
    s.do("rec_parse r=0 b=0 off=%d len=%d fl=%d reuse=%d" % (off, n, fl, int(reuse)), fn)


def decode(s, enc, big, n, osz=-1):
    size = {0: 1, 5: 8}.get(enc, 4)
    o = n * size if osz < 0 else osz
    s.do("decode b=0 enc=%d cnt=%d osz=%d swap=%d" % (enc, n, o, 1 if big else 0),
         lambda r: {"op": "decode", "enc": enc, "big": big, "n": n, "osz": o,
                    "r": {"rv": r["rv"], "type": r["type"], "data": obs.samples(r["type"], r["data"], enc) if r["rv"] > 0 else []}})


# ------------------------------------------------------------- random values
ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def code(rng, lo, hi, chars=ALNUM):
    return "".join(rng.choice(chars) for _ in range(rng.randint(lo, hi)))


def rtime(rng, tick=1):
    """an instant of 1900..2100 (v2's byte order test), on a tick grid"""
    y = rng.choice([1900, 1904, 1969, 1970, 1999, 2000, 2012, 2015, 2016, 2024, 2100, rng.randint(1900, 2100)])
    doy = rng.choice([1, 2, 31, 59, 60, 61, 365, 366, rng.randint(1, 366)])
    days = 365 * (y - 1970) + (y - 1969) // 4 - (y - 1901) // 100 + (y - 1601) // 400 + min(doy, 366 if msr.leap(y) else 365) - 1
    sec = rng.choice([0, 86399, rng.randint(0, 86399)])
    ns = rng.choice([0, 0, 999999999, rng.randint(0, 999999999), 123400000])
    return (days * 86400 + sec) * 10**9 + ns // tick * tick


def btime(rng, big, valid=True):
    y, d, h, m, s, n = msr.ns2cal(rtime(rng, 100000))
    return struct.pack((">" if big else "<") + "HHBBBBH", y, d, h, m, s, 0, n // 100000)


def fl32(rng):
    return rng.choice([0.0, 1.0, -1.5, 0.1, 1e-9, 3.4e38, 123456.789, rng.uniform(-1e6, 1e6)])


def txt(rng, n):
    t = "".join(rng.choice("ABCxyz 019-.,/\\\"") for _ in range(rng.randint(0, n)))
    return t.encode().ljust(n, rng.choice([b" ", b"\0"]))


def u32(rng):
    return rng.choice([0, 1, 10000, 12345, 2**31 - 1, 2**31, 2**32 - 1, rng.randrange(2**32)])


def blockette(rng, t, big):
    e = ">" if big else "<"
    B = lambda: rng.choice([0, 1, 255, rng.randrange(256)])
    if t == 100:
        return struct.pack(e + "f4B", rng.choice([1.0, 20.0, 0.05, 99.98, 33.333, rng.uniform(0.001, 5000)]), B(), 0, 0, 0)
    if t in (200, 201):
        a = struct.pack(e + "fff4B", fl32(rng), fl32(rng), fl32(rng), B(), B(), 0, 0)[:14] + b""
        a = struct.pack(e + "fff", fl32(rng), fl32(rng), fl32(rng)) + bytes([B(), 0]) + btime(rng, big)
        if t == 200:
            return a + txt(rng, 24)
        return a + bytes([B() for _ in range(8)]) + txt(rng, 24)
    if t == 300:
        return btime(rng, big) + bytes([B(), B()]) + struct.pack(e + "IIf", u32(rng), u32(rng), fl32(rng)) + txt(rng, 3) + b"\0" + struct.pack(e + "I", u32(rng)) + txt(rng, 12) + txt(rng, 12)
    if t == 310:
        return btime(rng, big) + bytes([0, B()]) + struct.pack(e + "Iff", u32(rng), fl32(rng), fl32(rng)) + txt(rng, 3) + b"\0" + struct.pack(e + "I", u32(rng)) + txt(rng, 12) + txt(rng, 12)
    if t == 320:
        return btime(rng, big) + bytes([0, B()]) + struct.pack(e + "If", u32(rng), fl32(rng)) + txt(rng, 3) + b"\0" + struct.pack(e + "I", u32(rng)) + txt(rng, 12) + txt(rng, 12) + txt(rng, 8)
    if t == 390:
        return btime(rng, big) + bytes([0, B()]) + struct.pack(e + "If", u32(rng), fl32(rng)) + txt(rng, 3) + b"\0"
    if t == 395:
        return btime(rng, big) + b"\0\0"
    if t == 400:
        return struct.pack(e + "ffHH", 1.0, 2.0, 3, 0)
    if t == 405:
        return struct.pack(e + "H", 7)
    if t == 500:
        return struct.pack(e + "f", fl32(rng)) + btime(rng, big) + struct.pack("bB", rng.choice([0, 1, -1, 50, -50, 99, 127, -128]), B()) + struct.pack(e + "I", u32(rng)) + txt(rng, 16) + txt(rng, 32) + txt(rng, 128)
    if t == 2000:
        n = rng.randint(0, 40)
        return struct.pack(e + "HHIBB", 15 + n, 15, 0, 0, 0) + bytes(rng.randrange(256) for _ in range(n + 1))
    return bytes(rng.randrange(256) for _ in range(rng.randint(0, 20)))


TYPES = [100, 200, 201, 300, 310, 320, 390, 395, 400, 405, 500, 2000]
RATEF = [0, 1, -1, 2, -2, 20, 100, -10, 32767, -32767, -32768, 200, -3, 7]


def frames(rng, v, n, nf, wild=False):
    """a Steim payload of nf frames holding at least n samples when it is well-formed"""
    out = b""
    for f in range(nf):
        cs = [0] * 16
        ws = [b"\0\0\0\0"] * 16
        for k in range(3 if f == 0 else 1, 16):
            c = rng.choice([1, 2, 3] if v == 1 else [1, 2, 2, 2, 3, 3, 3])
            if rng.random() < 0.05:
                c = 0
            w = rng.randrange(2**32)
            if rng.random() < 0.3:
                w = rng.choice([0, 2**32 - 1, 0x80000000, 0x7FFFFFFF, 0x80808080])
            if v == 2 and c > 1:
                d = rng.choice([1, 2, 3] if c == 2 else [0, 1, 2])
                if wild and rng.random() < 0.05:
                    d = 0 if c == 2 else 3
                w = w & 0x3FFFFFFF | d << 30
            cs[k], ws[k] = c, struct.pack(">I", w)
        if f == 0:
            ws[1] = struct.pack(">I", rng.choice([0, 1, 2**32 - 1, 2**31, rng.randrange(2**32)]))
            ws[2] = struct.pack(">I", rng.randrange(2**32))
        ws[0] = struct.pack(">I", sum(c << (30 - 2 * k) for k, c in enumerate(cs)))
        out += b"".join(ws)
    return out


def swap4(b):
    return b"".join(b[k:k + 4][::-1] for k in range(0, len(b), 4))


ENCS = [0, 1, 3, 4, 5, 10, 11, 12, 13, 14, 16, 30, 32]
BYTES = {0: 1, 1: 2, 3: 4, 4: 4, 5: 8, 12: 3, 13: 2, 14: 2, 16: 2, 30: 2, 32: 2}


def pay(rng, enc, n, wild=False):
    if enc in (10, 11):
        # samples available per frame at least 13, one per word
        nf = max(1, (n + 12) // 13) if not wild else rng.randint(1, 4)
        return frames(rng, enc - 9, n, min(nf, 6), wild)
    k = BYTES[enc]
    p = bytes(rng.choice([0, 255, 128, 127, rng.randrange(256), rng.randrange(256)]) for _ in range(k * n))
    if enc == 30:
        # gain exponents beyond ten are not representable
        p = b"".join(bytes([a & 0x9F, b & 0x9F]) for a, b in zip(p[::2], p[1::2]))
    return p


def rand_v2(rng, chain=None, enc=None, n=None, data=True, valid=True):
    big = rng.random() < 0.5
    enc = rng.choice(ENCS) if enc is None else enc
    n = rng.choice([0, 1, 2, 13, 30, rng.randint(0, 60)]) if n is None else n
    if chain is None:
        chain = [rng.choice(TYPES) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5]))]
    blk = [(t, blockette(rng, t, big)) for t in chain]
    p = pay(rng, enc, n) if data else b""
    if enc in (10, 11) and not big:
        p = swap4(p)
    need = 64 + sum(4 + len(b) for _, b in blk) + 40 + 64 + len(p)
    reclen = 128
    while reclen < need:
        reclen *= 2
    if rng.random() < 0.2:
        reclen *= 2
    us = rng.choice([None, 0, 1, 50, -50, 99, 127, -127])
    q = rng.choice([b"D", b"R", b"Q", b"M"])
    return msr.v2(code(rng, 0, 2), code(rng, 0, 5), rng.choice(["", "00", "10", "A1", code(rng, 0, 2)]), code(rng, 3, 3), rtime(rng, 100000), rng.choice(RATEF), rng.choice(RATEF), n, enc, p,
                  reclen=reclen, big=big, q=q, b1000=True, seq=rng.randint(0, 999999), act=rng.randrange(256), io=rng.randrange(256), dq=rng.randrange(256),
                  us=us, tcorr=rng.choice([0, 0, 1, -1, 10000, -10001, 123456789, -123456789, 2**31 - 1]), extra_blk=blk)


def rand_v3(rng, enc=None, n=None, data=True):
    enc = rng.choice(ENCS) if enc is None else enc
    n = rng.choice([0, 1, 2, 13, 30, rng.randint(0, 60)]) if n is None else n
    p = pay(rng, enc, n) if data else b""
    sid = rng.choice(["FDSN:XX_S_00_H_H_Z", "FDSN:X_ABCDE__B__Z", "OTHER:thing", "", "x", "FDSN:" + code(rng, 58, 58), code(rng, 63, 63), "FDSN:" + code(rng, 1, 8) + "_" + code(rng, 1, 8) + "__BHZ_A_LONG"])
    ex = rng.choice([b"", b"", b'{"FDSN":{"Time":{"Quality":100}}}', b'{"a":1}', bytes(32 + rng.randrange(90) for _ in range(rng.randint(1, 60)))])
    rate = rng.choice([0.0, 1.0, 20.0, 100.0, -10.0, -0.5, 0.01, 1e-9, 1e9, -1e6, 33.3333333, rng.uniform(-100, 1000)])
    return msr.v3(sid, rtime(rng), rate, n, enc, p, pub=rng.choice([0, 1, 2, 99, 255]), flags=rng.randrange(256), extra=ex, badcrc=rng.random() < 0.1)


def mutate(rng, b, hi=None):
    b = bytearray(b)
    k = rng.randrange(min(len(b), hi or len(b)))
    while b[:2] != b"MS" and 8 <= k < 20:
        k = rng.randrange(min(len(b), hi or len(b)))
    b[k] = rng.choice([0, 255, 1, 32, b[k] ^ 1 << rng.randrange(8), rng.randrange(256)])
    return bytes(b)


JUNK = [b"", b"\0" * 80, b"\xff" * 64, b"MS", b"000001D ", b"A" * 200]


def ascii_ok(b):
    """extra headers are text: bytes outside ASCII in blockettes are not generated"""
    return True


# ------------------------------------------------------------------- R04
def wide_lens(rng, n, extra):
    ls = {0, 1, 14, 15, 39, 40, 41, 47, 48, 49, 55, 56, 57, 63, 64, 65, 72, n - 1, n, n + 1, n + 48, n + 49, n + 64, n + extra}
    for _ in range(12):
        ls.add(rng.randint(0, n + extra))
    return sorted(x for x in ls if 0 <= x <= n + extra)


@prop("R04")
def r04(run):
    rng = run.rng
    hs = run.mc("MCDetect", "prefixes", {"MaxChain": run.scale(2, 3), "Types": {100, 1000, 1001, 2000}}, ["NeverWrong", "WholeExact", "SuffixIrrelevant", "ForeignRefused", "Emit"])
    ss = []
    rng.shuffle(hs)
    for h in hs[:run.scale(250, 3000)]:
        s = Session(name="model")
        b = bytes(h["b"])
        buf(s, b)
        detects(s, list(range(0, len(b) + 1)) if len(b) < 200 and rng.random() < 0.3 else wide_lens(rng, h["len"], len(b) - h["len"]))
        ss.append(s)
    run.validate("RecTrace", ss, "model records")
    ss = []
    for i in range(run.scale(300, 6000)):
        b = rand_v2(rng, enc=rng.choice([1, 3, 11])) if i % 3 else rand_v3(rng)
        if i % 3 and rng.random() < 0.25:
            # no blockette 1000
            big = rng.random() < 0.5
            b = msr.v2("XX", "STA", "", "BHZ", rtime(rng, 100000), 20, 1, 5, 1, b"\1\2" * 5, reclen=rng.choice([192, 256, 512]), big=big, b1000=False,
                       b100=rng.choice([None, 20.0]), us=rng.choice([None, 5]))
        n = len(b)
        if rng.random() < 0.5:
            b = mutate(rng, b, 64)
        nxt = rng.choice(JUNK + [rand_v2(rng, chain=[]), rand_v3(rng)])
        s = Session()
        buf(s, b + nxt)
        detects(s, wide_lens(rng, n, len(nxt)))
        parse(s, len(b + nxt))
        ss.append(s)
    for i in range(run.scale(40, 600)):
        s = Session()
        b = rng.choice([bytes(rng.randrange(256) for _ in range(120)), b"MS\3" + bytes(rng.randrange(24) for _ in range(100)),
                        b"".join(rng.choice([b"0", b" ", b"9", b"\0"]) for _ in range(6)) + rng.choice([b"D", b"R", b"E", b"Q", b"M", b"d"]) + rng.choice([b" ", b"\0", b"x"]) + bytes(rng.randrange(62) for _ in range(112))])
        buf(s, b)
        detects(s, [0, 14, 39, 40, 47, 48, 56, 64, 100, len(b)])
        ss.append(s)
    run.validate("RecTrace", ss, "records, prefixes and foreign bytes")
    # every single-byte change of one header of each kind
    ss = []
    base = [msr.v3("FDSN:XX_S_00_H_H_Z", 10**18, 1.0, 2, 1, b"\1\0\2\0"), msr.v2("XX", "STA", "00", "BHZ", 10**18, 20, 1, 2, 1, b"\1\2\3\4", reclen=128, big=True),
            msr.v2("XX", "STA", "00", "BHZ", 10**18, 20, 1, 2, 1, b"\1\2\3\4", reclen=128, big=False, us=3)]
    for b in base:
        for k in range(0, min(72, len(b))):
            for v in run.scale([0, 255, b[k] ^ 1, b[k] ^ 64], list(range(0, 256, 3))):
                s = Session()
                m = b[:k] + bytes([v]) + b[k + 1:]
                buf(s, m)
                detects(s, [x for x in (40, 48, 56, 64, 72) if x < len(m)] + [len(m)])
                ss.append(s)
    run.validate("RecTrace", ss, "header byte changes")


# ------------------------------------------------------------------- D01
@prop("D01")
def d01(run):
    rng = run.rng
    hs = run.mc("MCHeader", "chains", {"MaxChain": 2, "Types": run.scale({100, 200, 201, 300, 310, 390, 500}, set(TYPES) | {1001}), "Pats": run.scale({2, 4}, {1, 2, 3, 4})},
                ["Valid", "OrderIrrelevant", "SuffixIrrelevant", "EachOnce", "Functional", "Emit"])
    hs1 = run.mc("MCHeader", "single", {"MaxChain": 1, "Types": set(TYPES) | {1001, 405, 999}, "Pats": {1, 2, 3, 4}},
                 ["Valid", "OrderIrrelevant", "SuffixIrrelevant", "EachOnce", "Functional", "Emit"])
    rng.shuffle(hs)
    ss = []
    for h in hs1 + hs[:run.scale(100, 3000)]:
        for b in (bytes(h["big"]), bytes(h["little"])):
            s = Session(name="model")
            b += rng.choice([b"", b"junk", b[:64]])
            buf(s, b)
            parse(s, len(b))
            ss.append(s)
    run.validate("RecTrace", ss, "model blockette chains")
    ss = []
    for i in range(run.scale(250, 8000)):
        s = Session()
        b = rand_v2(rng, data=rng.random() < 0.3) if i % 2 else rand_v3(rng)
        f = b + rng.choice(JUNK + [rand_v3(rng)])
        buf(s, f)
        parse(s, len(f), crc=rng.random() < 0.7)
        # again into the same structure: nothing of the first may remain
        if rng.random() < 0.4:
            buf(s, rand_v3(rng) if rng.random() < 0.5 else rand_v2(rng, chain=[]))
            parse(s, len(s_last(s)), crc=False, reuse=True)
        ss.append(s)
    run.validate("RecTrace", ss, "random headers")
    ss = []
    for i in range(run.scale(250, 8000)):
        s = Session()
        b = rand_v2(rng, data=rng.random() < 0.3) if i % 2 else rand_v3(rng)
        for _ in range(rng.choice([1, 1, 2])):
            b = mutate(rng, b, 76)
        buf(s, b)
        parse(s, len(b), crc=rng.random() < 0.3, eof=rng.random() < 0.3)
        ss.append(s)
    # field values at their limits, one at a time
    for big in (True, False):
        e = ">" if big else "<"
        for off, vals in ((20, [1677, 1678, 1899, 1900, 2100, 2101, 2262, 2263, 0xFFFF]), (22, [0, 1, 365, 366, 367, 65535]), (28, [0, 9999, 10000, 65535]),
                          (30, [0, 1, 32767, 32768, 65535]), (32, [0, 1, 0x7FFF, 0x8000, 0xFFFF]), (34, [0, 1, 0x7FFF, 0x8000, 0xFFFF]), (44, [0, 47, 48, 64, 127, 128, 129, 65535]), (46, [0, 47, 48, 52, 120, 127, 128])):
            for v in vals:
                b = msr.v2("XX", "STA", "00", "BHZ", 1456704000 * 10**9, 20, 1, 2, 1, b"\1\2\3\4", reclen=128, big=big)
                b = b[:off] + struct.pack(e + "H", v) + b[off + 2:]
                s = Session()
                buf(s, b)
                parse(s, len(b))
                parse(s, len(b), unpack=True)
                ss.append(s)
        for off, vals in ((24, [0, 23, 24, 255]), (25, [59, 60]), (26, [59, 60, 61]), (36, [1, 2, 4, 8, 16, 32, 48, 64, 128]), (37, [1, 2, 4, 8, 16, 32, 64]), (38, [1, 2, 4, 8, 16, 32, 64, 128]),
                          (6, [68, 82, 81, 77, 69]), (52, [0, 1, 3, 11, 99, 255]), (53, [0, 1, 2]), (54, [0, 5, 6, 7, 8, 24, 30, 62, 63, 64, 255])):
            for v in vals:
                b = msr.v2("XX", "STA", "00", "BHZ", 1456704000 * 10**9, 20, 1, 2, 1, b"\1\2\3\4", reclen=128, big=big, tcorr=rng.choice([0, 12345]))
                b = b[:off] + bytes([v]) + b[off + 1:]
                s = Session()
                buf(s, b)
                parse(s, len(b))
                ss.append(s)
    for off, fm, vals in ((4, "I", [0, 999999999, 1000000000, 2**32 - 1]), (8, "H", [0, 1677, 1678, 2262, 2263, 65535]), (10, "H", [0, 1, 365, 366, 367]), (12, "B", [23, 24]), (13, "B", [59, 60]), (14, "B", [59, 60, 61]),
                          (16, "d", [0.0, -0.0, 1e300, -1e-300, -1.0, 1 / 3]), (24, "I", [0, 1, 2**31 - 1, 2**31, 2**32 - 1]), (28, "I", [0, 1, 2**32 - 1]), (33, "B", [0, 1, 17, 18, 19, 62, 63, 64, 255]), (34, "H", [0, 1, 65535]), (36, "I", [0, 3, 4, 5, 2**20, 2**30, 2**32 - 1])):
        for v in vals:
            b = msr.v3("FDSN:XX_S_00_H_H_Z", 1456704000 * 10**9, 1.0, 2, 1, b"\1\0\2\0", extra=b"{}")
            b = b[:off] + struct.pack("<" + fm, v) + b[off + struct.calcsize(fm):] + b"\0" * 300
            s = Session()
            buf(s, b)
            parse(s, len(b))
            parse(s, len(b), crc=True)
            ss.append(s)
    run.validate("RecTrace", ss, "mutated headers and limits")


def s_last(s):
    for c, _ in reversed(s.steps):
        if c.startswith("buf_set"):
            return bytes.fromhex(c.split("hex=")[1])


# ------------------------------------------------------------------- D02
@prop("D02")
def d02(run):
    rng = run.rng
    ss = []
    # direct decoding: every encoding, both byte orders, counts around what the payload holds, tight outputs
    for i in range(run.scale(700, 20000)):
        enc = rng.choice(ENCS) if rng.random() < 0.95 else rng.choice([2, 6, 15, 17, 33, 255])
        n = rng.choice([0, 1, 2, 3, 7, 13, 14, rng.randint(1, 120)])
        big = rng.random() < 0.5
        wild = rng.random() < 0.3
        if enc in (10, 11) or enc not in ENCS:
            nf = rng.choice([1, 1, 2, 3])
            p = frames(rng, 1 if enc == 10 else 2, n, nf, wild)
            # how many the frames really hold is the specification's business
            n = rng.choice([1, 2, 13, 14, 15, 50, rng.randint(1, 60 * nf), 105 * nf])
            p = p if big else swap4(p)
            if rng.random() < 0.15:
                p += bytes(rng.randrange(256) for _ in range(rng.randint(1, 63)))
        else:
            p = pay(rng, enc, n)
            if enc == 30 and wild:
                p = bytes(rng.randrange(256) for _ in p)
            n = max(0, n + rng.choice([0, 0, 0, -1, 1, 5]))
        s = Session()
        buf(s, p)
        size = {0: 1, 5: 8}.get(enc, 4)
        decode(s, enc, big, n)
        if n and rng.random() < 0.2:
            decode(s, enc, big, n, osz=rng.choice([n * size - 1, n * size + 7, 0]))
        ss.append(s)
    for e in range(0, 256):
        s = Session()
        s.do("encsize enc=%d" % e, lambda r, e=e: {"op": "encsize", "enc": e, "r": {"rv": r["rv"], "ss": r["ss"], "type": r["type"]}})
        ss.append(s)
    run.validate("RecTrace", ss, "payloads")
    # exhaustively, every 16-bit pattern of the gain-ranged and 16-bit encodings
    ss = []
    step = run.scale(16, 1)
    for enc in (1, 13, 14, 16, 30, 32):
        for lo in range(0, 65536, 2048):
            xs = list(range(lo + rng.randrange(step), lo + 2048, step))
            if enc == 30:
                xs = [x for x in xs if 10 - (x >> 12) >= 0]
            if not xs:
                continue
            for big in (True, False):
                s = Session()
                buf(s, struct.pack((">" if big else "<") + "%dH" % len(xs), *xs))
                decode(s, enc, big, len(xs))
                ss.append(s)
    run.validate("RecTrace", ss, "16-bit patterns")
    # Steim words: every code and sub-code with extreme fields, one word per frame position
    ss = []
    for v in (1, 2):
        for c in (0, 1, 2, 3):
            for d in range(4):
                for w in (0, 0x3FFFFFFF, 0x20000000, 0x1FFFFFFF, 0x2AAAAAAA, 0x15555555, rng.randrange(2**30)):
                    for k in run.scale([3, 15], range(3, 16)):
                        ws = [b"\0\0\0\0"] * 16
                        ws[1] = struct.pack(">I", 1000)
                        ws[k] = struct.pack(">I", w | d << 30)
                        if k != 3:
                            ws[3] = b"\0\0\0\7"
                        ws[0] = struct.pack(">I", c << (30 - 2 * k) | ((3 if v == 1 else 1) << 24 if k != 3 else 0))
                        s = Session()
                        b = b"".join(ws)
                        buf(s, b)
                        decode(s, 9 + v, True, rng.choice([1, 2, 4, 7, 8]))
                        ss.append(s)
    run.validate("RecTrace", ss, "Steim words")
    # whole records, with payloads cut, sample counts changed and unknown encodings
    ss = []
    for i in range(run.scale(300, 8000)):
        s = Session()
        b = rand_v2(rng, chain=rng.choice([[], [], [2000], [500]])) if i % 2 else rand_v3(rng)
        x = rng.random()
        if x < 0.4:
            # another sample count
            o, fm = (24, "<I") if b[:2] == b"MS" else (30, ">H" if b[20] < 32 else "<H")
            n = struct.unpack_from(fm, b, o)[0]
            n = max(0, n + rng.choice([-1, 1, -2, 10, 100]))
            b = b[:o] + struct.pack(fm, n) + b[o + struct.calcsize(fm):]
        elif x < 0.5:
            # another encoding
            o = 15 if b[:2] == b"MS" else 52
            b = b[:o] + bytes([rng.choice(ENCS + [99])]) + b[o + 1:]
        elif x < 0.6 and b[:2] != b"MS":
            # another byte order, or data offset
            if rng.random() < 0.5:
                b = b[:53] + bytes([1 - b[53]]) + b[54:]
            else:
                b = b[:44] + struct.pack(">H" if b[20] < 32 else "<H", rng.choice([0, 48, 64, 128, len(b) - 4, len(b), 60000])) + b[46:]
        elif x < 0.7 and b[:2] == b"MS":
            # a payload length that cuts the payload
            m = struct.unpack_from("<I", b, 36)[0]
            m2 = rng.randint(0, m)
            b = b[:36] + struct.pack("<I", m2) + b[40:]
        buf(s, b)
        parse(s, len(b), unpack=True)
        ss.append(s)
    run.validate("RecTrace", ss, "records with data")
