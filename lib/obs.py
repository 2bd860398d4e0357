"""Projection of recorder answers about records into specification values."""
import json, struct
from fractions import Fraction
from core import codes

CLS = {0: "ok", 1: "eof", -2: "notseed", -3: "length", -4: "range", -5: "unknown", -7: "crc"}


def cls(rv):
    return CLS.get(rv, "need" if rv > 0 else "err")


def word(i):
    i &= 0xFFFFFFFF
    return [i >> 16, i & 65535]


def hexwords(h):
    return [int(h[k:k + 4], 16) for k in range(0, len(h), 4)]


def f32words(v):
    try:
        b = struct.pack(">f", v)
    except OverflowError:
        return [-1, -1]
    return [b[0] << 8 | b[1], b[2] << 8 | b[3]]


def instant(ns):
    d, r = divmod(ns, 86400 * 10**9)
    if abs(d) > 2 * 10**9:
        return [-1, -1, -1]
    return [d, r // 10**9, r % 10**9]


def frac(hz):
    """a rate as the reduced fraction it is the double of, when there is one with small terms"""
    if hz != hz or hz in (float("inf"), float("-inf")):
        return [-1, -1]
    if hz == 0:
        return [0, 1]
    f = Fraction(hz)
    for g, up in ((f, False), (1 / f, True)):
        g = g.limit_denominator(32768)
        if g == 0:
            continue
        g = 1 / g if up else g
        if g != 0 and abs(g - f) <= abs(f) * Fraction(1, 10**12) and g.denominator < 2**31 and abs(g.numerator) < 2**31:
            return [g.numerator, g.denominator]
    return [-1, -1]


def samples(ty, data, enc=-1):
    """decoded samples as word tuples; the gain-ranged encodings by value"""
    if ty == "t":
        return [[x] for x in codes(data)] if isinstance(data, str) else []
    if ty == "i":
        return [word(x) for x in data]
    if ty == "f" and enc in (12, 13, 14):
        out = []
        for h in data:
            v = struct.unpack(">f", bytes.fromhex(h))[0] * (1 if enc == 12 else 32768)
            out.append(word(int(v)) if v == int(v) else [-1, -1])
        return out
    return [hexwords(h) for h in data]


def value(v):
    if isinstance(v, bool):
        return {"k": "b", "v": v}
    if isinstance(v, (int, float)):
        m = round(v * 10000) if abs(v) < 1e15 else 2**40
        ok = abs(v * 10000 - m) < 1e-3 and abs(m) < 2**32
        return {"k": "n", "neg": v < 0, "i": word(int(v)) if v == int(v) and abs(v) < 2**32 else [-1, -1],
                "m": word(m) if ok else [-1, -1], "f": f32words(v)}
    if isinstance(v, str):
        return {"k": "s", "v": [ord(c) for c in v]}
    return {"k": "?"}


def flatten(o, path=""):
    if isinstance(o, dict):
        r = []
        for k, v in o.items():
            r += flatten(v, path + "/" + k)
        return r
    if isinstance(o, list):
        r = []
        for k, v in enumerate(o):
            r += flatten(v, "%s/%d" % (path, k))
        return r
    return [[path, value(o)]]


def nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError("member twice: " + k)
        d[k] = v
    return d


def extras(hexs):
    b = bytes.fromhex(hexs)
    if not b:
        return []
    try:
        return flatten(json.loads(b.decode("utf-8"), object_pairs_hook=nodup))
    except ValueError:
        return [["not JSON", {"k": "?"}]]


def rec(r, data=False):
    """the observable fields of a parsed record"""
    rate = struct.unpack(">d", bytes.fromhex(r["rate"]))[0]
    ok = r["fmt"] == 2 and len(r["extra"]) > 0
    o = {"sid": codes(r["sid"]), "fmt": r["fmt"], "flags": r["flags"], "pub": r["pub"], "enc": r["enc"], "cnt": word(r["cnt"]) if 0 <= r["cnt"] < 2**32 else [-1, -1],
         "t": instant(r["st"]), "reclen": r["reclen"], "crc": word(r["crc"]), "dlen": r["datalen"],
         "extra": codes(r["extra"]) if r["fmt"] == 3 else [], "ex": extras(r["extra"]) if ok else [],
         "rate": {"d": hexwords(r["rate"]), "q": frac(rate), "f": f32words(rate) if f32exact(rate) else [-1, -1]}}
    if data:
        o["num"] = r["num"]
        o["type"] = r["type"]
        o["data"] = samples(r["type"], r["data"], r["enc"])
    return o


def f32exact(v):
    try:
        return struct.unpack(">f", struct.pack(">f", v))[0] == v
    except OverflowError:
        return False
