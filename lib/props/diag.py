"""D03: the diagnosis of raw headers, from the library and in the listing of the command."""
import re, struct
import msr
from core import *
from props import prop
from props import rec

F32 = {"actual sample rate", "signal amplitude", "signal period", "background estimate", "beam azimuth (degrees)", "beam slowness (sec/degree)", "VCO correction", "peak-to-peak amplitude"}
W32 = {"number of samples", "calibration duration", "step duration", "interval duration", "reference amplitude", "exception count", "record number", "time correction", "length of data payload"}
TEXT = {"detector name", "input signal channel", "coupling", "rolloff", "noise type", "exception type", "clock model", "clock status", "headers"}
QUOTED = {"record indicator", "sequence number", "data quality indicator", "reserved", "station code", "location ID", "channel codes", "network code"}


def word(n):
    n %= 1 << 32
    return [n >> 16, n & 65535]


def lines(out):
    """the fields listed: a label and its value as numbers, words or characters"""
    ls = []
    after = False
    for ln in out.decode("latin-1").split("\n"):
        t = ln.strip(" ")
        if after and not t.startswith("RECORD -- ") and "wapping multi-byte" not in t:
            if t == "[buffer does not contain extra headers]":
                ls.append({"l": t, "v": []})
            continue
        after = False
        if not t or t.startswith("[Bits "):
            continue
        if t.startswith("RECORD -- "):
            ls.append({"l": "RECORD", "v": [ord(c) for c in ln[10:]]})
            continue
        if t.startswith("[Bit ") or t.endswith("in header"):
            ls.append({"l": t, "v": []})
            continue
        label, _, v = ln.partition(": ") if ": " in ln else (ln.rstrip(":"), "", "")
        label = label.strip()
        if label.startswith("BLOCKETTE "):
            k, name = re.match(r"BLOCKETTE (\d+)", label), re.match(r"\((.*)\)$", v)
            ls.append({"l": "BLOCKETTE " + name.group(1), "v": [int(k.group(1))]})
        elif label == "extra headers":
            ls.append({"l": label, "v": []})
            after = True
        elif label in QUOTED:
            ls.append({"l": label, "v": [ord(c) for c in v[1:-1]]})
        elif label in TEXT:
            ls.append({"l": label, "v": [ord(c) for c in v]})
        elif label == "start time" and re.search(r"\.\d{9,}$", v):
            x = [int(k) for k in re.findall(r"\d+", v)]
            ls.append({"l": label, "v": x[:5] + word(x[5])})
        elif label == "CRC":
            ls.append({"l": label, "v": word(int(v, 16))})
        elif label == "sample rate+/period-":
            ls.append({"l": label, "v": list(struct.unpack(">4H", struct.pack(">d", float(v))))})
        elif label in F32:
            ls.append({"l": label, "v": list(struct.unpack(">2H", struct.pack(">f", float(v.rstrip("%")))))})
        elif label in W32:
            ls.append({"l": label, "v": word(int(v))})
        elif re.search(r"\[[01]{8}\] 8 bits$", v):
            ls.append({"l": label, "v": [int(v[1:9], 2)]})
        elif label == "sample rate factor":
            ls.append({"l": label, "v": [int(v.split()[0])]})
        elif label == "byte order":
            ls.append({"l": "byte order " + v[:v.index(" (")], "v": [int(re.search(r"val:(\d+)", v).group(1))]})
        elif label == "encoding":
            ls.append({"l": label, "v": [int(re.search(r"val:(\d+)\)$", v).group(1))]})
        else:
            ls.append({"l": label, "v": [int(x) for x in re.findall(r"-?\d+", v)]})
    return ls


def raw(s, b, ver, d, sw=-1, exact=False):
    """one diagnosis; exact: numbers and texts made to survive the listing"""
    if not exact and 10 in b:
        d = 0  # a line end within a text cannot be told from the end of a line
    rec.buf(s, b)
    # lines past the room of a message are cut short: not looked at
    s.do("rawparse b=0 fmt=%d d=%d sw=%d" % (ver, d, sw),
         lambda r: None if max(map(len, bytes.fromhex(r["out"]).split(b"\n"))) > 190 else {"op": "raw", "ver": ver, "d": d, "sw": sw, "exact": exact, "rv": r["rv"], "told": r["told"], "ls": lines(bytes.fromhex(r["out"])) if d else []})


def exact(rng):
    """floats that six digits tell exactly"""
    return rng.choice([0.0, 1.0, -1.5, 0.1, 1e-9, 3.4e38, 123457.0, -99999.5, float("%.5g" % rng.uniform(-1e6, 1e6))])


def opaque(rng, big):
    e = ">" if big else "<"
    n = rng.choice([0, 1, 5, 40, 81])
    do = rng.choice([15, 15 + n // 2, 15 + n, 16 + n, 14, 0, 65535])
    return struct.pack(e + "HHIBBB", 15 + n, do, rec.u32(rng), rng.choice([0, 1, 9]), rng.randrange(256), n & 255) + bytes(33 + rng.randrange(90) for _ in range(n))


def good2(rng):
    chain = [rng.choice(rec.TYPES) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    old = rec.blockette
    rec.blockette = lambda rg, t, big: opaque(rg, big) if t == 2000 else old(rg, t, big)
    try:
        return rec.rand_v2(rng, chain)
    finally:
        rec.blockette = old


# where a field of a header can be made wrong: offset and values (a version 2 word in both orders)
def spoil2(rng, b):
    b = bytearray(b)
    k = rng.choice(["seq", "q", "res", "code", "year", "day", "h", "m", "s", "f", "ns", "nb", "do", "bo"])
    big = not (1900 <= b[20] + 256 * b[21] <= 2100 and 1 <= b[22] + 256 * b[23] <= 366)
    P = lambda o, v: b.__setitem__(slice(o, o + 2), struct.pack(">H" if big else "<H", v))
    if k == "seq":
        b[rng.randrange(6)] = rng.choice(b" ABz/:")
    elif k == "q":
        b[6] = rng.choice(b"XENP DRQM")
    elif k == "res":
        b[7] = rng.choice(b"0x ")
    elif k == "code":
        b[rng.randrange(8, 20)] = rng.choice(b"-_*?.:/@[`{az09 AZ")
    elif k == "year":
        P(20, rng.choice([1899, 1900, 2100, 2101, 3000]))
    elif k == "day":
        P(22, rng.choice([0, 1, 366, 367, 5000]))
    elif k in "hms":
        b[{"h": 24, "m": 25, "s": 26}[k]] = rng.choice([0, 23, 24, 59, 60, 61, 255])
    elif k == "f":
        P(28, rng.choice([0, 9999, 10000, 65535]))
    elif k == "ns":
        P(30, rng.choice([0, 1, 20000, 20001, 65535]))
    elif k == "nb":
        b[39] = rng.choice([0, b[39] + 1 & 255, max(b[39] - 1, 0), 200])
    elif k == "do":
        P(44, rng.choice([rng.randrange(48, 160), 0, 1, 40, 47, 48, 49, 56, 64, 70, 128, len(b) - 1, len(b), len(b) + 1, 40000]))
    else:
        P(46, rng.choice([0, 1, 46, 47, 48, 50, 64, len(b) - 5, len(b) - 4, len(b) - 1, len(b), len(b) + 1, 60000]))
    return bytes(b)


def spoil_chain(rng, b):
    """a pointer, type, length or field of a blockette made wrong"""
    b = bytearray(b)
    big = not (1900 <= b[20] + 256 * b[21] <= 2100 and 1 <= b[22] + 256 * b[23] <= 366)
    e = ">H" if big else "<H"
    at, o = [], struct.unpack(e, b[46:48])[0]
    while 48 <= o <= len(b) - 4 and o not in at:
        at.append(o)
        o = struct.unpack(e, b[o + 2:o + 4])[0]
    if not at:
        return bytes(b)
    o = rng.choice(at)
    k = rng.randrange(4)
    if k == 0:
        b[o + 2:o + 4] = struct.pack(e, rng.choice([0, o, o + 1, o + 3, o + 4, o + 8, o - 1, 48, len(b) - 1, len(b) - 3, len(b) - 4, len(b), len(b) + 1, 65535]))
    elif k == 1:
        b[o:o + 2] = struct.pack(e, rng.choice([0, 7, 99, 100, 405, 500, 1000, 1001, 2000, 65535]))
    elif k == 2 and o + 8 <= len(b):
        b[o + rng.choice([4, 5, 6])] = rng.choice([0, 1, 2, 5, 6, 9, 10, 19, 20, 30, 31, 33, 34, 255])
    elif o + 6 <= len(b):
        b[o + 4:o + 6] = struct.pack(e, rng.choice([0, 1, 4, 14, 15, 16, 60, 150, 65535]))
    return bytes(b)


def spoil3(rng, b):
    b = bytearray(b)
    k = rng.randrange(9)
    if k == 0:
        b[rng.randrange(3)] = rng.choice(b"MSXsm\2\3\4")
    elif k == 1:
        b[8:10] = struct.pack("<H", rng.choice([1899, 1900, 2100, 2101, 0, 65535]))
    elif k == 2:
        b[10:12] = struct.pack("<H", rng.choice([0, 1, 366, 367, 65535]))
    elif k < 6:
        b[9 + k] = rng.choice([0, 23, 24, 59, 60, 61, 255])
    elif k == 6:
        b[4:8] = struct.pack("<I", rng.choice([0, 999999999, 1000000000, 2**32 - 1]))
    elif k == 7:
        b[33] = rng.choice([0, 3, 4, 5, 255])
    else:
        b[34:36] = struct.pack("<H", rng.choice([0, 1, 65535]))
    return bytes(b)


@prop("D03")
def d03(run):
    rng = run.rng
    rec.fl32 = exact
    hs = run.mc("MCDiag", "chains", {"MaxChain": run.scale(2, 3), "Kinds": {"rate", "whole", "longexp", "opaque", "opaque0", "opaque14", "opaque200", "delay", "other"}}, ["Told", "SameCount", "OrderMatters", "Emit"])
    ss = []
    rng.shuffle(hs)
    if run.tier == "quick":
        hs = hs[:9000]
    for i in range(0, len(hs), 8):
        s = Session()
        for h in hs[i:i + 8]:
            raw(s, bytes(h["b"]), 2, rng.choice([0, 0, 1, 2]), rng.choice([-1, -1, 0, 1]))
        ss.append(s)
    run.validate("DiagTrace", ss, "chains of the model")
    ss = []
    for i in range(run.scale(1500, 15000)):
        s = Session()
        b = good2(rng)
        raw(s, b, 2, rng.randrange(3), -1, True)
        for _ in range(2):
            c = b
            for _ in range(rng.randint(1, 3)):
                c = rng.choice([spoil2, spoil_chain, spoil_chain])(rng, c)
            if rng.random() < .3:
                c = c[:rng.choice([47, 48, 52, 56, 63, 64, rng.randrange(40, len(c))])]
            raw(s, c, 2, rng.choice([0, 1, 1, 2]), rng.choice([-1, -1, 0, 1]))
        c = rec.mutate(rng, rec.mutate(rng, b))
        raw(s, c, 2, 0, rng.choice([-1, 0, 1]))
        ss.append(s)
    run.validate("DiagTrace", ss, "version 2 headers")
    ss = []
    for i in range(run.scale(700, 7000)):
        s = Session()
        b = rec.rand_v3(rng)
        b = b[:16] + struct.pack("<d", rng.choice([0.0, 1.0, 100.0, -10.0, 0.01, 1e-9, float("%.5g" % rng.uniform(-100, 1e4))])) + b[24:]
        raw(s, b, 3, rng.randrange(3))
        c = b
        for _ in range(rng.randint(1, 3)):
            c = spoil3(rng, c)
        if rng.random() < .4:
            c = c[:rng.choice([39, 40, 44, rng.randrange(30, len(c))])]
        # identifiers of other bytes cannot be told from line ends
        d = rng.randrange(3) if c[33:34] and all(32 <= x < 127 for x in c[40:40 + c[33]]) else 0
        raw(s, c, 3, d)
        raw(s, rec.mutate(rng, rec.mutate(rng, b, 40), 40), 3, 0)
        ss.append(s)
    run.validate("DiagTrace", ss, "version 3 headers")
    # the command lists the same fields
    ss = []
    for i in range(run.scale(60, 600)):
        s = Session()
        recs = []
        for _ in range(rng.randint(1, 4)):
            v = rng.random() < .5
            b = msr.v3("FDSN:XX_STA__B_H_Z", rec.rtime(rng), rng.choice([1.0, 20.0, -10.0]), 2, 3, b"\1\2\3\4\5\6\7\0", flags=rng.randrange(256), extra=rng.choice([b"", b'{"a":{"b":1}}'])) if v else good2(rng)
            recs.append(b)
        d = rng.randrange(3)
        nm = "d%d" % i
        s.do("buf_set b=0 hex=%s" % b"".join(recs).hex())
        s.do("buf_file b=0 path=%s" % hx(nm))
        s.do("msi a=%s" % ",".join(hx(a) for a in ["-z"] + ["-" + "p" * d] * (d > 0) + [nm]),
             lambda r, recs=recs, d=d: {"op": "listed", "d": d, "recs": [list(x) for x in recs], "vers": [3 if x[:2] == b"MS" else 2 for x in recs], "rv": r["exit"], "ls": lines(bytes.fromhex(r["out"]))})
        ss.append(s)
    run.validate("DiagTrace", ss, "listing of the command")
