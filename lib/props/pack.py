"""W01, W02, W03, W05: packing, repacking and converting records."""
import datetime, json, math, struct
from fractions import Fraction
import msr, obs
from core import *
from props import prop
from props.rec import buf, rtime, rand_v2, rand_v3, mutate, txt, TYPES, code

FLUSH, V2FLAG = 0x40, 0x80
TEXT, INT16, INT32, FLOAT32, FLOAT64, STEIM1, STEIM2 = 0, 1, 3, 4, 5, 10, 11
NEED = {TEXT: "t", INT16: "i", INT32: "i", FLOAT32: "f", FLOAT64: "d", STEIM1: "i", STEIM2: "i", -1: "i"}
DEFLEN = 4096


def d2h(v): return struct.pack(">d", v).hex()


def rate_of(stored):
    """what the specification needs to know about a stored rate (negative: a period)"""
    hz = -1.0 / stored if stored < 0 else stored
    v3 = -1.0 / stored if 0 < stored < 1 else stored
    return {"d": obs.hexwords(d2h(v3)), "q": obs.frac(hz), "f": obs.f32words(hz)}


RATES = [1.0, 20.0, 100.0, 40.0, 200.0, 250.0, 0.1, 0.05, 0.01, 1 / 3, 1 / 60, 33.3, 99.5, 12.5, 0.4, 2.5, 1000.0, 500.0, 5000.0, 32767.0, 32768.0, 40000.0,
         65536.0, 100000.0, -10.0, -60.0, -1.0, -0.05, -3.0, -0.5, 0.0, 7 / 9, 3.2, 62.5, -100.0, 1e6, 30000.25, 1 / 3600]
BADRATES2 = [40000.5, -50000.5, 32768.5]
SIDS = ["FDSN:XX_STA_00_H_H_Z", "FDSN:IU_ANMO__B_H_1", "FDSN:N_S__L_O_G", "FDSN:NN_STATN_LL_B_H_N"]
SIDS = SIDS[:4]
SIDS2BAD = ["FDSN:NET_STA_00_H_H_Z", "FDSN:XX_STATION_00_H_H_Z", "FDSN:XX_STA_LOC_H_H_Z", "FDSN:XX_STA_00_LONG_H_Z", "XX_STA_00_BHZ", "OTHER:XX_STA_00_H_H_Z", "FDSN:XX_STA_00_H_HZ", "", "FDSN:XX_STA_00_H_H_Z_9", "FDSN:XX_STA___H_", "FDSN:XX_STA_00___Z", "FDSN:_____"]


def words(ty, vals):
    if ty == "t":
        return [[x] for x in vals]
    if ty == "i":
        return [obs.word(x) for x in vals]
    if ty == "f":
        return [obs.hexwords(struct.pack(">f", v).hex()) for v in vals]
    return [obs.hexwords(d2h(v)) for v in vals]


def wire(ty, vals):
    if ty == "t":
        return bytes(vals).hex()
    if ty == "i":
        return ",".join(str(x) for x in vals)
    return ",".join(struct.pack(">f" if ty == "f" else ">d", v).hex() for v in vals)


# ---------------------------------------------------------------- header values a version 2 record carries
FLAGP = ["/FDSN/Event/Begin", "/FDSN/Event/End", "/FDSN/Event/InProgress"] + ["/FDSN/Flags/" + f for f in (
    "StationVolumeParityError", "LongRecordRead", "ShortRecordRead", "StartOfTimeSeries", "EndOfTimeSeries", "AmplifierSaturation", "DigitizerClipping",
    "Spikes", "Glitches", "MissingData", "TelemetrySyncError", "FilterCharging")]


def put_path(o, path, v):
    ks = path.strip("/").split("/")
    for k in ks[:-1]:
        o = o.setdefault(k, {})
    o[ks[-1]] = v


def extras(rng, n=None):
    """(JSON text, values for the specification, data quality's publication version)"""
    o, ex, dq = {}, [], 0
    for p in rng.sample(FLAGP, rng.randint(0, 3) if n is None else n):
        v = rng.random() < 0.8
        put_path(o, p, v)
        ex.append([p, {"k": "b", "v": v}])
    if rng.random() < 0.3:
        v = rng.choice([1, -1])
        put_path(o, "/FDSN/Time/LeapSecond", v)
        ex.append(["/FDSN/Time/LeapSecond", {"k": "i", "v": obs.word(v)}])
    if rng.random() < 0.3:
        v = rng.choice([1, -1, 10000, -10000, 12345, -54321, 5, 2**31 - 1, -2**31, rng.randint(-10**6, 10**6)])
        put_path(o, "/FDSN/Time/Correction", v / 10000)
        ex.append(["/FDSN/Time/Correction", {"k": "m", "v": obs.word(v)}])
    if rng.random() < 0.3:
        v = rng.choice([0, 1, 50, 100, 255, rng.randint(0, 255)])
        put_path(o, "/FDSN/Time/Quality", v)
        ex.append(["/FDSN/Time/Quality", {"k": "i", "v": obs.word(v)}])
    if rng.random() < 0.2:
        q = rng.choice("DRQM")
        put_path(o, "/FDSN/DataQuality", q)
        dq = {"R": 1, "D": 2, "Q": 3, "M": 4}[q]
    if rng.random() < 0.3:
        put_path(o, "/Operator/Note", txt(rng, 9).decode().strip("\0 "))
        put_path(o, "/FDSN/Other", rng.randint(-5, 5))
    if not o:
        return "", [], 0
    return json.dumps(o, separators=rng.choice([(",", ":"), (", ", ": ")])), ex, dq


# ---------------------------------------------------------------- series
LIM = [4, 5, 6, 8, 10, 15, 16, 30, 32]


def series(rng, n, maxbits=32, wrap=False):
    """integers whose differences sit at and around the limits of the encodings"""
    out = [rng.choice([0, 1, -1, 2**31 - 1, -2**31, rng.randint(-2**31, 2**31 - 1), rng.randint(-1000, 1000)])]
    bits = rng.choice([b for b in LIM if b <= maxbits])
    while len(out) < n:
        if rng.random() < 0.12:
            bits = rng.choice([b for b in LIM if b <= maxbits])
        h = 1 << (bits - 1)
        d = rng.choice([0, 1, -1, h - 1, -h, rng.randint(-h, h - 1), rng.randint(-h, h - 1)])
        if rng.random() < 0.02:
            d = rng.choice([h, -h - 1])
            if maxbits < 32 and not -(1 << (maxbits - 1)) <= d < 1 << (maxbits - 1):
                d = 0
        v = out[-1] + d
        if wrap or maxbits > 30:
            v = (v + 2**31) % 2**32 - 2**31
        elif not -2**31 <= v < 2**31:
            v = out[-1] - d if -2**31 <= out[-1] - d < 2**31 and -(1 << (maxbits - 1)) <= -d < 1 << (maxbits - 1) else out[-1]
        out.append(v)
    return out[:n]


def values(rng, enc, n):
    ty = NEED.get(enc, "i")
    if ty == "t":
        return ty, [rng.choice([32, 65, 10, 126, 0x41 + rng.randrange(26)]) for _ in range(n)]
    if ty == "f":
        return ty, [rng.choice([0.0, -0.0, 1.5, -3.25e-10, 3.0e38, 1e-42, rng.uniform(-1e6, 1e6)]) for _ in range(n)]
    if ty == "d":
        return ty, [rng.choice([0.0, -0.0, 1.5, 1e300, 5e-324, rng.uniform(-1e6, 1e6)]) for _ in range(n)]
    if enc == INT16:
        return ty, [rng.choice([0, 32767, -32768, rng.randint(-32768, 32767)]) for _ in range(n)]
    if enc in (STEIM1, STEIM2, -1):
        return ty, series(rng, n, 32 if enc == STEIM1 else 30) if n else []
    return ty, [rng.choice([0, 2**31 - 1, -2**31, rng.randint(-2**31, 2**31 - 1)]) for _ in range(n)]


class Req:
    """a packing request"""
    def __init__(self, rng, ver=3, enc=None, n=None, reclen=None, rate=None, sid=None, extra=None, ty=None, vals=None, t=None, flags=None, pub=None):
        self.ver = ver
        self.enc = rng.choice([TEXT, INT16, INT32, FLOAT32, FLOAT64, STEIM1, STEIM2, -1]) if enc is None else enc
        self.reclen = rng.choice([128, 256, 512]) if reclen is None else reclen
        self.rate = rng.choice(RATES) if rate is None else rate
        self.sid = rng.choice(SIDS) if sid is None else sid
        self.flags = rng.choice([0, 1, 2, 4, 7]) if flags is None else flags
        self.pub = rng.choice([0, 1, 2, 3, 4, 5, 255]) if pub is None else pub
        self.t = rtime(rng, rng.choice([1, 1000, 100000, 10**9])) if t is None else t
        if ver == 2 and msr.ns2cal(self.t)[0] in (1799, 2056):
            self.t = 10**18 + 123456789
        self.x = extras(rng) if extra is None else extra
        self.exok = True
        n = rng.choice([0, 1, 2, 5, 30, 100, 200, 300]) if n is None else n
        self.ty, self.vals = values(rng, self.enc, n) if vals is None else (ty, vals)
        if ty:
            self.ty = ty

    def cmd(self, slot=0):
        return "rec_new r=%d sid=%s fmt=%d flags=%d st=%d rate=x%s enc=%d pub=%d reclen=%d type=%s data=%s%s" % (
            slot, hx(self.sid), self.ver, self.flags, self.t, d2h(self.rate), self.enc, self.pub, self.reclen, self.ty, wire(self.ty, self.vals),
            " extra=" + hx(self.x[0]) if self.x[0] else "")

    def m(self, ver=None):
        return {"sid": [ord(c) for c in self.sid], "ver": ver or self.ver, "flags": self.flags, "pub": self.pub, "enc": self.enc, "reclen": self.reclen,
                "extra": [ord(c) for c in self.x[0]], "ex": self.x[1], "exok": self.exok, "rate": rate_of(self.rate), "t": obs.instant(self.t),
                "type": self.ty, "s": words(self.ty, self.vals), "dq": self.x[2]}


def cut(hexs, lens):
    b = bytes.fromhex(hexs)
    out = []
    for n in lens:
        out.append(list(b[:n]))
        b = b[n:]
    return out


def do_pack(s, q, flush=True, flag2=False, slot=0):
    """pack the request held by record structure slot"""
    st = {}
    s.do("rec_pack r=%d b=1 fl=%d" % (slot, (FLUSH if flush else 0) | (V2FLAG if flag2 else 0)), lambda r: st.update(r) and None)
    s.do("buf_dump b=1", lambda r: {"op": "pack", "m": q.m(2 if flag2 else None), "flush": flush,
                                    "r": {"rv": st["rv"], "packed": st["packed"], "recs": cut(r["hex"], st["lens"])}})


def session(q, flush=True, flag2=False):
    s = Session()
    s.do(q.cmd())
    do_pack(s, q, flush, flag2)
    return s


# ------------------------------------------------------------------- W01
@prop("W01")
def w01(run):
    rng = run.rng
    ss = []
    for i in range(run.scale(260, 9000)):
        ver = rng.choice([2, 3])
        q = Req(rng, ver, reclen=rng.choice([128, 256, 512]) if ver == 2 else rng.choice([150, 200, 256, 400, 512]),
                n=rng.choice([1, 2, 5, 30, 60, 100, 200]))
        f = rng.random() < 0.7
        s = session(q, f, ver == 3 and False)
        if rng.random() < 0.2:
            # once more from the same structure: packing changes nothing in it
            do_pack(s, q, rng.random() < 0.5, rng.random() < 0.3)
        ss.append(s)
    run.validate("PackTrace", ss, "requests")
    # many records: times far from the start, rates with awkward periods, leap seconds within
    ss = []
    leaps = [1341100800, 1435708800, 1483228800, 915148800]
    for i in range(run.scale(36, 700)):
        ver = rng.choice([2, 3])
        enc = rng.choice([INT32, INT16, STEIM1, STEIM2, FLOAT32])
        rate = rng.choice([1.0, 0.1, 1 / 3, 7 / 9, 100.0, 33.3, -60.0, 3.0, 6.0, 7.0])
        t = None
        if rng.random() < 0.6:
            t = (rng.choice(leaps) - rng.randint(0, int(100 / abs(rate if rate > 0 else -1 / rate)) + 2)) * 10**9 + rng.choice([0, 0, 500000000, 123456789, 1])
        n = rng.choice([150, 300, 500])
        ss.append(session(Req(rng, ver, enc=enc, reclen=128, n=n, rate=rate, t=t, extra=("", [], 0)), rng.random() < 0.8))
    run.validate("PackTrace", ss, "many records")
    # defaults and large records
    ss = []
    for i in range(run.scale(10, 120)):
        ver = rng.choice([2, 3])
        q = Req(rng, ver, reclen=-1 if i % 2 else rng.choice([4096, 8192]), enc=rng.choice([-1, STEIM1, INT32, FLOAT64, TEXT]), n=rng.choice([700, 1500]))
        ss.append(session(q, rng.random() < 0.8))
    run.validate("PackTrace", ss, "default and large records")


# ------------------------------------------------------------------- W02
def header(s, q, kind, sz, slot=0):
    st = {}
    s.do("rec_hdr r=%d b=1 kind=%d sz=%d" % (slot, kind, sz), lambda r: st.update(r) and None)
    s.do("buf_dump b=1", lambda r: {"op": "header", "m": q.m(kind), "kind": kind, "sz": sz, "r": {"rv": st["rv"], "b": codes(r["hex"])}})


@prop("W02")
def w02(run):
    rng = run.rng
    run.mc("MCCrc", "crc", {"N": run.scale(12, 40)}, ["Table", "Detects", "Vector"])
    # room exactly for n samples, one byte less, one byte more
    ss = []
    size = {TEXT: 1, INT16: 2, INT32: 4, FLOAT32: 4, FLOAT64: 8, STEIM1: 64, STEIM2: 64}
    for enc in size:
        for ver in (3, 2):
            for k in (run.scale((0, 1, 2), range(0, 5))):
                for d in (-1, 0, 1):
                    if ver == 2 and (k, d) != (1, 0):
                        continue
                    sid, x = rng.choice(SIDS[:2]), extras(rng, 0)
                    base = 40 + len(sid) + len(x[0])
                    q = Req(rng, ver, enc=enc, sid=sid, extra=x, n=rng.choice([1, 3, 9]), reclen=base + k * size[enc] + d if ver == 3 else rng.choice([128, 256]))
                    ss.append(session(q, rng.random() < 0.8))
    for i in range(run.scale(60, 2000)):
        # record lengths that are not allowed, encodings that do not suit the samples
        ver = rng.choice([2, 3])
        q = Req(rng, ver, n=rng.choice([0, 1, 40]), reclen=rng.choice([0, 39, 40, 63, 64, 100, 127, 128, 129, 200, 256, 511, 512]))
        if rng.random() < 0.3:
            q.ty = rng.choice("tifd")
            q.vals = [65, 66, 67] if q.ty in "ti" else [1.0, 2.0]
        if rng.random() < 0.2:
            q.enc = rng.choice([2, 6, 12, 13, 16, 30, 32, 33, 100])
        if ver == 2 and rng.random() < 0.3:
            q.sid = rng.choice(SIDS2BAD)
        if ver == 2 and rng.random() < 0.15:
            q.rate = rng.choice(BADRATES2)
        if rng.random() < 0.15:
            q.x = (rng.choice(["{", "[1,", '{"a":}', "nothing"]), [], 0)
            q.exok = False
        ss.append(session(q, rng.random() < 0.7))
    for i in range(run.scale(80, 2500)):
        ver = rng.choice([2, 3])
        q = Req(rng, ver, reclen=rng.choice([128, 256, 512]) if ver == 2 else rng.randint(60, 600), n=rng.choice([0, 0, 1, 7, 50, 150]),
                sid=rng.choice(SIDS * 3 + SIDS2BAD), extra=extras(rng))
        if q.enc == INT16 and rng.random() < 0.4 and q.vals:
            q.vals[rng.randrange(len(q.vals))] = rng.choice([32768, -32769, 2**31 - 1])
        if q.enc in (STEIM2, -1) and rng.random() < 0.5 and len(q.vals) > 2:
            q.vals = series(rng, len(q.vals), 32)
        ss.append(session(q, rng.random() < 0.7, ver == 3 and rng.random() < 0.2))
    run.validate("PackTrace", ss, "records and refusals")
    # every kind of sample with every encoding
    ss = []
    for ver in (2, 3):
        for enc in (TEXT, INT16, INT32, FLOAT32, FLOAT64, STEIM1, STEIM2, -1):
            for ty in "tifd":
                q = Req(rng, ver, enc=enc, n=0, sid=rng.choice(SIDS[:2]), extra=("", [], 0), reclen=256)
                q.ty, q.vals = ty, [65, 66, 67] if ty in "ti" else [1.0, 2.0]
                ss.append(session(q, rng.random() < 0.8))
    run.validate("PackTrace", ss, "samples and encodings")
    # headers alone into buffers of every size
    ss = []
    for i in range(run.scale(30, 400)):
        q = Req(rng, 3, n=0, reclen=rng.choice([128, 512, -1]), sid=rng.choice(SIDS))
        s = Session()
        s.do(q.cmd())
        full = 40 + len(q.sid) + len(q.x[0])
        for sz in sorted({0, 39, 40, full - 1, full, full + 1, rng.randint(0, 200)}):
            header(s, q, 3, sz)
        for sz in sorted({0, 47, 48, 55, 75, 76, 77, 128, rng.randint(0, 200)}):
            header(s, q, 2, sz)
        ss.append(s)
    run.validate("PackTrace", ss, "headers alone")


# ------------------------------------------------------------------- W03
@prop("W03")
def w03(run):
    rng = run.rng
    n = run.scale(3, 5)
    run.mc("MCSteim", "steim1", {"V": 1, "Diffs": "@SetA", "MaxLen": n + 1, "Frames0": {1, 2, 3}}, ["Roundtrip", "RoundtripLong", "Total"])
    run.mc("MCSteim", "steim2-small", {"V": 2, "Diffs": "@SetB", "MaxLen": n + 1, "Frames0": {1, 2}}, ["Roundtrip", "RoundtripLong"])
    run.mc("MCSteim", "steim2-large", {"V": 2, "Diffs": "@SetC", "MaxLen": n + 1, "Frames0": {1, 2}}, ["Roundtrip", "RoundtripLong"])
    ss = []

    def one(enc, vals, frames, flush=True):
        sid = "FDSN:XX_S__L_H_Z"
        q = Req(rng, 3, enc=enc, ty="i", vals=vals, reclen=40 + len(sid) + 64 * frames + rng.choice([0, 0, 1, 63]), sid=sid, extra=("", [], 0), rate=1.0, t=0, flags=0, pub=1)
        ss.append(session(q, flush))

    # runs of each layout with one difference just outside it, at each place
    for enc, lay in ((STEIM1, ((4, 8), (2, 16), (1, 32))), (STEIM2, ((7, 4), (6, 5), (5, 6), (4, 8), (3, 10), (2, 15), (1, 30)))):
        for cnt, bits in lay:
            h = 1 << (bits - 1)
            for at in range(1, run.scale(cnt + 2, 2 * cnt + 2)):
                for big in (h, -h - 1, h - 1, -h):
                    if bits == 32:
                        continue
                    v, x = [rng.randint(-50, 50)], 0
                    for k in range(1, 2 * cnt + 6):
                        d = big if k == at else rng.choice([h - 1, -h, 0])
                        v.append((v[-1] + d + 2**31) % 2**32 - 2**31)
                    one(enc, v, 1)
    for i in range(run.scale(140, 6000)):
        enc = rng.choice([STEIM1, STEIM2])
        one(enc, series(rng, rng.choice([1, 2, 3, 13, 14, 26, 52, 53, 105, 150, 300]), rng.choice([8, 10, 16, 30, 30, 32]), wrap=rng.random() < 0.3),
            rng.choice([1, 1, 2, 3, 5]), rng.random() < 0.8)
    # exactly full frames, one less, one more
    for enc, dens in ((STEIM1, (4, 2, 1)), (STEIM2, (7, 6, 5, 4, 3, 2, 1))):
        bits = {STEIM1: {4: 8, 2: 16, 1: 32}, STEIM2: {7: 4, 6: 5, 5: 6, 4: 8, 3: 10, 2: 15, 1: 30}}[enc]
        for dn in dens:
            h = 1 << (bits[dn] - 1)
            for fr in (1, 2):
                full = dn * (13 + 15 * (fr - 1))
                for extra in (-1, 0, 1):
                    v = [5]
                    for k in range(1, full + extra):
                        d = (h - 1 if k % 2 else -h)
                        v.append((v[-1] + d + 2**31) % 2**32 - 2**31)
                    one(enc, v, fr)
    run.validate("PackTrace", ss, "series")


# ------------------------------------------------------------------- W05
def pv3(b):
    return struct.unpack_from("<H", b, 34)[0] if b[:3] == b"MS\3" else 0


def source(s, b):
    s.blk, s.model = [], []
    buf(s, b)


WORDS = ["ABC", "x", "A-b.9", "Quanterra", "0123456789abcdefghijklmnopqrstuv", "mixed Case"]


def events(rng, o):
    """detections, calibrations and exceptions added to the extra headers o: (what they are for the specification, the clock model)"""
    blk, model = [], ""

    def fields(el, *opt):
        f = []
        for name, kind, arg in opt:
            if rng.random() < .4:
                continue
            if kind == "s":
                el[name] = rng.choice(arg)
                v = {"k": "s", "v": list(el[name].encode())}
            elif kind == "f":
                x = rng.choice([0.0, 1.0, -1.5, 0.1, 1e-9, 3.4e38, 123456.789, rng.uniform(-1e6, 1e6)] if arg else [0.0, 1.0, 0.5, 99.9, 1e-9])
                w = struct.pack(">f", x)
                el[name] = struct.unpack(">f", w)[0]
                v = {"k": "f", "v": obs.f32words(x)}
            elif kind == "u":
                n = rng.choice([0, 1, 10000, 12345, 2**31 - 1, 2**31, 2**32 - 1, rng.randrange(2**32), rng.randrange(10**6)])
                el[name] = n / 10000
                v = {"k": "u", "v": obs.word(n)}
            elif kind == "n":
                el[name] = rng.choice([0, 1, arg, rng.randint(0, arg)])
                v = {"k": "n", "v": el[name]}
            elif kind == "b":
                el[name] = rng.random() < .7
                v = {"k": "b", "v": el[name]}
            elif kind == "l":
                el[name] = [rng.choice([0, 1, 255, rng.randint(0, 255)]) for _ in range(rng.choice([0, 1, 5, 6, 6, 6, 7, 9]))]
                v = {"k": "l", "v": el[name]}
            elif rng.random() < .03:
                # no time: version 2 cannot hold it
                el[name] = rng.choice(["not a time", "", "2012-13-01T00:00:00Z", "2012-01-01T24:60:00", "2012,367", "2012-02-30T25:00:00Z"])
                v = {"k": "x", "v": 0}
            else:
                while True:
                    t = rtime(rng, rng.choice([10**9, 10**8, 100000, 1000, 1]))
                    if 1900 <= msr.ns2cal(t)[0] <= 2100:
                        break
                y, d, h, m, sec, ns = msr.ns2cal(t)
                base = datetime.date(y, 1, 1) + datetime.timedelta(days=d - 1)
                el[name] = "%s%s%02d:%02d:%02d" % (base, rng.choice("TT "), h, m, sec)
                if ns or rng.random() < .5:
                    el[name] += ("." + "%09d" % ns).rstrip("0") if ns else ".000000"
                el[name] += rng.choice(["Z", "Z", ""])
                v = {"k": "t", "v": obs.instant(t)}
            f.append([name, v])
        return f
    for kind in rng.sample(["det", "cal", "exc"], rng.choice([1, 1, 2, 3])):
        arr = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            el = {}
            if kind == "det":
                f = fields(el, ("Type", "s", ["MURDOCK", "murdock", "GENERIC", "STALTA"]), ("SignalAmplitude", "f", 1), ("SignalPeriod", "f", 1), ("BackgroundEstimate", "f", 1),
                           ("Wave", "s", ["DILATATION", "dilatation", "COMPRESSION"]), ("Units", "s", ["COUNTS", "COUNT", "DECONVOLVED", "M/S"]), ("OnsetTime", "t", 0),
                           ("MEDSNR", "l", 0), ("MEDLookback", "n", 255), ("MEDPickAlgorithm", "n", 255), ("Detector", "s", WORDS))
            elif kind == "exc":
                f = fields(el, ("Time", "t", 0), ("VCOCorrection", "f", 0), ("ReceptionQuality", "n", 255), ("Count", "n", 2**31 - 1), ("Type", "s", WORDS), ("ClockStatus", "s", WORDS + ["y" * 128, "z" * 140]))
            else:
                ty = rng.choice(["STEP", "SINE", "PSEUDORANDOM", "GENERIC", "ABORT", "step", "Sine", None] if rng.random() < .95 else ["OTHER"])
                f = []
                if ty:
                    el["Type"] = ty
                    f.append(["Type", {"k": "s", "v": list(ty.encode())}])
                f += fields(el, ("BeginTime", "t", 0), ("EndTime", "t", 0), ("Steps", "n", 255), ("StepFirstPulsePositive", "b", 0), ("StepAlternateSign", "b", 0),
                            ("Trigger", "s", ["AUTOMATIC", "automatic", "MANUAL"]), ("Continued", "b", 0), ("Amplitude", "f", 1), ("AmplitudeRange", "s", ["PEAKTOPEAK", "ZEROTOPEAK", "RMS", "RANDOM", "rms"]),
                            ("Duration", "u", 0), ("SinePeriod", "f", 1), ("StepBetween", "u", 0), ("InputChannel", "s", ["A", "BH", "BHZ", "BHZ1"]), ("ReferenceAmplitude", "n", 2**31 - 1),
                            ("Coupling", "s", WORDS), ("Rolloff", "s", WORDS), ("Noise", "s", WORDS))
                if ty in ("ABORT", None) and "EndTime" not in el and rng.random() < .8:
                    el["EndTime"] = "2012-05-06T07:08:09Z"
                    f.append(["EndTime", {"k": "t", "v": obs.instant(1336288089 * 10**9)}])
            items = list(el.items())
            rng.shuffle(items)
            if rng.random() < .1:
                arr.append(rng.choice([5, "text", None, [], [{"Type": "STEP"}], True]))  # no entry: passed over
            arr.append(dict(items))
            blk.append({"k": kind, "f": f})
        put_path(o, {"det": "/FDSN/Event/Detection", "cal": "/FDSN/Calibration/Sequence", "exc": "/FDSN/Time/Exception"}[kind], arr)
    if rng.random() < .5:
        model = rng.choice(WORDS)
        put_path(o, "/FDSN/Clock/Model", model)
    return blk, list(model.encode())


def convert(s, n, ver, enc, reclen, st):
    """parse with samples, set the target's properties, pack"""
    s.do("rec_parse r=0 b=0 off=0 len=%d fl=1 reuse=0" % n, lambda r: st.update(r) and None)
    s.do("rec_set r=0 fmt=%d enc=%d reclen=%d" % (ver, enc, reclen))
    p = {}
    s.do("rec_pack r=0 b=1 fl=%d" % FLUSH, lambda r: p.update(r) and None)

    def fn(r):
        recs = cut(r["hex"], p["lens"])
        ex = []
        for x in recs:
            x = bytes(x)
            if x[:3] == b"MS\3":
                sl, xl = x[33], pv3(x)
                ex.append(obs.extras(x[40 + sl:40 + sl + xl].hex()))
        rate = struct.unpack(">d", bytes.fromhex(st["rate"]))[0]
        q = rate_of(rate)["q"]
        if q[1] < 0 or (len(recs) > 1 and q[1] * max(p["packed"], 1) >= 2**31):
            return None  # not a fraction the specification can compute with
        return {"op": "convert", "ver": ver, "enc": enc, "reclen": reclen, "extra": codes(st["extra"]), "ex": s.srcex, "blk": s.blk, "model": s.model, "rate": rate_of(rate),
                "r": {"rv": p["rv"], "packed": p["packed"], "recs": recs, "ex": ex if ver == 3 else []}}
    s.do("buf_dump b=1", fn)


def repack(s, n, sz, edits):
    st, p = {}, {}
    s.do("rec_parse r=0 b=0 off=0 len=%d fl=0 reuse=0" % n, lambda r: st.update(r) and None)
    a, e = [], {"op": "repack", "sz": sz}
    if "sid" in edits:
        a.append("sid=" + hx(edits["sid"]))
        e["sid"] = [ord(c) for c in edits["sid"]]
    if "t" in edits:
        a.append("st=%d" % edits["t"])
        e["t"] = obs.instant(edits["t"])
    for k in ("pub", "flags"):
        if k in edits:
            a.append("%s=%d" % (k, edits[k]))
            e[k] = edits[k]
    if a:
        s.do("rec_set r=0 " + " ".join(a))
    if "decoded" in edits:
        # what is (or no longer is) decoded has no part in it
        if edits["decoded"] != 0:
            s.do("rec_unpack r=0")
        s.do("rec_set r=0 num=%d" % edits["decoded"]) if edits["decoded"] >= 0 else None
    xt = edits.get("extra")
    if xt is not None:
        s.do("eh_rep r=0 json=" + hx(xt))
    s.do("rec_hdr r=0 b=1 kind=re sz=%d" % sz, lambda r: p.update(r) and None)

    def fn(r):
        e["extra"] = codes(st["extra"]) if xt is None else [ord(c) for c in xt]
        e["rate"] = rate_of(struct.unpack(">d", bytes.fromhex(st["rate"]))[0])
        b = bytes.fromhex(r["hex"])
        sl = b[33] if len(b) > 36 else 0
        e["ex"] = xt is None and st["fmt"] == 2
        e["r"] = {"rv": p["rv"], "b": list(b), "ex": obs.extras(b[40 + sl:40 + sl + pv3(b)].hex()) if len(b) > 40 and xt is None and st["fmt"] == 2 else []}
        return e
    s.do("buf_dump b=1", fn)


@prop("W05")
def w05(run):
    rng = run.rng
    ss = []
    for i in range(run.scale(150, 5000)):
        # every blockette a version 2 record can have, through version 2 and 3
        s = Session()
        enc = rng.choice([1, 3, 10, 11, 4, 5, 0])
        b = rand_v2(rng, enc=enc, data=True)
        s.srcex = []
        source(s, b)
        tenc = {1: [1, 3, 10, 11], 3: [3, 10, 11], 10: [3, 10], 11: [3, 10, 11], 4: [4], 5: [5], 0: [0]}[enc]
        convert(s, len(b), rng.choice([2, 3]), rng.choice(tenc), rng.choice([512, 1024, 4096]), {})
        ss.append(s)
    for i in range(run.scale(200, 5000)):
        s = Session()
        txt_, ex, dq = extras(rng)
        if dq:
            continue
        blk, model = [], []
        if rng.random() < .7:
            o = json.loads(txt_) if txt_ else {}
            blk, model = events(rng, o)
            txt_ = json.dumps(o, separators=rng.choice([(",", ":"), (", ", ": ")]))
        enc = rng.choice([0, 1, 3, 4, 5])
        ty, vals = values(rng, enc, rng.choice([1, 4, 20, 60]))
        b = msr.v3(rng.choice(SIDS[:4]), rtime(rng, rng.choice([1, 1000, 100000])), rng.choice([1.0, 20.0, -10.0, 0.1, 33.3, 100.0]), len(vals), enc,
                   msr.payload("i16" if enc == 1 else ty, vals), pub=rng.choice([1, 2, 3, 4]), flags=rng.choice([0, 1, 2, 4, 7]), extra=txt_.encode())
        s.srcex = ex
        if msr.ns2cal(obs_t(b))[0] == 2056:
            continue
        source(s, b)
        s.blk, s.model = blk, model
        convert(s, len(b), rng.choice([2, 2, 3]) if blk else rng.choice([2, 3]), rng.choice({1: [1, 3, 10], 3: [3, 10]}.get(enc, [enc])), rng.choice([512, 1024, 2048, 4096] if blk else [256, 512, 1024]), {})
        ss.append(s)
    run.validate("PackTrace", ss, "conversions")
    ss = []
    for i in range(run.scale(150, 5000)):
        s = Session()
        enc = rng.choice([0, 1, 3, 4, 5, 10, 11, 12, 13, 14, 16, 30, 32])
        b = rand_v2(rng, enc=enc, data=rng.random() < 0.9) if rng.random() < 0.6 else rand_v3(rng)
        source(s, b)
        ed = {}
        if rng.random() < 0.3:
            ed["sid"] = rng.choice(SIDS + SIDS2BAD)
        if rng.random() < 0.3:
            ed["t"] = rtime(rng)
        if rng.random() < 0.3:
            ed["pub"] = rng.choice([0, 1, 9, 255])
        if rng.random() < 0.3:
            ed["flags"] = rng.choice([0, 1, 4, 128, 255])
        if rng.random() < 0.3:
            ed["extra"] = rng.choice(['{"a":1}', '{"FDSN":{"Time":{"Quality":7}},"b":"' + "x" * rng.randint(0, 60) + '"}'])
        if rng.random() < 0.4:
            ed["decoded"] = rng.choice([-1, 0, 1, 2])
        repack(s, len(b), rng.choice([4096, 4096, 4096, len(b), 40, 64, 100, len(b) + 30]), ed)
        ss.append(s)
    run.validate("PackTrace", ss, "repacking")
    ss = []
    for i in range(run.scale(40, 1000)):
        s = Session()
        b = rand_v2(rng, data=True) if i % 2 else rand_v3(rng)
        source(s, b)
        s.do("rec_parse r=0 b=0 off=0 len=%d fl=1 reuse=0" % len(b))
        dd = rng.random() < 0.7

        def fn(r, dd=dd):
            return {"op": "dup", "dd": dd, "r": obs.rec(r, True)}
        s.do("rec_dup r=1 src=0 dd=%d" % int(dd), fn)
        s.do("rec_free r=0")
        s.do("rec_dump r=1", fn)
        ss.append(s)
    run.validate("PackTrace", ss, "duplicates")


def obs_t(b):
    y, d = struct.unpack_from("<HH", b, 8)
    return (365 * (y - 1970) + (y - 1969) // 4 - (y - 1901) // 100 + (y - 1601) // 400 + d - 1) * 86400 * 10**9
