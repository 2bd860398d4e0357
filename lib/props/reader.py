"""R01, R02, R03: reading records from files."""
import struct
import msr, obs
from core import *
from props import prop
from props.rec import rand_v2, rand_v3, mutate, rtime, code

SKIP, CRC, UNPACK, RANGE = 2, 4, 1, 8
BIG = 10485760


def fl(skip=False, crc=False, unpack=False, range=False):
    return (SKIP if skip else 0) | (CRC if crc else 0) | (UNPACK if unpack else 0) | (RANGE if range else 0)


def cs(p):
    return list(p.encode("latin-1"))


def put(s, name, b):
    """a file of the session"""
    s.do("buf_set b=0 hex=%s" % b.hex())
    s.do("buf_file b=0 path=%s" % hx(name), lambda r: {"op": "file", "name": cs(name), "b": list(b)})


def local(rng):
    """a scheme before the name of a local file, or none"""
    return rng.choice(["", "", "", "file://", "FILE://", "File://"])


def opened(path, m=BIG, start=0, end=0, range=False, sel=False, **f):
    return {"path": cs(path), "m": m, "start": start, "end": end, "range": range, "sel": sel,
            "skip": f.get("skip", False), "crc": f.get("crc", False), "unpack": f.get("unpack", False)}


def open_(s, k, path, m=BIG, start=0, end=0, range=False, sel=False, explicit=False, fd=False, **f):
    o = opened(path, m, start, end, range, sel, **f)
    if fd:
        s.do("rd_fd s=%d path=%s" % (k, hx(path)), lambda r: dict(o, op="open", k=k + 1))
    else:
        s.do("rd_open s=%d start=%d end=%d" % (k, start, end), lambda r: dict(o, op="open", k=k + 1))
    return "rd_next s=%d r=%d path=%s fl=%d sel=%d data=1" % (k, k, hx(path), fl(f.get("skip"), f.get("crc"), f.get("unpack"), range), 0 if sel else -1)


def cls(rv):
    c = obs.cls(rv)
    return "need" if c == "need" else c


def next_(s, k, cmd):
    def fn(r):
        o = {"cls": cls(r["rv"])}
        if o["cls"] == "ok":
            o.update(obs.rec(r, "data" in r))
            o.update(pos=r["pos"], nrec=r["nrec"], raw=codes(r["raw"]) if r.get("haverec") else [])
        return {"op": "next", "k": k + 1, "r": o}
    s.do(cmd, fn)


def close(s, k):
    s.do("rd_close s=%d r=%d" % (k, k))


def all_(s, path, b, m=BIG, start=0, end=0, range=False, sel=False, plain=False, **f):
    """a whole reading, reported compactly; b: the bytes of the file, for comparing the records' bytes"""
    o = opened(path, m, start, end, range, sel, **f)
    if plain:
        def fn(r):
            recs, pos = [], None
            return {"op": "plain", "x": 0}
    s.do("rd_open s=0 start=%d end=%d" % (start, end))

    def fn(r):
        recs = [{"len": x[0], "pos": x[1], "same": 0 <= x[1] - x[0] and x[1] <= len(b) and msr.crc32c(b[x[1] - x[0]:x[1]]) == x[2], "ver": x[3], "num": x[4]} for x in r["recs"]]
        return dict(o, op="all", r={"recs": recs, "cls": cls(r["rv"])})
    s.do("rd_all s=0 path=%s fl=%d sel=%d max=1000" % (hx(path), fl(f.get("skip"), f.get("crc"), f.get("unpack"), range), 0 if sel else -1), fn)


def sel_add(s, pat, pub):
    s.do("sel_add s=0 pat=%s pub=%d" % (hx(pat), pub), lambda r: {"op": "sel", "pat": cs(pat), "pub": pub, "r": r["rv"]})


# ----------------------------------------------------- concrete model inputs
def cell(kind, i):
    """64 bytes that the model's cell kind describes"""
    if kind == "J":
        return [b"\0" * 64, b"x" * 64, b"MS\2" + b"\0" * 61, b"\xff" * 64][i % 4]
    if kind[0] == "R":
        k = int(kind[1])
        n = 64 * k - 56
        h = msr.v3("FDSN:XX_S__B_H_%d" % (i % 10), (1500000000 + i) * 10**9, 1.0, n // 2, 1, b"\1\0" * (n // 2))
        return h[:64]
    if kind == "X":
        h = msr.v3("FDSN:XX_S__B_H_X", 10**18, 1.0, 4, 1, b"\1\0" * 4)
        return h[:10] + struct.pack("<H", 400) + h[12:64]
    n = 4
    h = msr.v2("XX", "S%d" % i, "", "BHZ", (1500000000 + i) * 10**9, 1, 1, n if kind[0] == "A" else 0, 1, b"\0\1" * n, reclen=64 * int(kind[1]) if kind[0] == "A" else 64,
               b1000=kind[0] == "A", doff=56)
    return h[:64]


def small_build(run, m):
    d = build(maxrec=m)
    if d is None:
        run.assumptions.append("the largest record length could not be reduced in this tree: buffer boundaries only at full size")
    return d


@prop("R01")
def r01(run):
    rng = run.rng
    kinds = ["J", "R1", "R2", "R4", "X", "U", "A2"]
    hs = run.mc("MCReader", "buffer", {"N": run.scale(4, 5), "M": 3, "Kinds": set(kinds), "Skips": {True, False}}, ["Refines", "Bounded", "Disjoint", "Emit"], properties=["Ends"])
    if run.thorough():
        run.mc("MCReader", "buffer2", {"N": 6, "M": 2, "Kinds": {"J", "R1", "R2", "R3", "A1"}, "Skips": {True, False}}, ["Refines", "Bounded", "Disjoint"])
        run.mc("MCReader", "buffer4", {"N": 5, "M": 4, "Kinds": {"J", "R3", "R4", "U", "A1", "X"}, "Skips": {True, False}}, ["Refines", "Bounded", "Disjoint"])
    b192 = small_build(run, 192)
    if b192:
        ss = []
        rng.shuffle(hs)
        hs.sort(key=lambda h: h["skip"])
        for h in hs[:run.scale(250, 6000)] + hs[-run.scale(250, 6000):]:
            s = Session(name="model")
            b = b"".join(cell(k, i) for i, k in enumerate(h["f"])) + b"\0" * (0 if "U" in h["f"] else rng.choice([0, 0, 1, 39]))
            put(s, "r01.ms", b)
            all_(s, "r01.ms", b, m=192, skip=h["skip"], unpack=rng.random() < 0.3)
            ss.append(s)
        run.validate("ReaderTrace", ss, "model inputs through a small buffer", bdir=b192)
        # longer inputs through the small buffer, read record by record
        ss = []
        for i in range(run.scale(150, 3000)):
            s = Session()
            ks = [rng.choice(["R1", "R2", "R3", "A1", "A2", "R1", "R2", "R3", "U" if i % 3 == 0 else "A1", "J", "X", "R4"]) for _ in range(rng.randint(3, 12))]
            b = b"".join(cell(k, j) if rng.random() < 0.3 else cell(k, j) + b"\1\0" * (32 * (int(k[1]) - 1) if k[0] in "RA" else 0) for j, k in enumerate(ks))
            # (a record without a length is found with 40 bytes to spare: only at aligned places)
            if "U" not in ks and rng.random() < 0.3:
                k = rng.randrange(len(b))
                b = b[:k] + bytes(rng.choice([0, 7, 64]) for _ in range(rng.randint(1, 50))) + b[k:]
            put(s, "r01.ms", b)
            f = {"skip": "U" not in ks and rng.random() < 0.8, "unpack": rng.random() < 0.3}
            c = open_(s, 0, "r01.ms", m=192, **f)
            for _ in range(rng.choice([4, 20])):
                next_(s, 0, c)
            close(s, 0)
            ss.append(s)
        run.validate("ReaderTrace", ss, "record by record through a small buffer", bdir=b192)
    ss = []
    for i in range(run.scale(160, 4000)):
        s = Session()
        parts = []
        ids = ["FDSN:XX_A_00_B_H_Z", "FDSN:XX_B__B_H_Z", "FDSN:YY_A_00_L_H_Z"]
        for _ in range(rng.randint(1, 6)):
            x = rng.random()
            if x < 0.3:
                parts.append(rand_v3(rng))
            elif x < 0.55:
                parts.append(rand_v2(rng, chain=[rng.choice([100, 1001])] if rng.random() < 0.2 else []))
            elif x < 0.85:
                parts.append(msr.v3(rng.choice(ids), rtime(rng), 1.0, 3, 1, b"\1\0\2\0\3\0", pub=rng.choice([1, 2, 3])))
            else:
                parts.append(rng.choice([b"\0" * 7, b"MS", b"MS\3", b"000001D " + b"\0" * 20, b"\xff" * 41, b"x" * 100]))
        b = b"".join(parts)[:2600]
        put(s, "r01.ms", b)
        f = {"skip": rng.random() < 0.75, "crc": rng.random() < 0.3, "unpack": rng.random() < 0.4, "sel": rng.random() < 0.4}
        if f["sel"]:
            for _ in range(rng.randint(1, 2)):
                sel_add(s, rng.choice(["*_A_*", "FDSN:XX*", "*L_H_?", "FDSN:*", "nothing"]), rng.choice([0, 0, 1, 2]))
        fd = rng.random() < 0.2
        c = open_(s, 0, ("" if fd else local(rng)) + "r01.ms", fd=fd, **f)
        two = rng.random() < 0.3
        if two:
            # another reader at the same time
            b2 = b"".join(msr.v3(rng.choice(ids), rtime(rng), 1.0, 3, 1, b"\1\0\2\0\3\0") for _ in range(rng.randint(1, 4)))
            put(s, "r01b.ms", b2)
            c2 = open_(s, 1, "r01b.ms")
        for _ in range(len(parts) + 2):
            next_(s, 0, c)
            if two and rng.random() < 0.8:
                next_(s, 1, c2)
        close(s, 0)
        if two:
            close(s, 1)
        if not f["sel"] or rng.random() < 0.5:
            all_(s, local(rng) + "r01.ms", b, **f)
        ss.append(s)
    run.validate("ReaderTrace", ss, "mixed files")


def small_file(rng, kind):
    a = msr.v3("FDSN:XX_S_00_H_H_Z", 10**18, 1.0, 2, 1, b"\1\0\2\0")
    b = msr.v3("FDSN:XX_S_00_H_H_Z", 10**18 + 2 * 10**9, 1.0, 3, 3, struct.pack("<3i", 1, -2, 3), extra=b'{"a":1}')
    c = msr.v2("XX", "STA", "00", "BHZ", 10**18, 1, 1, 2, 1, b"\1\2\3\4", reclen=128, big=kind % 2 == 0)
    d = msr.v2("XX", "STA", "00", "BHZ", 10**18, 1, 1, 2, 1, b"\1\2\3\4", reclen=64, big=kind % 2 == 0, doff=56)
    return [a + b, a + c, c + a, d + d, c + d, a + d + b][kind % 6]


@prop("R02")
def r02(run):
    rng = run.rng
    # every place an input can be cut
    ss = []
    for kind in range(6):
        b = small_file(rng, kind)
        for n in range(0, len(b) + 1):
            if not run.thorough() and n % 2 and n not in (39, 41, 63, 65, 127, 129) and rng.random() < 0.6:
                continue
            s = Session()
            put(s, "r02.ms", b[:n])
            all_(s, "r02.ms", b[:n], skip=rng.random() < 0.3, crc=rng.random() < 0.5, unpack=rng.random() < 0.5)
            ss.append(s)
    run.validate("ReaderTrace", ss, "every truncation")
    # every byte of an input damaged
    ss = []
    for kind in range(6):
        b = small_file(rng, kind)
        for k in range(len(b)):
            if not run.thorough() and rng.random() < 0.35:
                continue
            v = rng.choice([b[k] ^ 1 << rng.randrange(8), 0, 255])
            if v == b[k] or b[:2] != b"MS" and b"\x07" in b[:64] and v > 127 and False:
                v = b[k] ^ 1
            m = b[:k] + bytes([v]) + b[k + 1:]
            s = Session()
            put(s, "r02.ms", m)
            all_(s, "r02.ms", m, crc=True, unpack=True)
            if rng.random() < 0.4:
                all_(s, "r02.ms", m, skip=rng.random() < 0.5, crc=rng.random() < 0.5, unpack=rng.random() < 0.5)
            ss.append(s)
    # every CRC value that could be taken for special, stored over the true one or being the true one
    for kind in range(3):
        b = msr.v3("FDSN:XX_S_00_H_H_Z", 1456704000 * 10**9, 1.0, 4, 3, bytes(rng.randrange(256) for _ in range(16)), extra=rng.choice([b"", b'{"a":1}']))
        true = struct.unpack("<I", b[28:32])[0]
        for v in (0, 1, 0xFFFFFFFF, true ^ 0xFFFFFFFF, struct.unpack(">I", b[28:32])[0], true & 0xFFFF, true & 0xFFFF0000, true + 1 & 0xFFFFFFFF, true ^ 0x80000000, true):
            s = Session()
            m = b[:28] + struct.pack("<I", v) + b[32:] + b
            put(s, "r02.ms", m)
            all_(s, "r02.ms", m, crc=True, unpack=rng.random() < 0.5)
            ss.append(s)
        for v in (0, 1, 0xFFFFFFFF, 0x80000000):
            m = msr.forge(b, len(b) - 4, v)
            for m in (m, m[:-1] + bytes([m[-1] ^ 1]), m[:28] + struct.pack("<I", v ^ 1) + m[32:]):
                s = Session()
                put(s, "r02.ms", m + b)
                all_(s, "r02.ms", m + b, crc=True, skip=rng.random() < 0.5, unpack=True)
                ss.append(s)
    run.validate("ReaderTrace", ss, "every byte damaged")
    # more damage: several bytes, foreign bytes inserted, removed or in place of records
    ss = []
    for i in range(run.scale(200, 6000)):
        parts = [rand_v3(rng) if rng.random() < 0.5 else rand_v2(rng, chain=[]) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.3:
            parts[rng.randrange(len(parts))] = rng.choice([b"not data " * 8, b"\0" * 100, b"<html><body>404 not found</body></html>" * 2, b"MS\3" + b"\xff" * 60, b"000001Q " + b"\x10" * 60])
        b = bytearray(b"".join(parts)[:1800])
        x = rng.random()
        if x < 0.4:
            for _ in range(rng.randint(1, 4)):
                k = rng.randrange(len(b))
                b[k] = rng.randrange(128)
        elif x < 0.6:
            k = rng.randrange(len(b))
            del b[k:k + rng.randint(1, 80)]
        elif x < 0.8:
            k = rng.randrange(len(b))
            b[k:k] = bytes(rng.randrange(128) for _ in range(rng.randint(1, 80)))
        b = bytes(b)
        s = Session()
        put(s, "r02.ms", b)
        f = {"skip": rng.random() < 0.4, "crc": rng.random() < 0.6, "unpack": rng.random() < 0.5}
        c = open_(s, 0, "r02.ms", **f)
        for _ in range(len(parts) + 2):
            next_(s, 0, c)
        close(s, 0)
        ss.append(s)
    run.validate("ReaderTrace", ss, "damaged files")


@prop("R03")
def r03(run):
    rng = run.rng
    ss = []
    lens = []
    files = []
    a = msr.v3("FDSN:XX_S_00_H_H_Z", 10**18, 1.0, 2, 1, b"\1\0\2\0")
    d = msr.v2("XX", "STA", "00", "BHZ", 10**18, 1, 1, 2, 1, b"\1\2\3\4", reclen=64, doff=56)
    e = msr.v3("X", 10**18, 1.0, 0, 1, b"")
    files = [[a, a, a], [a, d, a, d], [e, d, e, a, e]]
    for parts in files:
        b = b"".join(parts)
        edges = [sum(len(x) for x in parts[:k]) for k in range(len(parts) + 1)]
        pts = sorted({x + k for x in edges for k in (-41, -40, -39, -1, 0, 1, 38, 39, 40, 41) if 0 <= x + k <= len(b) + 41})
        pairs = [(x, y) for x in pts for y in pts]
        for x, y in pairs if run.thorough() else rng.sample(pairs, 450):
            s = Session()
            form = rng.randrange(4)
            put(s, "r03.ms", b)
            f = {"skip": rng.random() < 0.4}
            if form == 0:
                all_(s, "r03.ms", b, start=x, end=y, **f)
            elif form == 1:
                all_(s, "r03.ms@%d-%d" % (x, y), b, range=True, **f)
            elif form == 2:
                all_(s, "r03.ms@%s%d-" % (rng.choice(["", "0", "000000000000"]), x) if rng.random() < 0.5 else "r03.ms@%d" % x, b, range=True, **f)
            else:
                all_(s, "r03.ms@-%d" % y, b, range=True, **f)
            ss.append(s)
    # every suffix that looks like a range, or almost
    tails = ["", "@", "@-", "@0", "@0-", "@-0", "@40", "@40-", "@-99", "@0-99", "@62-123", "@5x", "@x", "@1-2-3", "@--5", "@ 5", "@5 ", "@+5", "@a@5", "@5@", "@@5", "@5@62-", "@-5x",
             "@" + "0" * 20 + "-" + "0" * 18 + "99", "@" + "0" * 18 + "62", "@" + "0" * 20 + "62", "@62-" + "0" * 20 + "99", "@" + "0" * 21, "@0x40"]
    b = a + a + a
    for t in tails:
        for literal in (False, True):
            for rg in (True, False):
                s = Session()
                fn = "f%d.ms" % len(ss)
                put(s, fn, b)
                if literal and t:
                    # a file whose own name has the suffix
                    put(s, fn + t, d + d)
                if "@" in t[1:]:
                    put(s, fn + t[:t.rindex("@")], d + a + d)
                c = open_(s, 0, local(rng) + fn + t, range=rg)
                for _ in range(4):
                    next_(s, 0, c)
                close(s, 0)
                # an explicit range besides
                c = open_(s, 0, local(rng) + fn + t, start=rng.choice([0, len(a)]), end=rng.choice([0, 2 * len(a) - 1]), range=rg)
                for _ in range(3):
                    next_(s, 0, c)
                close(s, 0)
                ss.append(s)
    # long paths: at the limit, and beyond it
    for n in (500, 510, 511, 512, 513, 600, 1000):
        for t in ("", "@0-", "@62", "@62-123", "@" + "0" * 20):
            for rg in (True, False):
                s = Session()
                fn = "long%d.ms" % len(ss)
                path = ("./" * 600)[:(n - len(fn)) // 2 * 2] + fn
                path = (".//" + path[2:]) if len(path) < n else path
                put(s, path, b)
                if t:
                    put(s, path + t, d)
                c = open_(s, 0, path + t, range=rg)
                next_(s, 0, c)
                next_(s, 0, c)
                close(s, 0)
                ss.append(s)
    run.validate("ReaderTrace", ss, "ranges")
    # ranges with record contents, and with selections
    ss = []
    for i in range(run.scale(120, 3000)):
        parts = [rand_v3(rng) if rng.random() < 0.6 else rand_v2(rng, chain=[]) for _ in range(rng.randint(2, 5))]
        b = b"".join(parts)[:2200]
        edges = [sum(len(x) for x in parts[:k]) for k in range(len(parts) + 1)]
        x, y = rng.choice(edges), rng.choice(edges)
        x = max(0, x + rng.choice([0, 0, 0, 1, -1, 30]))
        y = max(0, y + rng.choice([-1, -1, -1, 0, -2, 38, 39, 40]))
        s = Session()
        put(s, "r03.ms", b)
        f = {"skip": rng.random() < 0.5, "unpack": rng.random() < 0.3, "sel": rng.random() < 0.3}
        if f["sel"]:
            sel_add(s, "FDSN*", rng.choice([0, 1]))
        if rng.random() < 0.5:
            c = open_(s, 0, local(rng) + "r03.ms", start=x, end=y, **f)
        else:
            c = open_(s, 0, local(rng) + "r03.ms@%d-%d" % (x, y), range=True, **f)
        for _ in range(len(parts) + 1):
            next_(s, 0, c)
        close(s, 0)
        ss.append(s)
    run.validate("ReaderTrace", ss, "ranges of mixed files")
