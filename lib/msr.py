"""Independent builders of miniSEED records (used as inputs; the expectation of
what they mean is always the specification's)."""
import struct, calendar

CRCT = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ 0x82F63B78 if _c & 1 else _c >> 1
    CRCT.append(_c)


def crc32c(b, c=0):
    c ^= 0xFFFFFFFF
    for x in b:
        c = CRCT[(c ^ x) & 255] ^ (c >> 8)
    return c ^ 0xFFFFFFFF



def forge(b, at, want):
    """the version 3 record b with the four bytes at `at` chosen such that its CRC is `want`, and stored"""
    b = bytearray(b)
    b[28:32] = b"\0\0\0\0"
    b[at:at + 4] = b"\0\0\0\0"
    base = crc32c(b)
    rows = []
    for k in range(32):
        b[at:at + 4] = struct.pack("<I", 1 << k)
        rows.append((crc32c(b) ^ base, 1 << k))
    need, x = base ^ want, 0
    for bit in range(31, -1, -1):
        j = next((r for r in rows if r[0] >> bit & 1), None)
        if j is None:
            continue
        rows = [(r[0] ^ j[0], r[1] ^ j[1]) if r[0] >> bit & 1 else r for r in rows if r is not j]
        if need >> bit & 1:
            need, x = need ^ j[0], x ^ j[1]
    b[at:at + 4] = struct.pack("<I", x)
    assert crc32c(b) == want
    b[28:32] = struct.pack("<I", want)
    return bytes(b)


DAY = 86400
def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def ns2cal(ns):
    """(year, yday, hour, min, sec, nsec) of an epoch nanosecond time"""
    s, n = divmod(ns, 10**9)
    d, r = divmod(s, DAY)
    y = 1970 + d // 366 - (1 if d < 0 else 0)
    def first(y):
        return 365 * (y - 1970) + (y - 1969) // 4 - (y - 1901) // 100 + (y - 1601) // 400
    while first(y + 1) <= d:
        y += 1
    while first(y) > d:
        y -= 1
    return y, d - first(y) + 1, r // 3600, r // 60 % 60, r % 60, n


ENC = {"t": 0, "i16": 1, "i": 3, "f": 4, "d": 5, "st1": 10, "st2": 11}


def payload(ty, vals, big=False):
    e = ">" if big else "<"
    if ty == "t":
        return bytes(vals)
    return b"".join(struct.pack(e + {"i16": "h", "i": "i", "f": "f", "d": "d"}[ty], v) for v in vals)


def steim1(vals, nframes=None):
    """simple all-32-bit-difference Steim-1 encoding, big-endian words"""
    words, d, frames = [], [b - a for a, b in zip([vals[0]] + vals[:-1], vals)], []
    d[0] = 0
    k = 0
    first = True
    while k < len(vals) or first:
        w = [0] * 16
        slots = range(1, 16)
        if first:
            w[1], w[2] = vals[0] & 0xFFFFFFFF, vals[-1] & 0xFFFFFFFF
            slots = range(3, 16)
        nib = 0
        for s in slots:
            if k >= len(vals):
                break
            g = d[k:k + 4]
            if len(g) == 4 and all(-128 <= x <= 127 for x in g):
                w[s] = struct.unpack(">I", struct.pack(">4b", *g))[0]
                nib |= 1 << (30 - 2 * s)
                k += 4
            elif len(d[k:k + 2]) == 2 and all(-32768 <= x <= 32767 for x in d[k:k + 2]):
                w[s] = struct.unpack(">I", struct.pack(">2h", *d[k:k + 2]))[0]
                nib |= 2 << (30 - 2 * s)
                k += 2
            else:
                w[s] = d[k] & 0xFFFFFFFF
                nib |= 3 << (30 - 2 * s)
                k += 1
        w[0] = nib
        frames.append(struct.pack(">16I", *w))
        first = False
    return b"".join(frames)


def v3(sid, ns, rate, n, enc, pay, pub=1, flags=0, extra=b"", badcrc=False):
    sid = sid.encode() if isinstance(sid, str) else sid
    y, d, h, m, s, f = ns2cal(ns)
    hd = b"MS" + bytes([3, flags]) + struct.pack("<IHHBBBBdIIBBHI", f, y, d, h, m, s, enc, rate, n, 0, pub, len(sid), len(extra), len(pay))
    r = hd + sid + extra + pay
    c = crc32c(r)
    if badcrc:
        c ^= 0x5A5A
    return r[:28] + struct.pack("<I", c) + r[32:]


def v2(net, sta, loc, cha, ns, fact, mult, n, enc, pay, reclen=512, big=True, q=b"D", b1000=True, seq=1, act=0, io=0, dq=0,
       b100=None, us=None, tcorr=0, extra_blk=(), doff=None):
    e = ">" if big else "<"
    usec_extra = 0
    if us is not None:
        ns -= us * 1000
    y, d, h, m, s, f = ns2cal(ns)
    blks = []
    if b1000:
        blks.append((1000, struct.pack("BBBB", enc, 1 if big else 0, reclen.bit_length() - 1, 0)))
    if b100 is not None:
        blks.append((100, struct.pack(e + "fBBH", b100, 0, 0, 0)))
    if us is not None:
        blks.append((1001, struct.pack(e + "BbBB", 0, us, 0, 1)))
    blks += list(extra_blk)
    pos = 48
    body = b""
    for k, (t, c) in enumerate(blks):
        ln = 4 + len(c)
        nxt = pos + ln if k < len(blks) - 1 else 0
        body += struct.pack(e + "HH", t, nxt) + c
        pos += ln
    if doff is None:
        doff = 0 if not pay else 64 if pos <= 64 else (pos + 63) // 64 * 64
    hd = b"%06d" % seq + q + b" " + sta.ljust(5).encode() + loc.ljust(2).encode() + cha.ljust(3).encode() + net.ljust(2).encode()
    hd += struct.pack(e + "HHBBBBHHhhBBBBiHH", y, d, h, m, s, 0, f // 100000, n, fact, mult, act, io, dq, len(blks), tcorr, doff, 48 if blks else 0)
    r = hd + body
    if pay:
        r = r.ljust(doff, b"\0") + pay
    assert len(r) <= reclen, (len(r), reclen)
    return r.ljust(reclen, b"\0")


def sidof(net, sta, loc, cha):
    return "FDSN:%s_%s_%s_%s_%s_%s" % (net, sta, loc, cha[0], cha[1], cha[2])
