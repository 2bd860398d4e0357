"""W04: a trace list as a rolling buffer."""
import struct
import obs, tl
from core import *
from props import prop
from props.pack import extras, rate_of, series, words, wire, cut, FLUSH, V2FLAG

KEEP = 0x200
SIDS = ["FDSN:XX_S__L_H_Z", "FDSN:XX_S__L_H_N", "FDSN:IU_ANMO_00_B_H_1"]
UNITS = [(1000, 10000), (10**6, 10), (10**6, 50), (10**7, 100), (10**9, 1), (10**9, 30), (10**6, 4)]


def start(o, u, prealloc=0, prng=1):
    d, sec, n = obs.instant(u.base)
    rates = [{"hz": H, "per": p, "r": rate_of(float(u.rate(H)))} for H, p in sorted(u.rates.items()) if p]
    cfg = {"o": {"sv": bool(o["sv"]), "ah": bool(o["ah"]), "tt": -1, "rt": -1, "rl": False}, "base": [d, sec, n], "u": u.U, "ups": 10**9 // u.U, "rates": rates}
    s = Session(cfg)
    s.reset_args = "prealloc=%d" % prealloc
    s.do("tl_new t=0 prng=%d" % prng)
    return s


def units(rng, UP=None):
    u = tl.Units(rng, *(UP or rng.choice(UNITS)))
    u.base = rng.choice([1530000000, 1700000000, 1893456000, -100000000, -1, 7000000000, 86400 * 365 - 7]) * 10**9 + rng.choice([0, 123456789 // u.U * u.U if u.U < 10**9 else 0])
    return u


def add(s, u, o, sid, st, cnt, H, pub, ty, vals, slot=0):
    rec = {"sid": list(sid.encode()), "pub": pub, "st": st, "cnt": cnt, "per": u.rates[H], "hz": H, "ty": ty if cnt else "0", "dat": words(ty, vals), "loc": 0}
    c = "rec_new r=%d sid=%s st=%d rate=%s cnt=%d pub=%d fmt=3" % (slot, hx(sid), u.ns(st), u.rate(H), cnt, pub)
    if cnt:
        c += " type=%s data=%s" % (ty, wire(ty, vals))
    s.do(c)
    s.do("tl_add t=0 r=%d sv=%d ah=%d rl=0" % (slot, o["sv"], o["ah"]), lambda r: {"op": "add", "rec": rec, "r": {"ok": bool(r["ok"])}})


def pack(s, reclen, enc, flush, keep, v2, x=("", [], 0)):
    st = {}
    s.do("tl_pack t=0 b=1 reclen=%d enc=%d fl=%d%s" % (reclen, enc, (FLUSH if flush else 0) | (KEEP if keep else 0) | (V2FLAG if v2 else 0), " extra=" + hx(x[0]) if x[0] else ""),
         lambda r: st.update(r) and None)

    def fn(r):
        own = not x[0] or bool(st.get("exalive") and st.get("exsame"))
        return {"op": "pack", "reclen": reclen, "enc": enc, "flush": flush, "keep": keep, "v2": v2, "extra": [ord(c) for c in x[0]], "ex": x[1],
                "r": {"rv": st["rv"], "packed": st["packed"], "recs": cut(r["hex"], st["lens"]), "own": own}}
    s.do("buf_dump b=1", fn)


def lengths(b):
    """record lengths of a written file, by its own headers"""
    out, i = [], 0
    while i < len(b):
        if b[i:i + 3] == b"MS\3" and i + 40 <= len(b):
            n = 40 + b[i + 33] + struct.unpack_from("<H", b, i + 34)[0] + struct.unpack_from("<I", b, i + 36)[0]
        elif i + 64 <= len(b):
            n = 1 << b[i + 48 + 6] if b[i + 48:i + 50] == b"\x03\xe8" else len(b) - i
        else:
            n = len(b) - i
        n = max(1, min(n, len(b) - i))
        out.append(n)
        i += n
    return out


def write(s, path, ow, reclen, enc, v2, old):
    """the list written to a file: a flush that leaves it alone; old: what the file held"""
    st = {}
    s.do("tl_write t=0 path=%s ow=%d reclen=%d enc=%d fl=%d" % (hx(path), ow, reclen, enc, V2FLAG if v2 else 0), lambda r: st.update(r) and None)
    s.do("buf_load b=2 path=" + hx(path))

    def fn(r):
        b = bytes.fromhex(r["hex"])
        if not ow and b.startswith(bytes(old["b"])):
            c = b[len(old["b"]):]
        else:
            c = b if ow else b"?" + b
        old["b"] = b
        return {"op": "pack", "reclen": reclen, "enc": enc, "flush": True, "keep": True, "v2": v2, "extra": [], "ex": [],
                "r": {"rv": st["rv"], "packed": -1, "recs": cut(c.hex(), lengths(c)), "own": True}}
    s.do("buf_dump b=2", fn)


def dump(s, u):
    def fn(r):
        ids = []
        for d in r["ids"]:
            segs = [{"st": u.unns(g["st"]), "en": u.unns(g["en"]), "hz": u.unhz(f64(g["rate"])), "cnt": g["cnt"], "ty": g["type"], "num": g["num"],
                     "dat": obs.samples(g["type"], g.get("data", []))} for g in d["segs"]]
            ids.append({"sid": codes(d["sid"]), "pub": d["pub"], "numseg": d["numseg"], "segs": segs})
        return {"op": "dump", "r": ids}
    s.do("tl_dump t=0 data=1 rl=0", fn)


def vals(rng, ty, n, big=False):
    if ty == "t":
        return [rng.choice([32, 65, 10, 126]) for _ in range(n)]
    if ty == "f":
        return [rng.uniform(-1e6, 1e6) for _ in range(n)]
    if ty == "d":
        return [rng.choice([0.0, 5e-324, rng.uniform(-1e9, 1e9)]) for _ in range(n)]
    return series(rng, n, 30) if big else [rng.randint(-32768, 32767) for _ in range(n)]


@prop("W04")
def w04(run):
    rng = run.rng
    q = not run.thorough()
    inv = ["Once", "RightTime", "LeftTime", "Flushed", "Bounded", "Ordered", "Emit"]
    base = dict(N=3 if q else 4, Slots={0, 1, 2, 3, 4}, Cnts={1, 2}, Sids={0}, Rooms={1, 2}, Opts="@OptsRoll")
    hs = run.mc("MCRoll", "one trace", base, inv)
    hs += run.mc("MCRoll", "two traces", dict(base, Slots={0, 1, 2}, Cnts={2}, Sids={0, 1}, N=4), inv)
    if not q:
        run.mc("MCRoll", "deep", dict(base, N=5, Slots={0, 1, 2, 3}), inv[:-1])
    lim = run.scale(500, 20000)
    if len(hs) > lim:
        hs = rng.sample(hs, lim)
    ss = []
    for h in hs:
        u = units(rng, rng.choice([(1000, 10000), (10**6, 10), (10**7, 100), (10**9, 30)]))
        o = tl.opts(ah=int(h["ah"]))
        s = start(o, u, rng.choice([0, 0, 64]), rng.randrange(1, 1 << 30))
        enc, sz, ty = rng.choice([(3, 4, "i"), (4, 4, "f"), (5, 8, "d"), (0, 1, "t")])
        for k, e in enumerate(h["h"]):
            if e["k"] == "a":
                add(s, u, o, SIDS[e["sd"]], e["g"] * u.P, e["c"], 1000, 1, ty, vals(rng, ty, e["c"]))
            else:
                pack(s, 40 + len(SIDS[0]) + sz * h["room"], enc, e["flush"], e["keep"], False)
            if k == len(h["h"]) - 1 or rng.random() < 0.3:
                dump(s, u)
        pack(s, 200, enc, True, False, False)
        pack(s, 200, enc, rng.random() < 0.5, False, False)
        dump(s, u)
        ss.append(s)
    run.validate("RollTrace", ss, "histories of the model")
    ss = []
    for i in range(run.scale(130, 4000)):
        # long streams through several traces, flushed at times
        u = units(rng)
        o = tl.opts(ah=rng.randrange(2), sv=rng.randrange(2))
        s = start(o, u, rng.choice([0, 0, 64, 1000]), rng.randrange(1, 1 << 30))
        v2 = rng.random() < 0.5
        lines = []
        for k in range(rng.choice([1, 1, 2, 3])):
            ty = rng.choice("iiiifdt")
            lines.append([SIDS[k % 3], rng.choice([0, 0, 5, 9]), ty, rng.choice([1000, 1000] + [H for H in u.rates if u.rates[H]]), rng.choice([1, 1, 2, 4])])
        reclen = rng.choice([128, 128, 256, 512]) if v2 else rng.choice([64, 90, 128, 200, 256, 300])
        enc = rng.choice([-1, 1, 3, 10, 11])
        x = extras(rng) if rng.random() < 0.3 else ("", [], 0)
        if x[2] or not v2 and len(x[0]) > 30:
            x = ("", [], 0)
        old = {"b": b""}
        s.do("buf_set b=7 hex=00", lambda r, old=old: old.update(b=b"") and None)
        path = "w04-%d.ms" % i
        for j in range(rng.choice([2, 4, 6, 9])):
            for ln in rng.sample(lines, rng.randint(1, len(lines))):
                sid, at, ty, H, pub = ln
                per = u.rates[H]
                r = rng.random()
                cnt = rng.choice([1, 2, 5, 20, 40]) if r > 0.05 else 0
                if r > 0.9:
                    at += rng.choice([1, 2, 5]) * per       # a gap
                elif r > 0.85:
                    at -= rng.choice([1, 2, 3]) * per       # an overlap
                t = at
                if rng.random() < 0.15 and per >= 6:
                    t += rng.choice([-1, 1]) * rng.randint(1, per // 3)
                add(s, u, o, sid, t, cnt, H, pub if rng.random() < 0.9 else 3, ty, vals(rng, ty, cnt, enc == 10 or enc == 11 and rng.random() < 0.5))
                ln[1] = at + cnt * per
            r = rng.random()
            if r < 0.6:
                pack(s, reclen, enc, rng.random() < 0.25, rng.random() < 0.15, v2, x)
            elif r < 0.7:
                write(s, path, rng.randrange(2), rng.choice([reclen, 512]), enc, v2, old)
            if rng.random() < 0.35:
                dump(s, u)
        pack(s, reclen, enc, True, False, v2, x)
        dump(s, u)
        if rng.random() < 0.5:
            pack(s, reclen, enc, True, False, v2, x)
        ss.append(s)
    run.validate("RollTrace", ss, "streams")
