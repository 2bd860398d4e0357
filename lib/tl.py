"""Sessions over trace lists (properties T01-T07) and their projection to model terms."""
import struct
from core import *

K = 4  # sample values are scaled by 4 in traces (quarters)
BASES = [1530000000, 1700000000, 1893456000, -100000000, -1, -6000000000, 7000000000, 1000000007]

def f2h(v): return struct.pack(">f", v).hex()
def d2h(v): return struct.pack(">d", v).hex()


class Units:
    """Projection between real times/rates and the integers of a trace."""

    def __init__(self, rng, U=None, P=None, multi=False):
        if multi:
            # variants of 1000 Hz in units of 0.01 Hz; period in ns, exact to < 0.5 ns over 100 samples
            self.U = 1
            self.hzunit = 0.01
            self.rates = {}
            for H in (100000, 100005, 99995, 100009, 99991, 100011, 99989, 100012, 99988, 100020, 99980, 101000, 99000, 200000, 50000, 25000):
                self.rates[H] = int(1e9 / (H * 0.01) + 0.5)
            self.P = 1000000
            self.H = 100000
        else:
            self.U, self.P = (U, P) if U else rng.choice([(1, 1000000), (1000, 1000), (1000, 10000), (10**6, 10), (10**6, 25), (10**6, 7),
                                                           (10**7, 100), (10**8, 10), (5 * 10**8, 2), (10**9, 1), (10**9, 30), (2 * 10**9, 50), (10**5, 3333)])
            self.hzunit = None
            self.H = 1000
            self.rates = {1000: self.P, 2000: None, 500: self.P * 2, 0: 0}
            if self.P % 2 == 0:
                self.rates[2000] = self.P // 2
            else:
                del self.rates[2000]
        self.base = rng.choice(BASES) * 10**9 + rng.choice([0, 0, 123456789, 999999999])
        # leap seconds in range would shift end times: keep the whole span clear of them
        self.hz0 = 1e9 / (self.P * self.U)

    def ns(self, t):
        return self.base + t * self.U

    def unns(self, x):
        d = x - self.base
        return d // self.U if d % self.U == 0 else 2147483640

    def rate(self, H, rng=None):
        """rate argument (decimal repr) for rate class H"""
        if self.hzunit:
            return repr(H * self.hzunit)
        if H == 0:
            return "0.0"
        if rng is not None and rng.random() < 0.4:
            return repr(-(self.rates[H] * self.U) / 1e9)
        return repr(1e9 / (self.rates[H] * self.U))

    def unhz(self, d):
        if self.hzunit:
            h = round(d / self.hzunit)
            return h if abs(d - h * self.hzunit) < 1e-6 else 2147483640
        h = round(d / self.hz0 * 1000)
        return h if h == 0 and d == 0 or (h and abs(d - h * self.hz0 / 1000) < 1e-9 * d) else 2147483640


def sval(ty, v):
    """model value (scaled) of a sample given as recorder text"""
    if ty == "i":
        return v * K
    x = f32(v) if ty == "f" else f64(v)
    q = x * K
    return int(q) if q == q and abs(q) < 2**30 and q == int(q) else 2147483640


def samples(ty, data):
    if ty == "t":
        return list(bytes.fromhex(data)) if data else []
    return [sval(ty, v) for v in data]


def wire(ty, vals):
    """data= argument for scaled model values"""
    if ty == "i":
        return ",".join(str(v // K) for v in vals)
    if ty == "f":
        return ",".join(f2h(v / K) for v in vals)
    if ty == "d":
        return ",".join(d2h(v / K) for v in vals)
    return bytes(vals).hex()


def mkrec(u, sid, st, cnt, H=None, pub=1, ty="0", dat=(), loc=0, rng=None):
    H = u.H if H is None else H
    return {"sid": list(sid.encode()), "pub": pub, "st": st, "cnt": cnt, "per": u.rates[H], "hz": H,
            "ty": ty, "dat": list(dat), "loc": loc, "_rate": u.rate(H, rng)}


def pub(r):
    return {k: v for k, v in r.items() if not k.startswith("_")}


def reccmd(u, slot, r, fmt=3, enc=None):
    c = "rec_new r=%d sid=%s st=%d rate=%s cnt=%d pub=%d fmt=%d" % (slot, bytes(r["sid"]).hex(), u.ns(r["st"]), r["_rate"], r["cnt"], r["pub"], fmt)
    if enc is not None:
        c += " enc=%d" % enc
    if r["ty"] != "0":
        c += " type=%s data=%s" % (r["ty"], wire(r["ty"], r["dat"]))
    return c


def optargs(u, o, tolH=None):
    a = " sv=%d ah=%d rl=%d" % (o["sv"], o["ah"], o["rl"])
    if o["tt"] >= 0:
        a += " tt=%r" % ((o["tt"] * u.U + 0.4) / 1e9)
    if o["rt"] >= 0:
        a += " rt=%r" % ((o["rt"] + 0.5) * (u.hzunit or u.hz0 / 1000))
    return a


def b(x):
    return bool(x)


def dump_view(u, r, withdata=True, rlmap=None):
    """projection of a recorded dump to ListView"""
    ids = []
    for d in r["ids"]:
        segs = []
        for s in d["segs"]:
            dat = samples(s["type"], s.get("data", [])) if withdata else []
            rl = []
            if rlmap and "rl" in s:
                for x in s["rl"]:
                    rl.append({"st": u.unns(x[0]), "en": u.unns(x[1]), "cnt": x[2], "loc": rlmap(x)})
                if s["rlcnt"] not in (len(s["rl"]), -1) or not s["rllast"]:
                    rl.append({"st": 0, "en": 0, "cnt": -s["rlcnt"], "loc": -99})
            segs.append({"st": u.unns(s["st"]), "en": u.unns(s["en"]), "hz": u.unhz(f64(s["rate"])), "cnt": s["cnt"],
                         "ty": s["type"], "num": s["num"], "dat": dat, "rl": rl})
        ids.append({"sid": codes(d["sid"]), "pub": d["pub"], "earliest": u.unns(d["earliest"]), "latest": u.unns(d["latest"]),
                    "numseg": d["numseg"], "segs": segs})
    return {"num": r["numtraceids"], "ids": ids}


def links_ok(r):
    return bool(all(d["link"] and (d["found"] or d["pub"] == 0) and d["found0"] for d in r["ids"]) and r["skip"])


def add_step(s, u, r, o, slot=0, extra="", own=False):
    ev = pub(r)
    s.do(reccmd(u, slot, r))
    cmd = "tl_add t=0 r=%d%s%s" % (slot, optargs(u, o), extra)
    if o["rl"]:
        cmd += " file=%s off=%d" % (hx("F"), r["loc"])

    def fn(res, ev=ev):
        e = {"op": "add", "rec": ev, "r": {"ok": b(res["ok"]), "iord": res.get("iord", -1), "sord": res.get("sord", -1)}}
        if own:
            e["o"] = {"sv": b(o["sv"]), "ah": b(o["ah"]), "tt": o["tt"], "rt": o["rt"], "rl": b(o["rl"])}
        return e
    s.do(cmd, fn)


def dump_step(s, u, data=True, rl=False):
    def fn(res):
        return {"op": "dump", "r": dump_view(u, res, data, (lambda x: x[3] if x[8] == hx("F") else -5) if rl else None), "links": links_ok(res)}
    s.do("tl_dump t=0 data=%d rl=%d" % (data, rl), fn)


def find_step(s, u, sid, pubv):
    def fn(res):
        return {"op": "find", "sid": list(sid.encode()), "pub": pubv,
                "r": {"found": b(res["found"]), "sid": codes(res["sid"]) if res["found"] else [], "pub": res.get("pub", -1)}}
    s.do("tl_find t=0 sid=%s pub=%d" % (hx(sid), pubv), fn)


def start(o, u, **kw):
    cfg = {"o": {"sv": b(o["sv"]), "ah": b(o["ah"]), "tt": o["tt"], "rt": o["rt"], "rl": b(o["rl"])}, "small": b(o["tt"] < min(p for p in u.rates.values() if p))}
    s = Session(cfg)
    s.reset_args = "prealloc=%d" % kw.get("prealloc", 0)
    s.info = {"U": u.U, "P": u.P, "base": u.base}
    s.do("tl_new t=0 prng=%d" % kw.get("prng", 1))
    return s


def opts(**kw):
    o = {"sv": 0, "ah": 0, "tt": -1, "rt": -1, "rl": 0}
    o.update(kw)
    return o


def data_for(rng, ty, i, cnt, frac=False):
    if ty == "0":
        return []
    if ty == "t":
        return [33 + (7 * i + j) % 90 for j in range(cnt)]
    out = []
    for j in range(cnt):
        v = (i * 100 + j + 1) * K
        if i % 3 == 1:
            v = -v
        if frac and ty in "fd" and rng.random() < 0.3:
            v += rng.choice([1, 2, 3])
        out.append(v)
    return out


SIDS = ["FDSN:XX_STA%d__B_H_Z" % i for i in range(10)]


def random_history(rng, n, o, nsid=2, types=("i",), jitter=True, gridw=12, pubs=(1,), rates=None, zero=0.05, u=None, prealloc=None, frac=False,
                   dump_every=3, dup=0.08):
    """records mostly on a grid of sample periods so that joins, gaps, overlaps, duplicates and heals are frequent"""
    u = u or Units(rng)
    s = start(o, u, prealloc=prealloc if prealloc is not None else 0, prng=rng.randrange(1, 1 << 30))
    prev = []
    for i in range(n):
        if prev and rng.random() < dup:
            q = dict(rng.choice(prev))
            r = mkrec(u, bytes(q["sid"]).decode(), q["st"], q["cnt"], q["hz"], rng.choice(pubs), q["ty"],
                      data_for(rng, q["ty"], i, len(q["dat"]), frac), i + 1, rng)
        else:
            H = rng.choice(rates) if rates else u.H
            per = u.rates[H] or u.P
            cnt = rng.choice([1, 1, 2, 3, 4, 5]) if rng.random() > zero else 0
            g = rng.randrange(gridw)
            t = g * per
            if jitter and rng.random() < 0.35:
                half = per // 2
                t += rng.choice([half, -half, half + 1, -half - 1, 1, -1, half // 2, -(half // 2), per // 3])
            ty = rng.choice(types) if cnt else "0"
            r = mkrec(u, SIDS[rng.randrange(nsid)], t, cnt, H, rng.choice(pubs), ty, data_for(rng, ty, i, cnt, frac), i + 1, rng)
        prev.append(r)
        add_step(s, u, r, o)
        if (i + 1) % dump_every == 0 or i == n - 1:
            dump_step(s, u, rl=b(o["rl"]))
    return s, u, prev
