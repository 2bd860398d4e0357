"""T01-T07 and R05: the trace list."""
import msr, tl
from core import *
from props import prop

INV = "Conserved Ordered Bounded OneEach SegData Versions OrderFree".split()
NOORD = [x for x in INV if x != "OrderFree"]
BASE = dict(N=3, Slots={0, 1, 2, 3, 4}, Cnts={1, 2}, Rates={0}, Pubs={1}, Sids={0}, Halves={0}, Types={"i"}, Opts="@OptsBasic")


def explore(run, label, limit=4000, emit="Emit", data=True, con=None, inv=INV, extra=(), **k):
    """Model-check one configuration of MCTraceList and replay its histories in the library."""
    c = dict(BASE)
    c.update(k)
    hs = run.mc("MCTraceList", label, c, list(inv) + [emit], ["JoinRule"], constraint=con)
    total = len(hs)
    if len(hs) > limit:
        hs = run.rng.sample(hs, limit)
    ss = []
    for h in hs:
        u = tl.Units(run.rng, *run.rng.choice([(1, 1000000), (1000, 1000), (10**6, 10), (10**7, 100), (10**8, 10), (10**9, 10), (10**5, 3330)]))
        o = tl.opts(sv=int(h["o"]["sv"]), ah=int(h["o"]["ah"]), rl=1, tt=-1 if h["o"]["tt"] < 0 else h["o"]["tt"] * u.P // 10, rt=h["o"]["rt"])
        s = tl.start(o, u, prealloc=run.rng.choice([0, 0, 64]), prng=run.rng.randrange(1, 1 << 30))
        for i, g in enumerate(h["h"]):
            H = [1000, 500][g["r"]]
            ty = g["t"] if g["c"] else "0"
            off = g["h"] * u.P / 10
            # half a period and just beyond it keep their meaning in any unit
            off = {0: 0, 5: u.P // 2, 4: u.P // 2 - 1, 6: u.P // 2 + 1}.get(g["h"], int(off))
            r = tl.mkrec(u, tl.SIDS[g["sd"]], g["g"] * u.P + off, g["c"], H, g["pb"], ty, tl.data_for(run.rng, ty, i, g["c"]), i + 1, run.rng)
            tl.add_step(s, u, r, o)
        tl.dump_step(s, u, rl=True)
        for x in extra:
            x(s, u, o)
        ss.append(s)
    run.cov.setdefault("replayed", {})[label] = "%d of %d" % (len(hs), total)
    run.validate("TraceListTrace", ss, label)


def randoms(run, label, n, gen):
    run.validate("TraceListTrace", [gen(i) for i in range(n)], label)


@prop("T01")
def t01(run):
    q = not run.thorough()
    explore(run, "grid", 3000 if q else 10**6, N=3 if q else 4)
    explore(run, "halves", 1500 if q else 10**6, Slots={0, 1, 2, 3}, Halves={0, 4, 5, 6}, Cnts={1}, Opts="@OptsHeal")
    explore(run, "rates", 1500 if q else 10**6, inv=NOORD, Slots={0, 1, 2, 3}, Rates={0, 1})
    explore(run, "zero", 1500 if q else 10**6, inv=NOORD, Cnts={0, 1, 2})
    explore(run, "big", 1500 if q else 10**6, inv=NOORD, Opts="@OptsBig")
    rng = run.rng

    def gen(i):
        o = tl.opts(ah=rng.randrange(2), sv=rng.randrange(2), rl=rng.randrange(2))
        return tl.random_history(rng, rng.randrange(3, 16), o, pubs=(1, 2), types=("i", "i", "i", "f", "0"))[0]

    def long(i):
        o = tl.opts(ah=rng.randrange(2), rl=1)
        return tl.random_history(rng, 40, o, gridw=60, nsid=1, dump_every=10)[0]
    randoms(run, "random", run.scale(400, 8000), gen)
    randoms(run, "long", run.scale(40, 600), long)


@prop("T02")
def t02(run):
    q = not run.thorough()
    rng = run.rng
    explore(run, "ids", 2500 if q else 10**6, Slots={0, 1, 2}, Cnts={1}, Pubs={0, 1, 2}, Sids={0, 1}, Opts="@OptsVer", inv=NOORD)
    explore(run, "grid", 2500 if q else 10**6, N=3 if q else 4)

    def many(i):
        # many identifiers: every level of the index is used
        u = tl.Units(rng)
        sv = rng.random() < 0.3
        o = tl.opts(ah=1, sv=int(sv))
        s = tl.start(o, u, prng=rng.randrange(1, 1 << 30))
        alpha = rng.choice(["AB", "ABC", "A_", "09Az~!"])
        names = set()
        n = rng.choice([6, 25, 25, 60])
        for _ in range(200):
            if len(names) >= n:
                break
            names.add("".join(rng.choice(alpha) for _ in range(rng.randrange(1, 7))))
        names = sorted(names)
        rng.shuffle(names)
        used = []
        for k, nm in enumerate(names):
            pv = rng.choice([1, 2, 3]) if sv else 1
            tl.add_step(s, u, tl.mkrec(u, nm, rng.randrange(6) * u.P, rng.choice([1, 2]), pub=pv, rng=rng), o)
            used.append((nm, pv))
            if rng.random() < 0.3:
                a, b = rng.choice(used)
                tl.add_step(s, u, tl.mkrec(u, a, rng.randrange(6) * u.P, 1, pub=b, rng=rng), o)
            if rng.random() < 0.15:
                tl.dump_step(s, u, data=False)
            if rng.random() < 0.4:
                a, b = rng.choice(used)
                tl.find_step(s, u, a, rng.choice([0, b, b, 9]))
                x = "".join(rng.choice(alpha) for _ in range(rng.randrange(1, 7)))
                tl.find_step(s, u, x, rng.choice([0, 0, 1]))
        tl.dump_step(s, u, data=False)
        return s
    randoms(run, "many_ids", run.scale(80, 1500), many)

    def segs(i):
        o = tl.opts(ah=rng.randrange(2))
        return tl.random_history(rng, 30, o, gridw=40, nsid=2, dump_every=4)[0]
    randoms(run, "many_segments", run.scale(60, 1200), segs)


@prop("T03")
def t03(run):
    q = not run.thorough()
    rng = run.rng
    explore(run, "perm", 3000 if q else 10**6, emit="EmitN", con="NoOverlap", N=4 if q else 5, Slots={0, 1, 2, 3, 4, 5}, Opts="@OptsHeal")
    explore(run, "perm_jitter", 3000 if q else 10**6, emit="EmitN", con="NoOverlap", N=3 if q else 4, Slots={0, 1, 2, 3, 4}, Halves={0, 4, 5, 6}, Cnts={1}, Opts="@OptsHeal")
    explore(run, "perm_two_ids", 2000 if q else 10**6, emit="EmitN", con="NoOverlap", N=3 if q else 4, Slots={0, 1, 2, 3}, Sids={0, 1}, Opts="@OptsHeal")

    def perms(k):
        # one set of non-overlapping records in several orders: each must give the same list
        u = tl.Units(rng)
        o = tl.opts(ah=1, rl=rng.randrange(2))
        recs, pos = [], [0, 0]
        for i in range(rng.randrange(5, 14)):
            d = rng.randrange(2)
            cnt = rng.choice([1, 2, 3])
            if rng.random() < 0.3:
                pos[d] += rng.choice([1, 2]) * u.P
            j = rng.choice([0, 0, 0, u.P // 2, u.P // 3])
            ty = "ifd"[d] if False else "i"
            recs.append((tl.SIDS[d], pos[d] + j, cnt, tl.data_for(rng, ty, i, cnt), i + 1))
            pos[d] += cnt * u.P + j
        out = []
        for _ in range(4):
            rng.shuffle(recs)
            s = tl.start(o, u)
            for sid, t, cnt, dat, loc in recs:
                tl.add_step(s, u, tl.mkrec(u, sid, t, cnt, ty="i", dat=dat, loc=loc, rng=rng), o)
            tl.dump_step(s, u, rl=bool(o["rl"]))
            out.append(s)
        return out
    run.validate("TraceListTrace", [s for k in range(run.scale(100, 2000)) for s in perms(k)], "permutations")


def convert_step(s, i, g, to, trunc):
    def fn(res):
        if "none" in res:
            return {"op": "noseg", "id": i, "seg": g}
        return {"op": "convert", "id": i, "seg": g, "to": to, "trunc": bool(trunc), "k": tl.K,
                "r": {"ok": res["rv"] == 0, "ty": res["type"], "num": res["num"], "dat": tl.samples(res["type"], res["data"])}}
    s.do("tl_convert t=0 id=%d seg=%d to=%s trunc=%d" % (i, g, to, trunc), fn)


def resize_step(s, u, rl=False):
    s.do("tl_resize t=0", None)
    tl.dump_step(s, u, rl=rl)


@prop("T04")
def t04(run):
    q = not run.thorough()
    rng = run.rng
    explore(run, "types", 2500 if q else 10**6, inv=NOORD, Slots={0, 1, 2, 3}, Types={"i", "f", "0"}, Cnts={1})
    explore(run, "types2", 2500 if q else 10**6, inv=NOORD, Slots={0, 1, 2, 3}, Types={"i", "d"}, Cnts={1, 2}, Opts="@OptsHeal",
            extra=[lambda s, u, o: convert_step(s, 0, 0, rng.choice("ifd"), 0), lambda s, u, o: resize_step(s, u, True)])

    def gen(i):
        u = tl.Units(rng)
        o = tl.opts(ah=rng.randrange(2))
        types = rng.choice([("i",), ("f",), ("d",), ("i", "d"), ("t",), ("d", "d", "f"), ("i", "t")])
        s = tl.start(o, u, prealloc=rng.choice([0, 0, 32, 4096]))
        for k in range(rng.randrange(4, 14)):
            cnt = rng.choice([1, 2, 3, 5, 9, 40])
            ty = rng.choice(types)
            r = tl.mkrec(u, tl.SIDS[rng.randrange(2)], rng.randrange(20) * u.P, cnt, ty=ty, dat=tl.data_for(rng, ty, k, cnt, True), loc=k + 1, rng=rng)
            tl.add_step(s, u, r, o)
            x = rng.random()
            if x < 0.25:
                convert_step(s, rng.randrange(2), rng.randrange(3), rng.choice("ifd" if rng.random() < 0.9 else "t"), rng.randrange(2))
            elif x < 0.35:
                resize_step(s, u)
            if rng.random() < 0.3:
                tl.dump_step(s, u)
        for i in range(2):
            for g in range(2):
                convert_step(s, i, g, rng.choice("ifd"), rng.randrange(2))
        resize_step(s, u)
        tl.dump_step(s, u)
        return s
    randoms(run, "conversions", run.scale(400, 8000), gen)


@prop("T06")
def t06(run):
    q = not run.thorough()
    rng = run.rng
    explore(run, "tol", 3000 if q else 10**6, inv=NOORD, Slots={0, 1, 2}, Rates={0, 1}, Halves={0, 3, 6}, Cnts={1}, Opts="@OptsTol")

    def edge(i):
        # two records one tick either side of the tolerance
        u = tl.Units(rng)
        tt = rng.choice([-1, 0, 1, u.P // 3, u.P // 2, u.P, u.P + 1, 3 * u.P])
        o = tl.opts(ah=rng.randrange(2), tt=tt)
        tol = tt if tt >= 0 else u.P // 2
        s = tl.start(o, u)
        st, cnt = 0, rng.choice([1, 2, 7])
        a = tl.mkrec(u, tl.SIDS[0], st, cnt, rng=rng)
        tl.add_step(s, u, a, o)
        d = rng.choice([-1, 1]) * (tol + rng.choice([-1, 0, 1]))
        n = rng.choice([1, 2, 5])
        if rng.random() < 0.5:
            t = st + cnt * u.P + d
        else:
            t = st - n * u.P - d
        tl.add_step(s, u, tl.mkrec(u, tl.SIDS[0], t, n, rng=rng), o)
        tl.dump_step(s, u)
        return s
    randoms(run, "time_edges", run.scale(600, 12000), edge)

    def rates(i):
        u = tl.Units(rng, multi=True)
        o = tl.opts(ah=rng.randrange(2), tt=rng.choice([-1, -1, u.P * 2]), rt=rng.choice([-1, 0, 5, 9, 10, 20, 1000]))
        return tl.random_history(rng, rng.randrange(3, 12), o, u=u, rates=rng.sample(list(u.rates), 3), dup=.03, zero=.02, gridw=8)[0]
    randoms(run, "rates", run.scale(300, 6000), rates)

    def pair(i):
        # two continuous records whose rates differ by one step either side of the tolerance
        u = tl.Units(rng, multi=True)
        o = tl.opts(ah=1, rt=rng.choice([-1, -1, 0, 5, 9, 10, 20, 1000, 100000]))
        s = tl.start(o, u)
        a, b = rng.choice(list(u.rates)), rng.choice(list(u.rates))
        r = tl.mkrec(u, tl.SIDS[0], 0, 2, a, rng=rng)
        tl.add_step(s, u, r, o)
        pb = u.rates[b]
        tl.add_step(s, u, tl.mkrec(u, tl.SIDS[0], u.rates[a] + pb + rng.choice([0, pb // 2, -(pb // 2)]), 2, b, rng=rng), o)
        tl.dump_step(s, u)
        return s
    randoms(run, "rate_pairs", run.scale(500, 10000), pair)

    def perrec(i):
        # the tolerance may be a function of each record: different setting per addition
        u = tl.Units(rng)
        o = tl.opts(ah=1)
        s = tl.start(o, u)
        s.cfg["small"] = False
        for k in range(6):
            o2 = tl.opts(ah=rng.randrange(2), tt=rng.choice([-1, 0, u.P // 3, 2 * u.P]), rt=rng.choice([-1, 0, 600]))
            r = tl.mkrec(u, tl.SIDS[0], rng.randrange(10) * u.P + rng.choice([0, u.P // 3]), rng.choice([1, 2]), rng.choice([1000, 500]), rng=rng)
            tl.add_step(s, u, r, o2, own=True)
        tl.dump_step(s, u)
        return s
    randoms(run, "per_record", run.scale(200, 4000), perrec)


@prop("T07")
def t07(run):
    q = not run.thorough()
    rng = run.rng
    explore(run, "ver", 3500 if q else 10**6, inv=NOORD, Slots={0, 1, 2}, Cnts={1}, Pubs={0, 1, 2}, Sids={0, 1}, Opts="@OptsVer")
    explore(run, "ver4", 2500 if q else 10**6, inv=NOORD, N=4, Slots={0, 1}, Cnts={1}, Pubs={0, 1, 2, 255}, Opts="@OptsVer")

    def gen(i):
        o = tl.opts(ah=rng.randrange(2), sv=rng.randrange(2), rl=1)
        s, u, prev = tl.random_history(rng, rng.randrange(3, 14), o, pubs=rng.choice([(0, 1, 2), (1, 2, 3, 4), (0, 255), (7, 0)]))
        for r in prev[:3]:
            tl.find_step(s, u, bytes(r["sid"]).decode(), r["pub"])
        return s
    randoms(run, "versions", run.scale(400, 8000), gen)


# ------------------------------------------------------------- reading routes
FL_UNPACK, FL_SKIP, FL_RANGE, FL_RL = 1, 2, 8, 0x100
ENCTY = {"i": 3, "f": 4, "d": 5, "t": 0, "st1": 10}


def dataset(rng, u, n, types=("i",), gridw=14, nsid=2, pubs=(1,), chain=False):
    """n records as bytes and as model records; loc numbers them from 1; chain: one continues the other"""
    recs, run = [], 0
    for i in range(n):
        cnt = rng.choice([1, 1, 2, 3, 5])
        ty = rng.choice(types)
        base = "i" if ty == "st1" else ty
        t = rng.randrange(gridw) * u.P + (rng.choice([0, u.P // 2, -(u.P // 3)]) if rng.random() < 0.2 else 0)
        if chain:
            t = run * u.P
            run += cnt + (rng.random() < 0.1)
        r = tl.mkrec(u, tl.SIDS[rng.randrange(nsid)], t, cnt, u.H, rng.choice(pubs), base, tl.data_for(rng, base, i, cnt), i + 1)
        vals = [v // tl.K if base == "i" else v / tl.K if base in "fd" else v for v in r["dat"]]
        pay = msr.steim1(vals) if ty == "st1" else msr.payload(ty, vals)
        rate = 1e9 / (u.P * u.U)
        if rng.random() < 0.4:
            rate = -(u.P * u.U) / 1e9
        r["_bytes"] = msr.v3(bytes(r["sid"]), u.ns(t), rate, cnt, ENCTY[ty], pay, r["pub"])
        recs.append(r)
    return recs


def unpack_step(s, i, g, osz, oty):
    """osz in samples, -1: into the segment"""
    sz = {"i": 4, "f": 4, "d": 8, "t": 1}[oty]

    def fn(res):
        if "none" in res:
            return {"op": "noseg", "id": i, "seg": g}
        ok = res["rv"] >= 0
        r = {"ok": ok, "ty": res["type"]}
        if ok:
            r["dat"] = tl.samples(res["type"], res["data"])
        return {"op": "unpack", "id": i, "seg": g, "osz": osz, "r": r}
    s.do("tl_unpack t=0 id=%d seg=%d%s" % (i, g, "" if osz < 0 else " osz=%d" % (osz * sz)), fn)


def withdata(r, unpack):
    r = tl.pub(r)
    if not unpack:
        r["dat"] = []
        r["ty"] = "0"
    return r


@prop("T05")
def t05(run):
    q = not run.thorough()
    rng = run.rng
    explore(run, "reclists", 2500 if q else 10**6)

    def gen(i, ranged=False):
        u = tl.Units(rng)
        types = rng.choice([("i",), ("i", "st1"), ("f",), ("d",), ("t",), ("i", "f")])
        recs = dataset(rng, u, rng.randrange(3, 12), types, pubs=(1, 2)) if i % 2 else dataset(rng, u, rng.randrange(3, 12), types, nsid=1, chain=True)
        if i % 4 == 0:  # loc numbers them as they come
            order = rng.sample(range(len(recs)), len(recs))
            recs = [dict(recs[k], loc=j + 1) for j, k in enumerate(order)]
        o = tl.opts(ah=1, sv=rng.randrange(2), rl=1)
        s = tl.start(o, u)
        s.cfg["store"] = [{"ty": r["ty"], "n": r["cnt"], "dat": r["dat"]} for r in recs]
        # cut the records into pieces held in buffers and files
        nparts = rng.choice([1, 2, 2, 3])
        nested = rng.random() < 0.5  # names that begin with each other
        cuts = sorted(rng.sample(range(1, len(recs)), min(nparts - 1, len(recs) - 1)))
        parts = [recs[a:b] for a, b in zip([0] + cuts, cuts + [len(recs)])]
        where = {}
        files = []
        for k, part in enumerate(parts):
            data = b"".join(r["_bytes"] for r in part)
            kind = "range" if ranged else rng.choice(["buf", "file", "file"])
            name = "t05_%d.ms" % i + "abc"[:k] if nested else "t05_%d_%d.ms" % (i, k)
            off = 0
            pre = b""
            if kind == "range":
                # a range names the part of a larger file
                pre = msr.v3("FDSN:ZZ_PRE__B_H_Z", u.ns(0), 1.0, 1, 3, b"\0\0\0\0") * rng.randrange(1, 3)
            s.do("buf_set b=%d hex=%s" % (k, (pre + data).hex()))
            off = len(pre)
            for r in part:
                where[("b%d" % k if kind == "buf" else name, off)] = r["loc"]
                off += len(r["_bytes"])
            mode = FL_RL | (FL_UNPACK if rng.random() < 0.2 else 0)
            ev = [withdata(r, mode & FL_UNPACK) for r in part]
            if kind == "buf":
                cmd = "tl_readbuf t=0 b=%d fl=%d%s" % (k, mode, tl.optargs(u, o))
            else:
                s.do("buf_file b=%d path=%s" % (k, hx(name)))
                files.append((name, pre + data))
                path = name
                if kind == "range":
                    path += "@%d-" % len(pre)
                    mode |= FL_RANGE
                    s.info["ranged"] = True
                cmd = "tl_readfile t=0 path=%s fl=%d%s" % (hx(path), mode, tl.optargs(u, o))

            def fn(res, ev=ev, kind=kind):
                return {"op": "readall", "recs": ev, "sel": [], "r": {"all": res["rv"] >= 0, "n": res["rv"] if kind == "buf" else len(ev)}}
            s.do(cmd, fn)

        def dmp(res):
            def loc(x):
                # x[6], x[7]: buffer slot and offset; x[8]: file name; x[3]: file offset
                f = bytes.fromhex(x[8]).decode().split("@")[0]
                return where.get(("b%d" % x[6], x[7]) if x[6] >= 0 else (f, x[3]), -7)
            return {"op": "dump", "r": tl.dump_view(u, res, True, loc), "links": tl.links_ok(res)}
        s.do("tl_dump t=0 data=1 rl=1", dmp)
        if files and not ranged and rng.random() < 0.4:
            # a file that the list refers to vanishes, or is cut short, and comes back
            name, data = rng.choice(files)
            n = rng.choice([-1, 0, rng.randrange(len(data)), len(data) - 1])
            mine = [(off, loc) for (f, off), loc in where.items() if f == name]
            lost = [loc for off, loc in mine if off + len(recs[loc - 1]["_bytes"]) > n] if all(recs[r["loc"] - 1] is r for r in recs) else None
            if lost is not None:
                s.do("buf_set b=15 hex=%s" % data[:max(n, 0)].hex())
                s.do("buf_file b=15 path=%s%s" % (hx(name), " gone=1" if n < 0 else ""), lambda res, lost=lost: {"op": "lost", "locs": lost})
                for a in range(3):
                    for b in range(3):
                        unpack_step(s, a, b, rng.choice([-1, -1, 80]), types[0] if types[0] != "st1" else "i")
                s.do("tl_dump t=0 data=1 rl=1", dmp)
                s.do("buf_set b=15 hex=%s" % data.hex())
                s.do("buf_file b=15 path=%s" % hx(name), lambda res: {"op": "lost", "locs": []})
        order = [(a, b) for a in range(3) for b in range(4)]
        rng.shuffle(order)
        for a, b in order:
            oty = types[0] if types[0] != "st1" else "i"
            if rng.random() < 0.4:
                unpack_step(s, a, b, rng.choice([0, 1, 2, 5, 20, 80]) if len(set(types) - {"st1"}) < 2 else 80, oty)
            if rng.random() < 0.8:
                unpack_step(s, a, b, -1, oty)
                if rng.random() < 0.2:
                    unpack_step(s, a, b, -1, oty)
        s.do("tl_dump t=0 data=1 rl=1", dmp)
        return s
    randoms(run, "deferred", run.scale(400, 8000), gen)
    randoms(run, "ranged_reclist", run.scale(60, 600), lambda i: gen(i, True))


@prop("R05")
def r05(run):
    rng = run.rng

    def group(i):
        u = tl.Units(rng)
        types = rng.choice([("i",), ("i", "st1"), ("f",), ("d",), ("i", "t")])
        recs = dataset(rng, u, rng.randrange(3, 14), types, pubs=rng.choice([(1,), (1, 2), (0, 1, 3)]), gridw=rng.choice([8, 20]))
        if rng.random() < 0.5:
            # a record of the least possible length, no identifier and no samples, often at the very end
            t = rng.randrange(20) * u.P
            r = tl.mkrec(u, "", t, 0, u.H, rng.choice([0, 1]), "0", [], len(recs) + 1)
            r["_bytes"] = msr.v3(b"", u.ns(t), 1e9 / (u.P * u.U), 0, 3, b"", r["pub"])
            recs.insert(rng.choice([len(recs), len(recs), rng.randrange(len(recs))]), r)
            for k, x in enumerate(recs):
                x["loc"] = k + 1
        o = tl.opts(ah=1, sv=rng.randrange(2), rl=rng.randrange(2), tt=rng.choice([-1, -1, -1, 0, u.P // 3]), rt=rng.choice([-1, -1, 0]))
        unpack = rng.random() < 0.7
        fl = (FL_UNPACK if unpack else 0) | (FL_RL if o["rl"] else 0)
        ev = [withdata(r, unpack) for r in recs]
        data = b"".join(r["_bytes"] for r in recs)
        # one selection for all the routes that take one
        pat = rng.choice(["*", "FDSN:XX_STA0*", "*STA[1-9]*", "*_Z", "*?1*"])
        w = [rng.choice([None, rng.randrange(-2, 16) * u.P]) for _ in range(2)]
        if None not in w:
            w.sort()
        pv = rng.choice([0, 0, 1])
        OPENT = -1000000007
        sel = [{"pat": list(pat.encode()), "pub": pv, "w": {"s": OPENT if w[0] is None else w[0], "e": OPENT if w[1] is None else w[1]}}]
        win = [{"pat": [42], "pub": 0, "w": sel[0]["w"]}]
        ws = (" ts=%d" % u.ns(w[0]) if w[0] is not None else "") + (" te=%d" % u.ns(w[1]) if w[1] is not None else "")
        name = "r05_%d.ms" % i
        out = []
        for route in ("buf", "file", "recs", "fd", "bufsel", "filesel", "recssel", "fdsel", "timewin", "twice"):
            if route == "timewin" and w == [None, None]:
                continue
            s = tl.start(o, u, prealloc=rng.choice([0, 256]))
            s.info["route"] = route
            s.do("buf_set b=0 hex=" + data.hex()).do("buf_file b=0 path=" + hx(name))
            if "sel" in route:
                s.do("sel_add s=0 pat=%s pub=%d%s" % (hx(pat), pv, ws))
            use = sel if "sel" in route else win if route == "timewin" else []
            f = fl | (FL_SKIP if rng.random() < 0.3 else 0)
            s_ = " s=0" if "sel" in route else ""
            oa = tl.optargs(u, o)
            if route.startswith("buf"):
                cmd = "tl_readbuf t=0 b=0 fl=%d%s%s" % (fl, s_, oa)
            elif route.startswith("file"):
                cmd = "tl_readfile t=0 path=%s fl=%d%s%s" % (hx(name), f, s_, oa)
            elif route == "timewin":
                cmd = "tl_readfile t=0 path=%s fl=%d%s%s" % (hx(name), f, ws, oa)
            else:
                if o["rl"]:
                    continue
                cmd = "tl_readrecs t=0 path=%s fl=%d fd=%d%s%s" % (hx(name), f, route.startswith("fd"), s_, oa)
            def fn(res, use=use, route=route):
                ok = res["rv"] >= 0
                n = res["rv"] if route.startswith("buf") else -1
                e = {"op": "readall", "recs": ev, "sel": use, "r": {"all": ok}}
                if route.startswith("buf"):
                    e["r"]["n"] = n
                if route[:2] in ("re", "fd"):
                    # added one by one: a refused record is left out and reading goes on
                    e["op"] = "readeach"
                    e["r"] = {"ok": ok, "n": res["n"]}
                return e
            s.do(cmd, fn)
            if route == "twice":
                continue
            def loc(x):
                off = x[7] if x[6] >= 0 else x[3]
                pos = 0
                for r in recs:
                    if pos == off:
                        return r["loc"]
                    pos += len(r["_bytes"])
                return -3
            def dmp(res):
                return {"op": "dump", "r": tl.dump_view(u, res, True, loc if o["rl"] else None), "links": tl.links_ok(res)}
            s.do("tl_dump t=0 data=1 rl=%d" % o["rl"], dmp)
            out.append(s)
        return out
    run.validate("TraceListTrace", [s for i in range(run.scale(90, 2000)) for s in group(i)], "routes")
