"""C01, C02, C03: the command."""
import json, os, random, struct, time
import msr, obs
from core import *
from props import prop

T0 = 1530000000
BASES = [1530000000, 1700000000, 1893456000, -100000000, 86399, -6000000000, 1000000007, 1582934400 - 5]


def cs(p):
    return list(p.encode("latin-1"))


def bits64(v):
    return obs.hexwords(struct.pack(">d", v).hex())


def bits32(v):
    return obs.f32words(v)


def rates_for(J):
    """(n, d, period in units, stored as, v2 factor and multiplier)"""
    if J == 3:
        l = [(100, 1, 10), (40, 1, 25), (50, 1, 20), (200, 1, 5), (1, 1, 1000), (1, 10, 10000), (1, 60, 60000), (8, 1, 125), (0, 1, 0)]
    elif J == 0:
        l = [(1, 1, 1), (1, 30, 30), (1, 60, 60), (1, 3600, 3600), (1, 7, 7), (0, 1, 0)]
    else:
        l = [(20000, 1, 50), (1000, 1, 1000), (500, 1, 2000), (40, 1, 25000), (0, 1, 0)]
    return l


class Env:
    def __init__(self, rng, J=None, near=False):
        self.J = rng.choice([3, 3, 3, 0, 0, 6]) if J is None else J
        self.N = 10 ** self.J
        self.U = 10 ** (9 - self.J)
        self.base = rng.choice(BASES) * 10**9 + rng.choice([0, 0, 7 * max(self.U, 100000)]) * (self.J > 0)
        self.rates = []
        self.hzk = {6: 0, 3: 3, 0: 4}[self.J]
        rl = rates_for(self.J)
        if near:
            rl = [(100, 1, 10)] + [(n, 1000, 10) for n in (99995, 100009, 100011, 99985, 99991, 100020, 99990)] + [(50, 1, 20)]
        self.use = []
        for n, d, per in rl:
            hz = n * 10**self.hzk // d if self.hzk else n // d
            v = n / d
            e = {"n": n, "d": d, "per": per, "hz": hz, "f": bits32(v) if obs.f32exact(v) else [-1, -1], "q": [n, d] if d == 1 or n == 1 else [-1, -1]}
            self.rates.append(dict(e, bits=bits64(v)))
            if d > 1 and n == 1:
                self.rates.append(dict(e, bits=bits64(-float(d)), f=[-2, -2], q=[-2, -2]))
            self.use.append((n, d, per))

    def ns(self, u):
        return self.base + u * self.U

    def cfg(self):
        return {"N": self.N, "J": self.J, "base": obs.instant(self.base), "rates": self.rates, "hzk": self.hzk}


SIDS = [("XX", "STA1", "", "BHZ"), ("XX", "STA1", "00", "BHZ"), ("XX", "STA2", "", "BHZ"), ("AA", "STA1", "10", "LHE"), ("ZZ", "A", "", "LOG"), ("XX", "STA1", "", "BHN")]


def payload(rng, n, kind=None):
    """(encoding, bytes little-endian for v3, big-endian for v2)"""
    k = kind or rng.choice(["i", "i", "i16", "f", "d", "t", "st1"])
    if k == "t":
        b = bytes(rng.choice(b"ABC xyz.,01") for _ in range(n))
        return 0, b, b
    if k == "st1":
        v = [rng.randrange(-200, 200) for _ in range(n)] or [0]
        b = msr.steim1(v)
        return 10, b, b
    if k in ("i", "i16"):
        v = [rng.choice([0, 1, -1, 5, 32767, -32768, rng.randrange(-30000, 30000)]) for _ in range(n)]
        if k == "i":
            v = [x if rng.random() < .8 else rng.choice([2**31 - 1, -2**31 + 1, 65536, -65536]) for x in v]
    else:
        v = [rng.choice([0.0, 1.0, -1.5, 0.125, 2.25, 1e5, 123456.75, -7.0, rng.randrange(-2**19, 2**19) / 8]) for _ in range(n)]
        v = [float(struct.unpack(">f", struct.pack(">f", x))[0]) for x in v]
    e = {"i": 3, "i16": 1, "f": 4, "d": 5}[k]
    return e, msr.payload(k, v), msr.payload(k, v, big=True)


def document(rng, depth):
    """a JSON object, written closely, its strings holding what the printing of a document looks for"""
    def text():
        return b'"' + b"".join(rng.choice([b"{", b"}", b"[", b"]", b":", b",", b" ", b"\\\"", b"\\\\", b"a", b"1", b"\\n", b"\\/"]) for _ in range(rng.randrange(6))) + b'"'

    def value(d):
        k = rng.randrange(7) if d < 3 else rng.randrange(5)
        return (text() if k < 3 else rng.choice([b"0", b"-1.5", b"12", b"1e3"]) if k == 3 else rng.choice([b"true", b"false", b"null"]) if k == 4
                else b"[" + b",".join(value(d + 1) for _ in range(rng.randrange(4))) + b"]" if k == 5 else document(rng, d + 1))
    return b"{" + b",".join(text() + b":" + value(depth) for _ in range(rng.randrange(4))) + b"}"


def record(rng, env, st, cnt, rate, sid=None, v=None, pub=None, kind=None, badcrc=False, extra=b"", undecodable=False):
    n, d, per = rate
    sid = sid or rng.choice(SIDS)
    v = v or rng.choice([3, 3, 2])
    enc, le, be = payload(rng, cnt, kind)
    if undecodable:
        # an unknown encoding, or less data than samples
        enc, le = rng.choice([(77, b"\xff" * 64), (3, b"\1" * (4 * cnt - 1)), (1, b"\1" * (2 * cnt - 1)), (5, b""), (10, b"\1" * 63), (11, b"\1" * rng.randrange(64)), (0, b"x" * (cnt - 1))])
        be = le
    if not cnt:
        le = be = b""
    if v == 2 and isinstance(sid, tuple):
        kw = {}
        ns = env.ns(st)
        if ns % 100000:
            kw["us"] = ns // 1000 % 100
            if kw["us"] > 49:
                kw["us"] -= 100
        if n and d not in (1,) and n != 1:
            kw["b100"] = n / d
            f, m = 100, 1
        elif n and d == 1 and rng.random() < .1:
            kw["b100"] = float(n)
            f, m = 1, 1
        else:
            f, m = (n, 1) if d == 1 else (-d, 1)
        return msr.v2(*sid, ns, f, m, cnt, enc, be, reclen=next(x for x in (128, 256, 512, 1024, 4096) if 128 + len(be) <= x), q=b" RDQM"[pub or 2:][:1] if (pub or 2) < 5 else b"M", big=True, **kw)
    val = n / d
    if d > 1 and n == 1 and rng.random() < .4:
        val = -float(d)
    s = msr.sidof(*sid) if isinstance(sid, tuple) else sid
    if not extra and rng.random() < .15:
        extra = rng.choice([b'{"a":1}', b'{"FDSN":{"Time":{"Quality":100,"Correction":-0.5},"Flags":{}}}', b'{"x":"a\\"b,{}:[c","y":[1,[2,{"z":null}],"q\\\\"],"k,:":true}', b"{}", b'{"l":[]}'])
        if rng.random() < .6:
            extra = document(rng, 0)
    return msr.v3(s, env.ns(st), val, cnt, enc, le, pub=pub or 1, badcrc=badcrc, extra=extra, flags=rng.choice([0, 0, 0, 1, 2, 4, 7, 8, 255]))


def put(s, name, b):
    s.do("buf_set b=0 hex=%s" % b.hex())
    s.do("buf_file b=0 path=%s" % hx(name), lambda r: {"op": "file", "name": cs(name), "b": list(b)})


def msi(s, args, stdin=None, sb=b"", bfile=None, ofile=None, op="run", env=None):
    cmd = "msi a=%s" % ",".join(hx(a) for a in args)
    if stdin:
        cmd += " in=" + hx(stdin)
    if env:
        cmd += " env=" + hx(env)
    files = [x for x in (bfile, ofile) if x]
    if files:
        cmd += " files=" + ",".join(hx(x) for x in files)

    def fn(r):
        d0, d1 = (time.gmtime(r[k]) for k in ("t0", "t1"))
        if d0.tm_yday != d1.tm_yday:
            return None
        got = dict(zip(files, r.get("files", [])))
        w = lambda f: [] if not f or got.get(f) is None else [codes(got[f])]
        e = {"op": op, "args": [{"s": a if all(32 <= ord(c) < 127 for c in a) else "", "c": cs(a)} for a in args], "in": list(sb), "day": cs("%04d,%03d" % (d0.tm_year, d0.tm_yday)),
             "exit": r["exit"], "out": codes(r["out"]), "reported": b"ERROR" in bytes.fromhex(r["err"]), "bin": w(bfile), "raw": w(ofile)}
        if r["exit"] not in (0, 1):
            e["stderr"] = bytes.fromhex(r["err"]).decode("latin-1")[:1500]
        return e
    s.do(cmd, fn)


def textrecord(rng, env):
    """text, often about as long as one log message holds"""
    return record(rng, env, rng.randrange(20) * env.use[0][2], rng.choice([1, 7, 197, 198, 199, 200, 201, 397, 398, 399, 500]), env.use[0], kind="t")


def stream(rng, env, n, nsid=2, one_rate=True, near=False, kinds=None, grid=10, jitter=.25, cnts=(1, 1, 2, 3, 4, 5), big_gap=True, pubs=(1, 2)):
    """records of a few channels, mostly on a grid so that joins, gaps and overlaps are frequent"""
    sids = rng.sample(SIDS, nsid)
    rate = rng.choice(env.use)
    out = []
    for _ in range(n):
        r = rate if one_rate else rng.choice(env.use)
        per = r[2] or rng.choice(env.use)[2] or 1
        cnt = 1 if near else rng.choice(cnts)
        st = rng.randrange(grid) * per
        if rng.random() < jitter:
            # rates that are nearly alike have nearly the same period: nothing exactly at half of it
            st += rng.choice([1, -1, per // 3, per + 1] + [per // 2, -(per // 2)] * (not near))
        if big_gap and rng.random() < .1:
            st += rng.choice([3600, 86400, 3599, 90061, 40000]) * (env.N if env.J < 6 else 1) * rng.choice([1, -1])
        out.append((st, cnt, r, rng.choice(sids), rng.choice(pubs)))
    return [record(rng, env, *x[:3], sid=x[3], pub=x[4], kind=kinds and rng.choice(kinds), v=3 if near else None) for x in out], out


COUNT = [0]


def uniq(run, k):
    return "c%d_" % k


def tstr(rng, ns):
    """a time as the command takes it, exact"""
    y, d, h, m, sec, f = msr.ns2cal(ns)
    fr = ".%09d" % f if f or rng.random() < .2 else ""
    k = rng.randrange(4)
    if k == 0:
        return "%04d,%03d,%02d,%02d,%02d%s" % (y, d, h, m, sec, fr)
    if k == 1 and ns > 10**12:
        return "%d%s" % (ns // 10**9, fr)
    ml = [31, 29 if msr.leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    mo = 0
    while d > ml[mo]:
        d -= ml[mo]
        mo += 1
    return "%04d-%02d-%02dT%02d:%02d:%02d%s%s" % (y, mo + 1, d, h, m, sec, fr, rng.choice(["", "Z"]))


def dec(units, J):
    """units of 10^-J as decimal text"""
    if J == 0:
        return str(units)
    s = "%0*d" % (J + 1, abs(units))
    t = s[:-J] + "." + s[-J:]
    return ("-" if units < 0 else "") + (t.rstrip("0").rstrip(".") if "." in t else t)


def filter_args(rng, env, spec):
    a = []
    sp = [x[0] for x in spec] or [0]
    def t():
        x = rng.choice(spec) if spec else (0, 1, env.use[0])
        e = x[0] + max(0, x[1] - 1) * x[2][2]
        return env.ns(rng.choice([x[0], e, x[0] - 1, e + 1, x[0] + 1])) + rng.choice([0, 0, 0, 1, -1])
    if rng.random() < .4:
        a += ["-ts", tstr(rng, t())]
    if rng.random() < .4:
        a += ["-te", tstr(rng, t())]
    pats = ["XX_", "STA1", "B_H_Z", "B_?_Z", "STA[12]", "XX_*_B_H", "[^X]X", "A", "FDSN:AA", "LOG", "_00_", "STA1__", "\\B_H", "Z", "STA[3-9]", "*", "__B", "S?A2"]
    if rng.random() < .35:
        a += ["-m", rng.choice(pats)]
    if rng.random() < .35:
        a += ["-r", rng.choice(pats)]
    if rng.random() < .25:
        a += ["-n", str(rng.choice([0, 1, 2, 3, 5, 100]))]
    return a


def mixed(rng, env, n, noise=.3):
    """a file's bytes: records with, sometimes, something else between or after them"""
    one = rng.random() < .6
    recs, spec = stream(rng, env, n, nsid=rng.choice([1, 2, 3]), one_rate=one)
    out, dirty = [], False
    for r in recs:
        if rng.random() < noise * .3:
            out.append(rng.choice([b"junk" * rng.randrange(10, 30), b"\0" * 64, b"MS\3" + b"\0" * 60, r[:37]]))
            dirty = True
        out.append(r)
    if rng.random() < noise * .5:
        out.append(rng.choice([b"\0" * 20, b"x" * 39, recs[-1][:-5] if recs else b"", b"\0" * 48]))
    return b"".join(out), spec, [len(r) for r in recs]


def model(run, depth, toks, keep):
    """every combination of these arguments over three files, on the specification and in the command"""
    env = Env(random.Random(4), J=3)
    env.base = 1700000000 * 10**9
    r = lambda st, cnt, sid, rate=(100, 1, 10), **kw: record(random.Random(st), env, st, cnt, rate, sid=SIDS[sid], kind="i16", **kw)
    fs = {"ma": r(0, 3, 0, v=3) + r(30, 2, 0, v=2) + r(100, 2, 0, v=3, pub=2), "mb": r(45, 3, 0, v=3) + r(0, 2, 2, v=2) + r(3700000, 1, 2, v=3), "mj": r(20, 2, 4, v=3) + b"junk junk " * 8 + r(90, 1, 4, v=3),
          "ml": b"# names\nmb\n\nma\n"}
    cfg = dict(env.cfg(), fs=[{"n": cs(n), "b": list(b)} for n, b in fs.items()])
    path = os.path.join(run.work, "cli.json")
    toks = [t.split() for t in toks]
    arg = lambda a: {"s": a, "c": cs(a)}
    json.dump({"cfg": cfg, "toks": [[arg(a) for a in t] for t in toks]}, open(path, "w"))
    hs = run.mc("MCCli", "arguments", {"Depth": depth}, ["SameOptions", "Filters", "Apart", "Written", "Lists", "Emit"], env={"CLI": path})
    run.rng.shuffle(hs)
    ses = []
    for i in range(0, min(len(hs), keep), 8):
        s = Session(env.cfg(), name="model")
        for n, b in fs.items():
            put(s, n, b)
        for k, h in enumerate(hs[i:i + 8]):
            a = [x for j in h for x in toks[j - 1]]
            of = "mo%d" % k if "OF" in a else None
            msi(s, [of if x == "OF" else x for x in a], ofile=of)
        ses.append(s)
    run.validate("CliTrace", ses, "every combination of arguments")


@prop("C01")
def c01(run):
    rng = run.rng
    model(run, run.scale(4, 5), ["-n 2", "-snd", "-ts 2023-11-14T22:13:20.03", "-te 2023-11-14T22:13:20.05Z", "-m STA1", "-r [XZ]*A2", "-s", "-o OF", "ma", "mb", "mj", "mx", "@ml", "-O"], run.scale(600, 8000))
    ses = []
    for k in range(run.scale(240, 3000)):
        env = Env(rng)
        s = Session(env.cfg())
        pre = uniq(run, k)
        names, specs, offs = [], [], {}
        for j in range(rng.randint(1, 3)):
            b, sp, ln = mixed(rng, env, rng.randint(1, 5))
            nm = pre + "f%d" % j
            if rng.random() < .15:
                b = textrecord(rng, env) + b
            put(s, nm, b)
            names.append(nm)
            specs += sp
            offs[nm] = ln
        for q in range(rng.randint(2, 4)):
            ins = [rng.choice(names) for _ in range(rng.randint(1, 3))]
            if rng.random() < .3:
                nm = ins[0]
                off = sum(offs[nm][:rng.randrange(len(offs[nm]) + 1)])
                ins[0] = "%s@%d%s" % (nm, off, rng.choice(["", "-", "-%d" % (off + 700)]))
            a = filter_args(rng, env, specs)
            bf = of = None
            if rng.random() < .3:
                bf = pre + "b%d" % q
                a += ["-b", bf]
            x = rng.random()
            if x < .4:
                of = pre + "o%d" % q
                a += ["-o", of]
            elif x < .5:
                a += ["-o", "-"]
            for f, p in (("-snd", .4), ("-s", .5), ("-O", .3), ("-d", .15), ("-D", .25), ("-p", .1 * (env.J < 6)), ("-pp", .2 * (env.J < 6)), ("-T", .08)):
                if rng.random() < p:
                    a.append(f)
            out = ins + a if rng.random() < .3 else a + ins
            msi(s, out, bfile=bf, ofile=of)
        ses.append(s)
    run.validate("CliTrace", ses, "filters")


def listing(rng, s, env, name):
    """the library's listings, with everything the command fixes left free"""
    sv = rng.random() < .3
    s.do("tl_new t=0")
    s.do("tl_readfile t=0 path=%s sv=%d" % (hx(name), sv))
    for _ in range(rng.randint(1, 3)):
        p = {"form": rng.randrange(9), "ss": rng.randrange(7), "det": rng.random() < .6, "gaps": rng.random() < .5, "ver": rng.random() < .4, "gmin": [], "gmax": [], "dcc": cs("DCC")}
        kind = rng.choice(["trace", "trace", "gap", "sync"])
        cmd = "tl_print t=0 kind=%s tf=%d" % (kind, p["form"])
        if kind == "trace":
            cmd += " d=%d g=%d ver=%d" % (rng.choice([1, 1, 2]) if p["det"] else rng.choice([0, -1]), rng.choice([1, 1, 3]) if p["gaps"] else rng.choice([0, -1]), p["ver"])
        elif kind == "gap":
            l = limits(rng, env)
            for o, k, f in (("-gmin", "gmin", "min"), ("-gmax", "gmax", "max")):
                if o in l:
                    v = l[l.index(o) + 1]
                    p[k] = cs(v)
                    cmd += " %s=%s" % (f, v)
        else:
            if rng.random() < .5:
                d = rng.choice(["IRISDMC", "X", "a longer name of a data centre", ""])
                p["dcc"] = cs(d)
                cmd += " dcc=" + hx(d)
            cmd += " ss=%d" % p["ss"]

        def fn(r, p=p, kind=kind):
            d0, d1 = time.gmtime(r["t0"]), time.gmtime(r["t1"])
            if d0.tm_yday != d1.tm_yday:
                return None
            return {"op": "list", "file": cs(name), "kind": kind, "sv": sv, "p": p, "day": cs("%04d,%03d" % (d0.tm_year, d0.tm_yday)), "out": codes(r["out"])}
        s.do(cmd, fn)
    s.do("tl_free t=0")


def listings(run, n):
    """sessions of the library's listings alone"""
    ses = []
    for k in range(n):
        env = Env(run.rng)
        s = Session(env.cfg())
        name = uniq(run, k) + "l"
        recs, sp = stream(run.rng, env, run.rng.randint(2, 8), nsid=run.rng.choice([1, 1, 2, 3]), one_rate=run.rng.random() < .7, grid=run.rng.choice([6, 14, 30]), pubs=run.rng.choice([(1,), (1, 2)]), kinds=["i16"])
        put(s, name, b"".join(recs))
        for _ in range(run.rng.randint(1, 3)):
            listing(run.rng, s, env, name)
        ses.append(s)
    return ses


def limits(rng, env):
    a = []
    u = env.use[0][2] or 1
    for o in ("-gmin", "-gmax"):
        if rng.random() < .35:
            v = rng.choice([0, 1, -1, 2, 3, 5, 10, -3, 50]) * u + rng.choice([0, 0, 0, 1, -1])
            if rng.random() < .15:
                v = rng.choice([3600, 86400, -86400]) * env.N if env.J < 6 else v
            a += [o, dec(v, env.J) + (("5" if "." in dec(v, env.J) else ".5") if rng.random() < .1 and env.J == 0 else "")]
    return a


def list_args(rng, env, near):
    a = []
    k = rng.choice(["-t", "-T", "-T", "-g", "-G", "-G", "-S", "-S", "-tg", "-T -tg", "-t -tg", "-g -tg", "-T -g", "-S -t"])
    if near:
        k = rng.choice(["-T", "-t", "-S"])
    a += k.split()
    if "-g" in k.lower() or rng.random() < .1:
        a += limits(rng, env) if not near else []
    per = env.use[0][2] or 1
    if rng.random() < .3:
        # below every period in use: with more, a segment can end before it starts
        low = min(x[2] for x in env.use if x[2])
        tt = rng.choice([x for x in (0, 1, 2, 3, low // 2, low - 1) if x < low])
        a += ["-tt", dec(tt, env.J) + ("" if "." in dec(tt, env.J) else ".") + "4"]
        if env.J and "." not in dec(tt, env.J):
            a[-1] = dec(tt, env.J) + "." + "0" * env.J + "4"
        elif env.J:
            x = dec(tt, env.J)
            a[-1] = x + "0" * (env.J - len(x.split(".")[1])) + "4"
    if rng.random() < (.5 if near else .1):
        a += ["-rt", rng.choice(["0", "0.0005", "0.0055", "0.0115", "0.0205", "0.5", "1000"])]
    if rng.random() < .3:
        a.append(rng.choice(["-P", "-Q"]))
    if rng.random() < .5:
        a += ["-tf", rng.choice(["0", "1", "2"])]
    return a


@prop("C02")
def c02(run):
    rng = run.rng
    model(run, run.scale(4, 5), ["-T", "-tg", "-g", "-G", "-S", "-gmin 0", "-gmax 0.05", "-P", "-tt 0.006", "-tf 0", "-t", "-te 2023-11-14T22:13:20.09", "ma", "mb"], run.scale(500, 8000))
    ses = []
    for k in range(run.scale(280, 3500)):
        near = rng.random() < .12
        env = Env(rng, J=3 if near else None, near=near)
        s = Session(env.cfg())
        pre = uniq(run, k)
        names = []
        for j in range(rng.randint(1, 2)):
            recs, sp = stream(rng, env, rng.randint(1, 8), nsid=rng.choice([1, 1, 2, 3]), one_rate=rng.random() < .7 and not near, near=near,
                              grid=rng.choice([6, 14, 30]), big_gap=rng.random() < .5, pubs=rng.choice([(1,), (1, 2), (1, 3, 4)]), kinds=["i16"])
            put(s, pre + "f%d" % j, b"".join(recs))
            names.append(pre + "f%d" % j)
        if rng.random() < .12:
            odd = [rng.choice(["XFDSN:AA_BB", "FDSN:A_B", "FDSN:" + "N" * rng.randrange(10, 30) + "_" + "S" * rng.randrange(5, 25) + "__B_H_Z", "FDSN:XX_STA__BH_H_Z", "FDSN:XX_STA_LOCATIONS_LONGCHANNEL_H_Z",
                                   "", "FDSN:XX__STA__B_H_Z", "FDSN:_____"]) for _ in range(3)]
            put(s, pre + "x", b"".join(record(rng, env, rng.randrange(20) * (env.use[0][2] or 1), 1, env.use[0], sid=o, v=3, kind="i16") for o in odd) + record(rng, env, 5, 1, env.use[0], v=3))
            names.append(pre + "x")
        for q in range(rng.randint(3, 5)):
            ins = [rng.choice(names) for _ in range(rng.randint(1, 2))]
            if rng.random() < .3 and len(names) > 1:
                ins = list(names)
            if rng.random() < .3 and not near:
                listing(rng, s, env, names[0])
            msi(s, ins + list_args(rng, env, near) + (["-s"] if rng.random() < .2 else []) + (["-m", "H_Z"] if rng.random() < .1 else []))
        ses.append(s)
    run.validate("CliTrace", ses, "listings")


@prop("C03")
def c03(run):
    rng = run.rng
    ses = []
    for k in range(run.scale(280, 3500)):
        env = Env(rng, J=3)
        s = Session(env.cfg())
        pre = uniq(run, k)
        R = lambda **kw: record(rng, env, rng.randrange(30) * 10, rng.randint(1, 4), env.use[0], **kw)
        kinds = {"good": lambda: b"".join(R() for _ in range(rng.randint(1, 3))), "empty": lambda: b"", "short": lambda: b"x" * rng.randrange(1, 40),
                 "junk": lambda: rng.choice([b"\0", b"not a record ", b"\xff"]) * rng.randrange(40, 90),
                 "crc": lambda: R() + R(v=3, badcrc=True) + R(), "cut": lambda: R() + R()[:-rng.randrange(1, 20)], "tail": lambda: R() + b"z" * rng.randrange(1, 39),
                 "mid": lambda: R() + b"garbage!" * rng.randrange(6, 20) + R(), "undec": lambda: R() + R(v=3, undecodable=True) + R(),
                 "badtime": lambda: R() + (lambda b: b[:10] + b"\xff\xff" + b[12:])(R(v=3)) + R(), "nodata": lambda: record(rng, env, 0, 0, env.use[0])}
        names = {}
        for kd, f in kinds.items():
            if kd == "good" or rng.random() < .6:
                names[kd] = pre + kd
                put(s, pre + kd, f())
        put(s, pre + "at@1-2", kinds["good"]())
        at = pre + "at@1-2"
        for q in range(rng.randint(3, 5)):
            pick = lambda: rng.choice([names["good"], names["good"]] + list(names.values()) + [pre + "missing"] * (rng.random() < .3)
                                      + [names["good"] + "@0-", names["good"] + "@0", names["good"] + "@64-10000"] + [at] * (rng.random() < .1))
            ins = [pick() for _ in range(rng.randint(1, 4))]
            opts, sb, stdin = [], b"", None
            if rng.random() < .35:
                ents = [pick() for _ in range(rng.randint(0, 3))]
                k = rng.choice([1022, 1023, 1024, 8190, 8191, 8192, 16382, 20000])
                ents += rng.sample(["", "# comment", "#" + names["good"], "#" * (k - 3) + pre + "missing", "#" + "c" * (k - 2) + "\t" + names["good"]], rng.randint(0, 2))
                if rng.random() < .2:
                    long = "./" * rng.choice([100, 200, 240, 250]) + pre + "long%d" % q
                    put(s, long, kinds["good"]())
                    ents.append(long)
                rng.shuffle(ents)
                txt = "\n".join(ents) + rng.choice(["\n", "", "\n\n"])
                ln = pre + "l%d" % q
                put(s, ln, txt.encode())
                ins.insert(rng.randrange(len(ins) + 1), "@" + ln)
                if rng.random() < .3:
                    ins = ["@" + ln]
            elif rng.random() < .05:
                ins.append("@" + pre + "nolist")
            if rng.random() < .3:
                sb = kinds[rng.choice(["good", "good", "empty", "junk", "cut", "mid", "short"])]()
                stdin = pre + "in%d" % q
                s.do("buf_set b=0 hex=%s" % (sb.hex() or "-"))
                s.do("buf_file b=0 path=%s" % hx(stdin))
                ins.insert(rng.randrange(len(ins) + 1), "-")
            for f, p in (("-snd", .35), ("-s", .6), ("-D", .2), ("-T", .15), ("-O", .2)):
                if rng.random() < p:
                    opts.append(f)
            if rng.random() < .2:
                opts += ["-n", str(rng.choice([0, 1, 2, 4, 9]))]
            of = bf = None
            if rng.random() < .3:
                of = pre + "o%d" % q
                opts += ["-o", of]
            if rng.random() < .2:
                bf = pre + "b%d" % q
                opts += ["-b", bf]
            if rng.random() < .15:
                opts = rng.choice([["-x"], ["--help"], ["-ts"], ["-ts", "junk"], ["-te", "2020-13-01"], ["-tf", "3"], ["-tf", "9"], ["-m"], ["-m", "-r"], ["-n", "-1"], ["-V"], ["-h"], ["-V", "-x"], ["-x", "-V"],
                                   ["-b", "-s"], ["-o", "-s"], ["-gmin", "-x"], ["-gmax", "abc"], ["-gmax", "--1"], ["-tf", "0"], ["-G", "-gmin", "-.5"], ["-sx"], ["-snd2"], ["-Tg"]])
                of = bf = None
                rest = [f for f in ins]
                if rng.random() < .2:
                    ins = []
                if rng.random() < .3 and len(opts) == 1:
                    ins, opts = ins + opts, []
                msi(s, opts + ins, stdin=stdin, sb=sb)
                continue
            a = ins + opts if rng.random() < .5 else opts + ins
            msi(s, a, stdin=stdin, sb=sb, bfile=bf, ofile=of)
            if rng.random() < .08:
                msi(s, [x for x in ins if x != "-"] + ["-T"] + rng.choice([["-o", "/dev/full"], ["-b", "/dev/full"], ["-o", "/dev/full", "-b", "/dev/full"]]), op="full")
        ses.append(s)
    run.validate("CliTrace", ses, "inputs")
