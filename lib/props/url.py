"""R06: reading through URLs."""
import itertools
import httpd, msr
from core import *
from props import prop
from props import cli
from props.reader import BIG, all_, cell, close, cs, fl, next_, open_, opened, put, sel_add, small_build
from props.rec import rand_v2, rand_v3, rtime

SID = ["FDSN:XX_A_00_B_H_Z", "FDSN:XX_B__B_H_Z", "FDSN:YY_A_00_L_H_Z"]


class Urls:
    def __init__(self):
        self.srv = httpd.Server()
        self.n = itertools.count()

    def serve(self, s, body, up=True, via=None, **k):
        """a path of the session's server; returns the URL and the path"""
        p = "/r06/%d" % next(self.n)
        r = httpd.Res(body, **k)
        self.srv.put(p, r)
        total = len(body)
        got = -1
        if r.brk is not None and r.frame != "close":
            got = r.brk
        b = body if not (r.brk is not None and r.frame == "close") else body[:r.brk]
        u = {"b": list(b), "up": up, "status": r.status, "rg": r.ranges, "got": got}
        if via:  # reached through another path
            q = "/r06/%d" % next(self.n)
            self.srv.put(q, httpd.Res(b"", redirect=p if via == "path" else self.srv.url(p)))
            p = q
        s.do("url", lambda a: {"op": "url", "name": cs(p), "u": u})
        return (self.srv.url(p) if up else self.srv.refused(p)), p, r


def named(path, url):
    """events carry the path alone, requests the whole URL"""
    def ev(fn):
        def g(r):
            e = fn(r)
            e["path"] = cs(path)
            return e
        return g
    return ev


def u_all(s, url, path, body, sfx="", **k):
    n = len(s.steps)
    all_(s, url + sfx, body, **k)
    s.steps[n:] = [(c, f and named(path + sfx, url)(f)) for c, f in s.steps[n:]]


def u_open(s, k, url, path, sfx="", **kw):
    n = len(s.steps)
    c = open_(s, k, url + sfx, **kw)
    s.steps[n:] = [(x, f and named(path + sfx, url)(f)) for x, f in s.steps[n:]]
    return c


def small(rng, i=0):
    return msr.v3(rng.choice(SID), rtime(rng), 1.0, 3, 1, b"\1\0\2\0\3\0", pub=rng.choice([1, 2]))


def mixed(rng, lim=2400, known=False):
    """records and other bytes; known: every record's length is stated, whatever follows"""
    parts = []
    for _ in range(rng.randint(1, 6)):
        x = rng.random()
        if x < 0.3:
            parts.append(rand_v3(rng))
        elif x < 0.5 and not known:
            parts.append(rand_v2(rng, chain=[]))
        elif x < 0.9:
            parts.append(small(rng))
        else:
            parts.append(rng.choice([b"\0" * 7, b"MS", b"x" * 100, b"\xff" * 41]))
    return b"".join(parts)[:lim]


def transfer(rng, n):
    """how the bytes come"""
    k = {"frame": rng.choice(["length", "length", "chunked", "chunked", "close"])}
    x = rng.random()
    if x < 0.3:
        k.update(pieces=[max(1, n // rng.randint(2, 6))], delay=rng.choice([0, 0.002, 0.01]))
    elif x < 0.5:
        k.update(pieces=[rng.choice([1, 7, 39, 40, 41, 63, 64, 65]) for _ in range(3)], delay=rng.choice([0, 0, 0.001]))
    k["trailer"] = n > 0 and k["frame"] == "chunked" and rng.random() < 0.5
    return k


@prop("R06")
def r06(run):
    rng = run.rng
    net = Urls()
    try:
        r06_(run, rng, net)
    finally:
        net.srv.close()


def r06_(run, rng, net):
    kinds = {"J", "R1", "R2", "R4", "X"}
    hs = run.mc("MCUrl", "pieces", {"N": run.scale(3, 4), "M": 3, "P": 2, "Room": 2, "Kinds": kinds | ({"U"} if run.thorough() else set()), "Skips": {True, False}},
                ["URefines", "UBounded", "UEmit"], properties=["NoStall", "Ends"], spec="USpec")
    if run.thorough():
        run.mc("MCUrl", "pieces3", {"N": 5, "M": 2, "P": 3, "Room": 3, "Kinds": {"J", "R1", "R2", "U"}, "Skips": {True, False}}, ["URefines", "UBounded"], properties=["NoStall", "Ends"], spec="USpec")
    b192 = small_build(run, 192)
    if b192:
        # the model's inputs and where they break, through the small buffer
        ss = []
        rng.shuffle(hs)
        for h in hs[:run.scale(140, 3000)]:
            s = Session()
            b = b"".join(cell(k, i) for i, k in enumerate(h["f"]))
            cut = h["cut"] * 64
            whole = cut == len(b)
            if not whole and rng.random() < 0.5:
                cut = max(0, cut - rng.choice([0, 1, 24, 25, 39]))
            url, p, _ = net.serve(s, b, frame=rng.choice(["length", "chunked"]), brk=None if whole else cut, pieces=[rng.choice([64, 128, 50, 1000])], delay=rng.choice([0, 0, 0.003]))
            u_all(s, url, p, b, m=192, skip=h["skip"], unpack=rng.random() < 0.3)
            ss.append(s)
        run.validate("ReaderTrace", ss, "model transfers", bdir=b192)
        # more bytes than the buffer holds: the transfer pauses
        ss = []
        for i in range(run.scale(6, 200)):
            s = Session()
            b = b""
            lim = rng.choice([17000, 20000, 36000]) if not run.thorough() else rng.choice([17000, 36000, 70000])
            body = rng.choice([lambda: cell("R1", 0), lambda: msr.v3("FDSN:XX_A_00_B_H_Z", 10**18, 1.0, 60, 1, b"\1\0" * 60), lambda: rng.choice([cell("R1", 1), msr.v3("FDSN:XX_A_00_B_H_Z", 10**18, 1.0, 64, 1, b"\1\0" * 64)])])
            while len(b) < lim:
                b += body()
            brk = rng.choice([None, None, len(b) - rng.choice([0, 1, 30, 100, 600])])
            k = {"frame": rng.choice(["length", "chunked", "close"]), "pieces": [rng.choice([16384, 16000, 4096, 65536, 100000, 5000])], "delay": rng.choice([0, 0.001, 0.01])}
            url, p, _ = net.serve(s, b, brk=brk, **k)
            u_all(s, url, p, b, m=192)
            ss.append(s)
        run.validate("ReaderTrace", ss, "transfers longer than the buffer", bdir=b192)

    # whole and broken transfers, of everything, in pieces
    ss = []
    for i in range(run.scale(110, 3000)):
        s = Session()
        brk = rng.random() < 0.35
        b = mixed(rng, known=brk)
        k = transfer(rng, len(b))
        if brk:
            k["brk"] = rng.choice([0, rng.randint(0, len(b) - 1), rng.randint(0, len(b) - 1), len(b) - 1])
        url, p, _ = net.serve(s, b, via=rng.choice([None, None, None, "path", "url"]), **k)
        f = {"skip": rng.random() < 0.5, "crc": rng.random() < 0.3, "unpack": rng.random() < 0.4, "sel": rng.random() < 0.25}
        if f["sel"]:
            sel_add(s, rng.choice(["*_A_*", "FDSN:XX*", "FDSN:*", "nothing"]), rng.choice([0, 0, 1]))
        if rng.random() < 0.5:
            u_all(s, url, p, b, **f)
        else:
            c = u_open(s, 0, url, p, **f)
            two = rng.random() < 0.4
            if two:
                # another transfer, or a file, at the same time
                b2 = b"".join(small(rng) for _ in range(rng.randint(1, 4)))
                if rng.random() < 0.5:
                    u2, p2, _ = net.serve(s, b2, **transfer(rng, len(b2)))
                    c2 = u_open(s, 1, u2, p2)
                else:
                    put(s, "r06b.ms", b2)
                    c2 = open_(s, 1, "r06b.ms")
            for _ in range(8):
                next_(s, 0, c)
                if two and rng.random() < 0.8:
                    next_(s, 1, c2)
            close(s, 0)
            if two:
                close(s, 1)
        ss.append(s)
    run.validate("ReaderTrace", ss, "transfers")

    # servers that refuse
    ss = []
    st = [200, 400, 403, 404, 410, 429, 500, 502, 503, 504]
    for code in st + [0]:
        for form in range(3):
            s = Session()
            b = rng.choice([b"", small(rng) * 2, mixed(rng)])
            url, p, _ = net.serve(s, b, up=code != 0, status=code or 200, errbody=rng.choice([b"", b"no", small(rng), small(rng) * 3]), **({} if code != 200 else transfer(rng, len(b))))
            if form == 0:
                u_all(s, url, p, b)
            else:
                rg = {"start": rng.choice([0, 10]), "end": rng.choice([0, 200])} if form == 2 else {}
                c = u_open(s, 0, url, p, **rg)
                for _ in range(3):
                    next_(s, 0, c)
                close(s, 0)
            ss.append(s)
    # credentials
    for good in (True, False):
        for fresh in (True, False):
            s = Session()
            b = small(rng) * 2
            who = "user%d:pw" % next(net.n)
            url, p, r = net.serve(s, b, auth=who) if good else net.serve(s, b, auth=who, status=200)
            if not good:
                cmd, f = s.steps[-1]
                s.steps[-1] = (cmd, lambda a, f=f: dict(f(a), u=dict(f(a)["u"], status=401)))
            if good or fresh:
                s.do("url up=%s" % hx(who if good else "other:pw"), lambda a: {"op": "header", "ok": a["rv"] == 0, "free": True, "h": []})
            u_all(s, url, p, b)
            ss.append(s)
    # headers
    for i in range(run.scale(10, 60)):
        s = Session()
        s.do("url free=1", lambda a: {"op": "header", "ok": True, "free": True, "h": []})
        want = []
        for _ in range(rng.randint(0, 3)):
            h = "X-H%d: v%d" % (rng.randrange(5), rng.randrange(100))
            s.do("url hdr=%s" % hx(h), lambda a, h=h: {"op": "header", "ok": a["rv"] == 0, "free": False, "h": cs(h)})
        if rng.random() < 0.6:
            ua, ver = rng.choice(["prog", "a program", "x"]), rng.choice(["1.0", "2024.1", None])
            s.do("url ua=%s%s" % (hx(ua), " uav=" + hx(ver) if ver else ""), lambda a, ua=ua, ver=ver: {"op": "header", "ok": a["rv"] == 0, "free": False, "h": cs("User-Agent: %s%s libmseed/" % (ua, "/" + ver if ver else ""))})
        b = small(rng)
        for rep in range(2):
            url, p, r = net.serve(s, b)
            u_all(s, url, p, b)
            s.do("url", lambda a, r=r: [{"op": "request", "h": [cs(x) for x in h]} for h in r.seen] or [{"op": "request", "h": [[0]]}])
        s.do("url free=1", lambda a: {"op": "header", "ok": True, "free": True, "h": []})
        url, p, r = net.serve(s, b)
        u_all(s, url, p, b)
        s.do("url", lambda a, r=r: [{"op": "request", "h": [cs(x) for x in h]} for h in r.seen] or [{"op": "request", "h": [[0]]}])
        ss.append(s)
    # the command's options for them
    for i in range(run.scale(12, 100)):
        s = Session()
        opts = [rng.choice(["-p", "-T", "-tg"])]
        s.do("url", lambda a: {"op": "header", "ok": True, "free": False, "h": cs("User-Agent: msi/")})
        for _ in range(rng.randint(0, 3)):
            h = "X-C%d: v%d" % (rng.randrange(5), rng.randrange(100))
            opts[rng.choice([0, len(opts)]):0] = ["-H", h]
            s.do("url", lambda a, h=h: {"op": "header", "ok": True, "free": False, "h": cs(h)})
        need, given = rng.random() < 0.5, rng.choice([None, True, True, False])
        who = "user%d:pw" % i
        if given is not None:
            opts[rng.choice([0, len(opts)]):0] = ["-u", who if given else "other:pw"]
        b = small(rng) * 2
        url, p, r = net.serve(s, b, auth=who if need else None)
        s.do("msi a=%s" % ",".join(hx(a) for a in opts + [url]), lambda a, r=r, bad=need and not given: [{"op": "same", "what": "command_failed", "a": a["exit"] != 0, "b": bad}] + ([{"op": "request", "h": [cs(x) for x in h]} for h in r.seen] or [{"op": "request", "h": [[0]]}]))
        ss.append(s)
    run.validate("ReaderTrace", ss, "servers that refuse, credentials, headers")

    # ranges
    ss = []
    a = msr.v3("FDSN:XX_S_00_H_H_Z", 10**18, 1.0, 2, 1, b"\1\0\2\0")
    d = msr.v2("XX", "STA", "00", "BHZ", 10**18, 1, 1, 2, 1, b"\1\2\3\4", reclen=64, doff=56)
    for i in range(run.scale(130, 3000)):
        s = Session()
        if i % 3 == 0:
            parts = [small(rng) if rng.random() < 0.5 else rand_v3(rng) for _ in range(rng.randint(1, 5))]
        else:
            parts = [[a, a, a], [a, d, a, d], [a, a, d, a]][i % 3]
        b = b"".join(parts)
        edges = [sum(len(x) for x in parts[:k]) for k in range(len(parts) + 1)]
        x = max(0, rng.choice(edges) + rng.choice([0, 0, 0, 1, -1, 30, -40]))
        y = max(0, rng.choice(edges) + rng.choice([-1, -1, -1, 0, -2, 38, 39, 40, 1000]))
        k = {"ranges": rng.choice(["honour"] * 4 + ["ignore", "align"]), "frame": rng.choice(["length", "chunked", "close"]), "trailer": False}
        k["trailer"] = k["frame"] == "chunked" and rng.random() < 0.5
        if k["ranges"] == "honour" and rng.random() < 0.2:
            z = min(y, len(b) - 1) if y else len(b) - 1
            k["brk"] = rng.randint(0, max(0, z - x))
            k["frame"] = "length"
        k["lower"] = rng.random() < 0.5
        url, p, _ = net.serve(s, b, via=rng.choice([None, None, "path"]), **k)
        f = {"skip": rng.random() < 0.4, "unpack": rng.random() < 0.3}
        form = rng.randrange(4)
        if form == 0:
            sfx, kw = "", dict(start=x, end=y)
        elif form == 1:
            sfx, kw = "@%d-%d" % (x, y), dict(range=True)
        elif form == 2:
            sfx, kw = rng.choice(["@%d-", "@%d", "@000%d-"]) % x, dict(range=True)
        else:
            sfx, kw = "@-%d" % y, dict(range=True)
        if rng.random() < 0.5:
            u_all(s, url, p, b, sfx=sfx, **kw, **f)
        else:
            c = u_open(s, 0, url, p, sfx=sfx, **kw, **f)
            for _ in range(len(parts) + 2):
                next_(s, 0, c)
            close(s, 0)
        ss.append(s)
    run.validate("ReaderTrace", ss, "ranges")

    # trace lists, and the command
    ss = []
    for i in range(run.scale(40, 600)):
        s = Session()
        b = b"".join(small(rng) for _ in range(rng.randint(1, 5)))
        brk = rng.random() < 0.25
        url, p, _ = net.serve(s, b, **dict(transfer(rng, len(b)), **({"brk": rng.randrange(len(b)), "frame": "length"} if brk else {})))
        fn = "r06-%d.ms" % i
        put(s, fn, b)
        keep = {}
        for k, nm in enumerate((url, fn)):
            s.do("tl_readfile t=%d path=%s fl=%d sv=0" % (k, hx(nm), 1), lambda r, k=k, keep=keep: keep.__setitem__("rv%d" % k, r["rv"]))
            s.do("tl_dump t=%d data=1" % k, lambda r, k=k, keep=keep: keep.__setitem__("d%d" % k, json.dumps({x: v for x, v in r.items() if x not in ("log", "nlog")}, sort_keys=True)))
        if brk:
            s.do("url", lambda r, keep=keep: [{"op": "same", "what": "list_broken", "a": keep["rv0"] < 0, "b": True}])
        else:
            s.do("url", lambda r, keep=keep: [{"op": "same", "what": "list", "a": [keep["rv0"], keep["d0"]], "b": [keep["rv1"], keep["d1"]]}])
        ss.append(s)
    # the command
    for i in range(run.scale(24, 300)):
        s = Session()
        b = b"".join(small(rng) for _ in range(rng.randint(1, 5)))
        x = rng.random()
        n = len(b)
        k = {"brk": rng.randrange(n), "frame": "length"} if x < 0.2 else {"status": rng.choice([403, 404, 500])} if x < 0.35 else {}
        url, p, _ = net.serve(s, b, **dict(transfer(rng, n), **k))
        fn = "r06c-%d.ms" % i
        put(s, fn, b)
        opts = rng.choice([["-p"], ["-d"], ["-T"], ["-tg"], ["-p", "-n", "2"], ["-s"]])
        keep = {}
        for q, nm in enumerate((url, fn)):
            s.do("msi a=%s" % ",".join(hx(a) for a in opts + [nm]), lambda r, q=q, keep=keep: keep.__setitem__(q, [r["exit"], r["out"]]))
        # (an early end after enough records were read is not noticed)
        if k and "-n" not in opts:
            s.do("url", lambda r, keep=keep: [{"op": "same", "what": "command_failed", "a": keep[0][0] == 1, "b": True}])
        elif not k:
            s.do("url", lambda r, keep=keep: [{"op": "same", "what": "command", "a": keep[0], "b": keep[1]}])
        ss.append(s)
    run.validate("ReaderTrace", ss, "trace lists, and the command")
