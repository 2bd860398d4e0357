"""G02: source identifiers, SEED codes and padded fields."""
import itertools
from core import *
from props import prop


def cc(s):
    return list(s.encode("latin-1"))


def split(s, sid):
    def fn(r):
        o = {"ok": r["rv"] == 0}
        if o["ok"]:
            o["c"] = {"n": codes(r["n"]), "s": codes(r["st"]), "l": codes(r["l"]), "c": codes(r["c"])}
        return {"op": "split", "sid": cc(sid), "r": o}
    s.do("sid2nslc sid=%s" % (hx(sid) or "-"), fn)


def combine(s, n, st, l, c, size):
    got = {}

    def fn(r):
        return {"op": "combine", "n": cc(n), "st": cc(st), "l": cc(l or ""), "c": cc(c), "len": size,
                "r": {"rv": r["rv"], "sid": codes(r["sid"]) if r["rv"] >= 0 else []}}
    s.do("nslc2sid len=%d n=%s st=%s c=%s%s" % (size, hx(n) or "-", hx(st) or "-", hx(c) or "-", "" if l is None else " l=" + (hx(l) or "-")), fn)


def chan(s, k, c):
    s.do("chan k=%s c=%s" % ("x" if k == "toX" else "s", hx(c) or "-"), lambda r: {"op": k, "c": cc(c), "r": {"ok": r["rv"] == 0, "c": codes(r["c"]) if r["rv"] == 0 else []}})


def field(s, k, src, n):
    s.do("strcp k=%s src=%s len=%d" % (k, src.hex() or "-", n), lambda r: {"op": "field", "k": k, "src": list(src), "n": n, "r": {"rv": r["rv"], "out": codes(r["out"])}})


AL = "ABCXYZabz0189"
UTF = ["é", "ß", "€", "ह", "\ud7ff", "\ue000", "\uffff", "\U00010348", "\U0010ffff", "\u0080", "\u07ff", "\u0800", "\U00010000"]
BADUTF = [b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"\xfe", b"\x80", b"\xbf", b"\xc2", b"\xe2\x82", b"\xf0\x90\x8d", b"\xc2A", b"\xe2\x82A", b"\xf0\x90A\x80"]


@prop("G02")
def g02(run):
    rng = run.rng
    run.mc("MCSid", "codes", {"N": 1 if not run.thorough() else 2, "Letters": {65, 66}}, ["Inv", "Spaces"])
    ses = []
    # channels of every shape up to six characters over two letters and the delimiter
    shapes = ["".join(x) for k in range(0, 7) for x in itertools.product("AB_", repeat=k)]
    if not run.thorough():
        shapes = [x for x in shapes if len(x) < 6 or rng.random() < .3]
    for i in range(0, len(shapes), 60):
        s = Session()
        for x in shapes[i:i + 60]:
            chan(s, "toX", x)
            chan(s, "toSeed", x)
        ses.append(s)
    for _ in range(run.scale(150, 1500)):
        s = Session()
        for _ in range(12):
            w = lambda lo, hi: "".join(rng.choice(AL) for _ in range(rng.randint(lo, hi)))
            n, st, l = w(0, rng.choice([2, 2, 8])), w(0, rng.choice([5, 5, 8, 20])), w(0, rng.choice([2, 2, 8]))
            c = rng.choice([w(3, 3), w(3, 3), w(0, 3) + "_" + w(0, 3) + "_" + w(0, 3), w(1, 1) + "_" + w(1, 1) + "_" + w(1, 1), w(1, 1) + "_" + w(0, 1) + "_" + w(1, 2), w(0, 6)])
            x = c if len(c) != 3 else "_".join(c)
            full = 5 + len(n) + 1 + len(st) + 1 + len(l) + 1 + len(x)
            nl = None if not l and rng.random() < .5 else l
            combine(s, n, st, nl, c, rng.choice([64, full + 1, full + 1, full, full - 1, full + 2, 16, 15, 0, 1, 17, rng.randint(0, 64)]))
            sid = "FDSN:%s_%s_%s_%s" % (n, st, l, x)
            k = rng.random()
            if k < .15:
                sid = rng.choice(["FDSN:" + rng.choice(["A:", "NS:B:", ":"]) + sid[5:], sid[5:], "fdsn:" + sid[5:], "FDSN" + sid[5:], "XFDSN:" + sid[5:], "FDSN", "", "FDSN:", sid + ":", "FDSN::", "FDSN:_____", "FDSN:____", "FDSN:______"])
            elif k < .35:
                b = list(sid)
                i = rng.randrange(len(b))
                rng.choice([lambda: b.insert(i, rng.choice("_:A ")), lambda: b.pop(i), lambda: b.__setitem__(i, rng.choice("_:A"))])()
                sid = "".join(b)
            split(s, sid)
        ses.append(s)
    run.validate("SidTrace", ses, "identifiers and codes")
    ses = []
    for _ in range(run.scale(120, 1200)):
        s = Session()
        for _ in range(14):
            parts = [rng.choice(["A", "b", "9", " ", " ", "  ", "_", rng.choice(UTF)]).encode("utf-8", "surrogatepass") for _ in range(rng.randint(0, 8))]
            if rng.random() < .35:
                parts.insert(rng.randint(0, len(parts)), rng.choice(BADUTF))
            if rng.random() < .1:
                parts.insert(rng.randint(0, len(parts)), b"\0")
            src = b"".join(parts)[:60]
            field(s, rng.choice(["clean", "tail", "open"]), src, rng.choice([len(src), len(src), max(0, len(src) - 1), max(0, len(src) - 2), len(src) + 1, rng.randint(0, 40), 0, 2, 5]))
        ses.append(s)
    run.validate("SidTrace", ses, "padded fields")
