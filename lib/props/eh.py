"""E01, E02: extra headers, directly and through a held state."""
import json, math, struct
from core import *
from props import prop
import msr, obs


def cc(s):
    return list(s.encode("utf-8")) if isinstance(s, str) else list(s)


def w64(v):
    b = struct.pack(">d", v)
    return [b[i] << 8 | b[i + 1] for i in (0, 2, 4, 6)]


def leaf(t, v, z):
    return {"t": t, "v": v, "z": z, "k": [], "c": []}


def tsize(b):
    return 2 + sum(2 if c in b'"\\\b\t\n\f\r' else 6 if c < 32 else 1 for c in b)


def tree(o):
    if o is None:
        return leaf("n", [], 4)
    if isinstance(o, bool):
        return leaf("b", [int(o)], 4 if o else 5)
    if isinstance(o, int) and -2**63 <= o < 2**64:
        return leaf("i", cc(str(o)), len(str(o)))
    if isinstance(o, (int, float)):
        return leaf("r", w64(float(o)), 0 if math.isfinite(o) else -1)
    if isinstance(o, (str, bytes)):
        b = o if isinstance(o, bytes) else o.encode("utf-8")
        try:
            b.decode("utf-8")
            z = tsize(b)
        except ValueError:
            z = -1
        return leaf("s", [-len(b)] if len(b) > 200 and set(b) == {120} else list(b), z)
    if isinstance(o, list):
        return {"t": "a", "v": [], "z": 0, "k": [[i] for i in range(len(o))], "c": [tree(x) for x in o]}
    return {"t": "o", "v": [], "z": 0, "k": [cc(k) for k in o], "c": [tree(x) for x in o.values()]}


def stop(_):
    raise ValueError("constant")


def real(s):
    v = float(s)
    if not math.isfinite(v):
        raise ValueError("range")
    return v


def parsed(b):
    """what a text says, by a parser of its own"""
    try:
        return tree(json.loads(b.decode("utf-8"), object_pairs_hook=obs.nodup, parse_constant=stop, parse_float=real))
    except (ValueError, UnicodeError, RecursionError):
        return leaf("!", [], 0)


def doc(hexs):
    b = bytes.fromhex(hexs)
    return [parsed(b)] if b else []


def arg(v):
    return hx(v if isinstance(v, bytes) else v.encode("utf-8")) or "-"


class Eh:
    def __init__(self, rng):
        self.s, self.rng, self.raw = Session(), rng, {}

    def new(self, i, text=b"", cnt=3):
        def fn(r):
            self.raw[i] = bytes.fromhex(r["extra"])
            return {"op": "load", "rec": i, "x": doc(text.hex()), "r": {"x": doc(r["extra"])}}
        self.s.do("rec_new r=%d sid=%s st=1600000000000000000 rate=1.0 enc=3 reclen=131000 type=i gen=1,%d%s" % (
            i, hx("FDSN:XX_STA__B_H_Z"), cnt, " extra=" + text.hex() if text else ""), fn)

    def load(self, i, text):
        text = text if isinstance(text, bytes) else text.encode("utf-8")
        b = msr.v3("FDSN:XX_STA__B_H_Z", 1600000000 * 10**9, 1.0, 3, 3, msr.payload("i", [1, 2, 3]), extra=text)
        self.s.do("buf_set b=1 hex=%s" % b.hex())

        def fn(r):
            self.raw[i] = bytes.fromhex(r["extra"])
            return {"op": "load", "rec": i, "x": doc(text.hex()), "r": {"x": doc(r["extra"])}}
        self.s.do("rec_parse r=%d b=1 fl=1" % i, fn)
        self.s.do("rec_set r=%d reclen=131000" % i)

    def ans(self, i, r, **kw):
        self.raw[i] = bytes.fromhex(r["extra"])
        return dict({"rv": r["rv"], "len": len(r["extra"]) // 2, "x": doc(r["extra"])}, **kw)

    def q(self, q):
        return "" if q < 0 else " ps=%d" % q

    def set(self, i, q, ptr, v):
        if isinstance(v, bool):
            # any value but 0 is true
            self.ntrue = getattr(self, "ntrue", 0) + v
            a = "ty=b v=%d" % (v and (1, 256, -1, 2, 65536, -2**31, 2**24)[self.ntrue * 3 % 7])
        elif isinstance(v, int):
            a = "ty=i v=%d" % v
        elif isinstance(v, float):
            a = "ty=n v=x" + struct.pack(">d", v).hex()
        elif len(v) > 200 and set(v) <= {"x", 120}:
            a = None
        else:
            a = "ty=s v=" + arg(v)
        c = "eh_setlong r=%d n=%d" % (i, len(v)) if a is None else "eh_set r=%d %s" % (i, a)
        self.s.do("%s ptr=%s%s" % (c, arg(ptr), self.q(q)),
                  lambda r: {"op": "set", "rec": i, "q": q, "p": cc(ptr), "x": tree(v), "r": self.ans(i, r)})

    def merge(self, i, q, ptr, text):
        t = parsed(text.encode("utf-8") if isinstance(text, str) else text)
        self.s.do("eh_set r=%d ty=M v=%s ptr=%s%s" % (i, arg(text), arg(ptr), self.q(q)),
                  lambda r: {"op": "mrg", "rec": i, "q": q, "p": cc(ptr), "x": [] if t["t"] == "!" else [t], "r": self.ans(i, r)})

    def get(self, i, q, ptr, ty, ml=200):
        def fn(r):
            rv = r["rv"]
            o = {"rv": rv, "v": [], "d": []}
            if rv == 0:
                if ty == "n":
                    v = f64(r["d"].lstrip("x"))
                    o["v"] = w64(v)
                    o["d"] = cc(str(int(v))) if math.isfinite(v) and v == int(v) else []
                elif ty == "i":
                    o["v"] = cc(str(r["i"]))
                elif ty == "b":
                    o["v"] = [r["b"]]
                elif ty == "s":
                    b = codes(r["s"])
                    o["v"] = b
            return {"op": "get", "rec": i, "q": q, "p": cc(ptr), "ty": "-" if ty == "-" else ty, "ml": ml, "r": o}
        self.s.do("eh_get r=%d ty=%s ml=%d ptr=%s%s" % (i, ty, ml, arg(ptr), self.q(q)), fn)

    def ser(self, i, q):
        self.s.do("eh_ser r=%d%s" % (i, self.q(q)), lambda r: {"op": "ser", "rec": i, "q": q, "r": self.ans(i, r)})

    def free(self, q):
        self.s.do("eh_free ps=%d" % q, lambda r: {"op": "free", "q": q, "r": {"gone": bool(r["null"])}})

    def rep(self, i, text):
        c = "" if text is None else " json=" + arg(text)
        t = [] if text is None else [parsed(text if isinstance(text, bytes) else text.encode("utf-8"))]
        self.s.do("eh_rep r=%d%s" % (i, c), lambda r: {"op": "rep", "rec": i, "del": text is None, "x": t, "r": self.ans(i, r)})

    def print(self, i, n):
        def fn(r):
            return {"op": "print", "rec": i, "n": n, "raw": list(self.raw.get(i, b"")), "r": {"rv": r["rv"], "out": codes(r["out"])}}
        self.s.do("eh_print r=%d ind=%d" % (i, n), fn)

    def cycle(self, i):
        got = {}

        def fn(r):
            got["n"] = r["rv"]
        self.s.do("rec_pack r=%d b=2 fl=64" % i, fn)
        self.s.do("rec_parse r=9 b=2", lambda r: {"op": "cycle", "rec": i, "r": {"rv": got["n"] if r["rv"] == 0 else -1, "xs": [doc(r.get("extra", ""))]}})

    def add(self, i, q, ptr=None, k=None):
        rng = self.rng
        k = k or rng.choice(["ev", "cal", "tex", "rec"])
        f, a = {}, []
        word = lambda n: rng.choice(["", "MURDOCK", "x", "É\"q\\", "N" * n, "m" * (n - 1)])

        def text(name, key, n=29):
            v = word(n)
            f[key] = cc(v)
            a.append("%s=%s" % (name, arg(v)))

        def num(name, vals=(0.0, 1.0, -2.5, 1e-7, 1e300, 0.1, -0.0)):
            v = rng.choice(vals)
            f[name] = w64(v)
            a.append("%s=x%s" % (name, struct.pack(">d", v).hex()))

        def when(name):
            t = rng.choice([None, 0, 951782399123456789, 1600000000000000000, 1600000000000001000, -86400000000001, 4102444800000000000 - 1])
            f[name] = [] if t is None else [obs.instant(t)]
            if t is not None:
                a.append("%s=%d" % (name, t))

        def whole(name, vals=(-1, 0, 1, 7, 2147483647)):
            f[name] = v = rng.choice(vals)
            a.append("%s=%d" % (name, v))
        if k == "ev":
            for n in ("type", "det", "wave", "units"):
                text(n, n)
            for n in ("amp", "per", "bg"):
                num(n)
            when("on")
            f["snr"] = rng.choice([[0] * 6, [0, 0, 0, 0, 0, 1], [255, 1, 2, 3, 4, 5], [9, 0, 0, 0, 0, 0]])
            a.append("snr=" + bytes(f["snr"]).hex())
            whole("lb")
            whole("pa")
        elif k == "cal":
            for n in ("type", "trig", "iu", "ar", "ic", "cp", "ro", "no"):
                text(n, n)
            for n in ("bt", "et"):
                when(n)
            whole("steps")
            for n in ("fpp", "as", "cont"):
                whole(n, (-1, 0, 1))
            for n in ("amp", "dur", "sp", "sb", "ra"):
                num(n)
        elif k == "tex":
            text("type", "type", 16)
            text("cs", "cs", 128)
            when("tm")
            num("vco", (-1.0, 0.0, 50.5, 100.0, 0.25))
            whole("rq")
            whole("cnt", (0, 1, 2147483647))
        else:
            text("type", "type")
            text("trig", "trig")
            when("bt")
            when("et")
        self.s.do("eh_%s r=%d %s%s%s" % (k, i, " ".join(a), "" if ptr is None else " ptr=" + arg(ptr), self.q(q)),
                  lambda r: {"op": "add", "rec": i, "q": q, "k": k, "f": f, "p": [] if ptr is None else [cc(ptr)], "r": self.ans(i, r)})


KEYS = ["a", "b", "FDSN", "Time", "", "a~1b", "m~0n", "~01", "0", "1", "-", "2", "01", "k y", "é", "q\"", "\\"]
WORDS = ["", "x", "text", "quote\"d", "back\\slash", "/{}[],: ", "\\\"", "tab\tnew\nline", "\x01\x1f", "é€", "\U00010348", "a" * 199, "a" * 200]


def ptr(rng, deep=3):
    r = rng.random()
    if r < .04:
        return rng.choice(["", "a", "a/b", "/~", "/a~2", "/~/b", "/a/~x/b"])
    return "".join("/" + rng.choice(KEYS[:3] if rng.random() < .6 else KEYS) for _ in range(rng.choice([1, 1, 2, 2, 3][:deep + 2])))


def scalar(rng):
    k = rng.random()
    if k < .3:
        return rng.choice([0, 1, -1, 5, 2**31, -2**31 - 1, 2**53, 2**53 + 1, 2**63 - 1, -2**63, 123456789012345])
    if k < .55:
        return rng.choice([0.0, -0.0, 1.0, 0.1, -1.5, 1e-7, 1e21, 1.7976931348623157e308, 5e-324, 123456789.123456789, 1e15, 2.0**53, 1 / 3])
    if k < .8:
        return rng.choice(WORDS)
    if k < .95:
        return rng.random() < .5
    return rng.choice([float("nan"), float("inf"), float("-inf"), b"bad\xff", b"\xc3", b"\xed\xa0\x80"])


def value(rng, d=3):
    k = rng.random()
    if d == 0 or k < .5:
        v = scalar(rng)
        return v if not isinstance(v, bytes) and not (isinstance(v, float) and not math.isfinite(v)) else None
    if k < .6:
        return None
    if k < .75:
        return [value(rng, d - 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice(KEYS[:4] + WORDS[1:9]): value(rng, d - 1) for _ in range(rng.randint(0, 3))}


def text(rng, v):
    """one of the ways to write a value"""
    t = json.dumps(v, ensure_ascii=rng.random() < .5, indent=rng.choice([None, None, 2]), separators=rng.choice([None, (",", ":"), (" , ", " : ")]))
    return t.replace("/", "\\/") if rng.random() < .2 else rng.choice(["", "", " ", "\n\t"]) + t + rng.choice(["", "", " ", "\r\n"])


def broken(rng):
    t = rng.choice(['{"a":1', '{"a" 1}', "{a:1}", "{'a':1}", '{"a":01}', '{"a":1,}', "[1,]", "nul", "", " ", '{"a":NaN}', '{"a":Infinity}', '{"a":1}x', '{"a":"\t"}', '{"a":"\\x"}', '{"a":"\\ud800"}', '{"a":+1}', '{"a":.5}', '{"a":1.}', '{"a":1e999}', "}{", b'{"a":"\xff"}', b'{"\xc3":1}', b'{"a":"\xed\xa0\x80"}', "// c\n{}"])
    return t


def steps(e, rng, n, recs, slots):
    used = []
    # each state belongs to one record, as documented
    for _ in range(n):
        i = rng.choice(recs)
        mine = [q for q in slots if q % len(recs) == recs.index(i)]
        q = rng.choice(mine) if mine and rng.random() < .75 else -1
        k = rng.random()
        if k < .3:
            used.append(rng.choice(used) if used and rng.random() < .3 else ptr(rng))
            e.set(i, q, used[-1], scalar(rng))
            if rng.random() < .5:
                e.get(i, q, used[-1], rng.choice("nisb-"), rng.choice([200, 200, 1, 2, 5]))
        elif k < .58:
            e.get(i, q, rng.choice(used) if used and rng.random() < .5 else ptr(rng), rng.choice("nisb-"), rng.choice([200, 200, 1, 2, 5]))
        elif k < .68:
            e.merge(i, q, rng.choice(["", "", ptr(rng)]), text(rng, value(rng)) if rng.random() < .93 else broken(rng))
        elif k < .76:
            e.add(i, q, None if rng.random() < .5 else ptr(rng, 2))
        elif k < .80:
            e.rep(i, None if rng.random() < .2 else broken(rng) if rng.random() < .3 else text(rng, value(rng) if rng.random() < .2 else {k: value(rng) for k in "ab"}))
        elif k < .82:
            e.load(i, (rng.choice([b"", text(rng, {"a": value(rng)}).encode("utf-8")]) if rng.random() < .9 else broken(rng)) or b"")
        elif k < .86:
            e.print(i, rng.randint(0, 4))
        elif q >= 0:
            e.ser(i, q) if rng.random() < .7 else e.free(q)


def known(rng):
    return {"a": {"b": value(rng, 2), "a": [1, {"b": "x"}, [True]]}, "b": value(rng, 1), "FDSN": {"a": 1.5, "Time": {"a": None}}}


DOC1 = b'{"a":{"b":1},"b":[1,"x"]}'
PATCH = {1: '{"a":null,"b":{"a":1}}', 2: '{"a":{"b":null}}', 3: "1"}
POINTERS = ["/a", "/a/b", "/b", "/b/0", "/b/1", "/b/2", "/a/b/c"]


def replay(e, h, look, rng):
    """one history of the model on the library; look: also read on the way"""
    e.new(0, b"" if h[0]["k"] == "none" else DOC1)
    for x in h[1:]:
        q = 0 if x["q"] else -1
        if x["k"] == "set":
            e.set(0, q, x["p"], 1 if x["v"] == 1 else "x")
        elif x["k"] == "app":
            f = {"type": [120], "bt": [], "et": [], "trig": []}
            e.s.do("eh_rec r=0 type=78 ptr=%s%s" % (arg(x["p"]), e.q(q)), lambda r, x=x, q=q: {"op": "add", "rec": 0, "q": q, "k": "rec", "f": f, "p": [cc(x["p"])], "r": e.ans(0, r)})
        elif x["k"] == "mrg":
            e.merge(0, q, x["p"], PATCH[x["v"]])
        elif x["k"] == "ser":
            e.ser(0, 0)
        else:
            e.free(0)
        if look:
            for p in rng.sample(POINTERS, 2):
                e.get(0, rng.choice([0, -1]), p, rng.choice("is-"))


def model(run, direct, n, most):
    rng = run.rng
    hs = run.mc("MCEh", "changes" if direct else "held changes", {"N": n, "Direct": direct}, ["View", "Local", "Sizes", "Emit"], ["Quiet", "Stored"], workers=4)
    total = len(hs)
    hs = hs if total <= most else rng.sample(hs, most)
    ses = []
    for i in range(0, len(hs), 4):
        e = Eh(rng)
        for h in hs[i:i + 4]:
            replay(e, h, rng.random() < .6, rng)
            for p in POINTERS:
                e.get(0, 0, p, "-")
            e.free(0)
            for p in POINTERS:
                e.get(0, -1, p, rng.choice("nis-"))
            e.cycle(0)
        ses.append(e.s)
    run.cov["models"][-1]["replayed"] = "%d of %d" % (len(hs), total)
    run.validate("EhTrace", ses, "histories of changes")


@prop("E01")
def e01(run):
    rng = run.rng
    model(run, True, 3 if run.thorough() else 2, run.scale(700, 8000))
    ses = []
    for _ in range(run.scale(250, 3000)):
        e = Eh(rng)
        e.new(0, rng.choice([b"", text(rng, known(rng)).encode("utf-8")]))
        steps(e, rng, 25, [0], [])
        e.cycle(0)
        ses.append(e.s)
    run.validate("EhTrace", ses, "changes without a state")
    # headers close to the most a record can carry
    ses = []
    for over in (-2, -1, 0, 1, 2, 40) if not run.thorough() else range(-8, 60):
        e = Eh(rng)
        first = rng.choice([None, {"b": [1]}, {"b": 12345, "a": "q"}])
        have = len(json.dumps(first, separators=(",", ":"))) if first else 2
        room = 65535 - have - (1 if first else 0) - 4 - 2  # ,"c":""
        e.new(0, json.dumps(first, separators=(",", ":")).encode() if first else b"")
        e.set(0, -1, "/c", "x" * (room + over))
        e.get(0, -1, "/c", "s", 100)
        e.get(0, -1, "/b", "-")
        e.cycle(0)
        e.set(0, -1, "/d", "v")
        e.merge(0, -1, "", json.dumps({"e": "x" * 65500}))
        e.set(0, -1, "/c", 1)
        e.rep(0, '{"c" : "' + "x" * (65535 - 8 + over) + '"}')
        e.add(0, -1)
        e.cycle(0)
        ses.append(e.s)
    run.validate("EhTrace", ses, "headers of the largest size")


@prop("E02")
def e02(run):
    rng = run.rng
    model(run, False, 4 if run.thorough() else 3, run.scale(700, 8000))
    ses = []
    for _ in range(run.scale(300, 3500)):
        e = Eh(rng)
        recs = rng.choice([[0], [0], [0, 1]])
        for i in recs:
            e.new(i, rng.choice([b"", b"", text(rng, known(rng)).encode("utf-8")]))
        steps(e, rng, 30, recs, [0, 1, 2, 3][:rng.choice([1, 2, 4])])
        for i in recs:
            e.cycle(i)
        ses.append(e.s)
    run.validate("EhTrace", ses, "changes through states")
    ses = []
    for over in (-1, 0, 1, 2) if not run.thorough() else range(-6, 8):
        e = Eh(rng)
        e.new(0, rng.choice([b"", b'{"b":1}']))
        e.set(0, 0, "/b", 1)
        e.set(0, 0, "/c", "x" * (65535 - 14 + over))
        e.get(0, 0, "/c", "s", 20)
        e.ser(0, 0)
        e.get(0, -1, "/c", "-")
        e.get(0, 0, "/b", "i")
        e.set(0, 0, "/c", 2)
        e.ser(0, 0)
        e.cycle(0)
        ses.append(e.s)
    run.validate("EhTrace", ses, "headers of the largest size")
