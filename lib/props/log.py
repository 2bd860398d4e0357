"""L01: logging contexts and the message registry."""
from core import *
from props import prop


def cc(s):
    return list(s.encode("latin-1"))


def ctx(c):
    return "" if c == 4 else " c=%d" % c


def sink(r):
    return [{"h": h, "m": codes(m)} for h, m in r["sink"]]


def init(s, c, h1=-1, h2=-1, p1=None, p2=None, mx=-1):
    a = "lg_init h1=%d h2=%d max=%d%s" % (h1, h2, mx, ctx(c))
    for k, v in (("p1", p1), ("p2", p2)):
        if v is not None:
            a += " %s=%s" % (k, hx(v) or "-")
    s.do(a, lambda r: {"op": "init", "c": c, "hl": h1, "hd": h2, "lp": [] if p1 is None else [cc(p1)], "ep": [] if p2 is None else [cc(p2)], "max": mx,
                       "r": {"ok": bool(r.get("ok", 1)), "sink": sink(r)}})


def log(s, c, lv, msg, fn=None):
    s.do("lg_log lv=%d msg=%s%s%s" % (lv, hx(msg) or "-", "" if fn is None else " fn=" + (hx(fn) or "-"), ctx(c)),
         lambda r: {"op": "log", "c": c, "lv": lv, "msg": cc(msg), "fn": cc(fn or ""), "r": {"rv": r["rv"], "sink": sink(r)}})


def emit(s, c, n, withfn):
    s.do("lg_emit n=%d ctx=%d%s" % (n, withfn, ctx(c)), lambda r: {"op": "emit", "c": c, "n": n, "ctx": bool(withfn), "r": {"rv": r["rv"], "sink": sink(r)}})


def clear(s, c):
    s.do("lg_free" + ctx(c), lambda r: {"op": "clear", "c": c, "r": {"rv": r["rv"], "sink": sink(r)}})


def look(s, c):
    if c == 4:
        return  # the library keeps its own to itself
    s.do("lg_look" + ctx(c), lambda r: {"op": "look", "c": c, "r": [{"lv": a, "fn": codes(b), "msg": codes(m)} for a, b, m in r["reg"]]})


def begin(s, rng=None, cs=(1, 2)):
    for c in cs:
        p = (None, None) if rng is None else (rng.choice([None, "", "log: ", "x" * 199, "é%s"]), rng.choice([None, "", "E: ", "y" * 199, "y" * 198]))
        init(s, c, 2 * c - 2, 2 * c - 1, p[0] if c != 4 else p[0] or "", p[1] if c != 4 else p[1] or "Error: ", 0)


@prop("L01")
def l01(run):
    rng = run.rng
    n = 6 if run.thorough() else 5
    hs = run.mc("MCLog", "calls", {"N": n, "Maxes": {0, 1, 2}, "Counts": {0, 1}, "Levels": {0, 2}}, ["Once", "Apart", "Own", "Sorted", "Emit"], ["Kept"], workers=4)
    total = len(hs)
    if len(hs) > run.scale(1500, 20000):
        hs = rng.sample(hs, run.scale(1500, 20000))
    ses = []
    for h in hs:
        s = Session()
        # the second context may be the program's own one
        m = {1: 1, 2: rng.choice([2, 4])}
        begin(s, cs=m.values())
        for i, x in enumerate(h):
            c = m[x["c"]]
            if x["k"] == "s":
                init(s, c, mx=x["n"])
            elif x["k"] == "l":
                log(s, c, x["n"], chr(97 + i) * rng.choice([1, 5]) + rng.choice(["", "\n"]), rng.choice([None, "fun"]))
            elif x["k"] == "e":
                emit(s, c, x["n"], rng.randint(0, 1))
            else:
                clear(s, c)
            if rng.random() < .3:
                look(s, c)
        for c in m.values():
            look(s, c)
        ses.append(s)
    run.cov["models"][-1]["replayed"] = "%d of %d" % (len(hs), total)
    run.validate("LogTrace", ses, "histories of calls")
    ses = []
    for _ in range(run.scale(150, 2500)):
        s = Session()
        cs = rng.sample([1, 2, 3, 4], rng.choice([1, 2, 3]))
        begin(s, rng, cs)
        mx = {c: 0 for c in cs}
        for _ in range(rng.choice([8, 20, 40])):
            c = rng.choice(cs)
            k = rng.random()
            if k < .12:
                mx[c] = rng.choice([0, 1, 2, 3, 5, 30])
                init(s, c, mx=mx[c])
            elif k < .16:
                init(s, c, rng.choice([-1, 2 * c - 2]), rng.choice([-1, 2 * c - 1]), rng.choice([None, "p: "]), rng.choice([None, "q: ", ""]))
            elif k < .18 and mx[c] == 0:
                init(s, c, p1=rng.choice([None, "z" * 200, "z" * 199]), p2=rng.choice(["w" * 200, "w" * 300, "w" * 199]))
            elif k < .72:
                ln = rng.choice([0, 1, 5, 20, 150, 190, 191, 192, 193, 197, 198, 199, 200, 201, 250, 600])
                msg = "".join(rng.choice("abc %\n\xe9") for _ in range(ln))
                if rng.random() < .5:
                    msg += "\n"
                log(s, c, rng.choice([0, 1, 1, 2, 2, 3, -1]), msg, rng.choice([None, "", "f", "msr3_parse", "g" * 29, "g" * 30, "g" * 31, "g" * 60]))
            elif k < .86:
                emit(s, c, rng.choice([0, 1, 1, 2, 3, 100, -1]), rng.randint(0, 1))
            elif k < .91:
                clear(s, c)
            else:
                look(s, c)
        for c in cs:
            look(s, c)
        ses.append(s)
    run.validate("LogTrace", ses, "long histories")
