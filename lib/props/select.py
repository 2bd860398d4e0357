"""S01, S02: selections and selection files."""
import itertools, struct
import msr, tl
from core import *
from props import prop

OPEN = -1000000007


def cstr(s):
    return list(s.encode("latin-1"))


class Clock:
    def __init__(self, rng):
        self.unit = rng.choice([1, 1000, 10**6, 10**9, 60 * 10**9])
        self.base = rng.choice([1530000000, 1000000007, 1893456000]) * 10**9 + rng.choice([0, 0, 999999999])

    def ns(self, t):
        return self.base + t * self.unit

    def un(self, x, unset):
        if x in unset:
            return OPEN
        d = x - self.base
        return d // self.unit if d % self.unit == 0 else 2147483640


UNSET = {-2145916800000000000, -2145916799999999999, -2145916800000000001}


def w_args(c, w):
    return (" ts=%d" % c.ns(w[0]) if w[0] is not None else "") + (" te=%d" % c.ns(w[1]) if w[1] is not None else "")


def wm(w):
    return {"s": OPEN if w[0] is None else w[0], "e": OPEN if w[1] is None else w[1]}


def add_step(s, c, pat, pub, w):
    s.do("sel_add s=0 pat=%s pub=%d%s" % (hx(pat), pub, w_args(c, w)),
         lambda r: {"op": "add", "pat": cstr(pat), "pub": pub, "w": wm(w), "r": r["rv"]})


def match_step(s, c, sid, st, en, pub):
    def fn(r):
        o = {"m": bool(r["m"]), "pat": codes(r["pat"]), "mpub": r["mpub"], "hastw": bool(r["hastw"])}
        if r["hastw"]:
            o["w"] = {"s": c.un(r["ws"], UNSET), "e": c.un(r["we"], UNSET)}
        return {"op": "match", "sid": cstr(sid), "st": st, "en": en, "pub": pub, "r": o}
    s.do("sel_match s=0 sid=%s ts=%d te=%d pub=%d" % (hx(sid), c.ns(st), c.ns(en), pub), fn)


def dump_step(s, c):
    def fn(r):
        return {"op": "dump", "r": [{"pat": codes(x["pat"]), "pub": x["pub"],
                                     "tw": [{"s": c.un(a, UNSET), "e": c.un(b, UNSET)} for a, b in x["tw"]]} for x in r["sel"]]}
    s.do("sel_dump s=0", fn)


TOK = ["a", "b", "*", "?", "[a]", "[^a]", "[a-b]", "[^bc]", "\\*", "\\a", "\\?", "_", "[a-bd]", "[b"]


def glob_session(pats, strs):
    s = Session()
    arg = ",".join(x.encode().hex() or "-" for x in strs)
    for p in pats:
        def fn(r, p=p):
            return {"op": "glob", "pat": cstr(p), "strs": [cstr(x) for x in strs], "r": r["m"]}
        s.do("sel_bulk pat=%s sids=%s" % (hx(p), arg), fn)
    return s


@prop("S01")
def s01(run):
    rng = run.rng
    hs = run.mc("MCSelect", "windows", {"N": 2, "Times": {1, 2, 3}, "SPubs": {0, 1}, "QPubs": {1, 2}}, ["Meaning", "Distinct", "Kept", "Emit"])
    if run.thorough():
        run.mc("MCSelect", "windows3", {"N": 3, "Times": {1, 3}, "SPubs": {0, 1}, "QPubs": {1}}, ["Meaning", "Distinct", "Kept"])
    total = len(hs)
    hs = rng.sample(hs, min(len(hs), run.scale(500, 10**6)))
    ss = []
    for h in hs:
        c = Clock(rng)
        s = Session()
        for x in h:
            w = tuple(None if x["w"][k] == OPEN else x["w"][k] for k in "se")
            add_step(s, c, bytes(x["pat"]).decode(), x["pub"], w)
        dump_step(s, c)
        for sid in ("A", "B", "AB"):
            for st, en in [(0, 0), (0, 1), (1, 1), (2, 2), (0, 4), (2, 3), (3, 4), (4, 4), (1, 2)]:
                match_step(s, c, sid, st, en, rng.choice([1, 2]))
        ss.append(s)
    run.cov.setdefault("replayed", {})["windows"] = "%d of %d" % (len(hs), total)
    run.validate("SelectTrace", ss, "windows")
    # globbing: every pattern of up to n tokens against every short string
    strs = [""] + ["".join(x) for n in (1, 2, 3) for x in itertools.product("abc*", repeat=n)]
    pats = ["".join(x) for n in (1, 2, 3) for x in itertools.product(TOK, repeat=n)]
    if not run.thorough():
        pats = pats[:14 + 196] + rng.sample(pats[14 + 196:], 700)
    else:
        pats += ["".join(rng.choice(TOK) for _ in range(rng.choice([4, 5]))) for _ in range(12000)]
    pats = [p for p in pats if "[b" not in p or p.index("[b") == len(p) - 2 or True]
    pats = [p for p in pats if not bad_set(p)]
    rng.shuffle(pats)
    run.validate("SelectTrace", [glob_session(pats[i:i + 25], strs) for i in range(0, len(pats), 25)], "glob")

    # realistic identifiers and patterns made from them
    ss = []
    for i in range(run.scale(150, 4000)):
        c = Clock(rng)
        s = Session()
        ids = ["FDSN:%s_%s_%s_%s" % (rng.choice(["XX", "X1", "IU"]), rng.choice(["STA", "ST1", "A"]), rng.choice(["", "00", "10"]), rng.choice(["B_H_Z", "L_H_1", "L_O_G"])) for _ in range(4)]
        for _ in range(rng.randrange(1, 6)):
            pat = mutate(rng, rng.choice(ids))
            if bad_set(pat):
                continue
            a, b = rng.choice([None, rng.randrange(12)]), rng.choice([None, rng.randrange(12)])
            if a is not None and b is not None and a > b:
                a, b = b, a
            if rng.random() < 0.7:
                if rng.random() < .08:
                    k = rng.choice([98, 99, 100, 101, 130])
                    pat = (pat[:20] + "*" * 140)[:k]
                    if bad_set(pat):
                        continue
                add_step(s, c, pat, rng.choice([0, 0, 1, 2, 255]), (a, b))
            else:
                n, st, lo, ch = rng.choice(["XX", "*", "X?"]), rng.choice(["STA", "S*", "[SA]*"]), rng.choice(["--", "00", "*", "??"]), rng.choice(["BHZ", "B*", "L??", "B_H_Z", "*", "[BL]H?"])
                if rng.random() < .3:
                    # sets make patterns long: kept whole, or refused
                    n, st, lo, ch = (longer(rng, x) for x in (n, st, lo, ch))
                pv = rng.choice([0, 1])
                # a code that is not given stands for any
                given = [(k, v) for k, v in (("n", n), ("st", st), ("l", lo), ("c", ch)) if v != "*" or rng.random() < .5]
                s.do("sel_comp s=0%s pub=%d%s" % ("".join(" %s=%s" % (k, hx(v)) for k, v in given), pv, w_args(c, (a, b))),
                     lambda r, n=n, st=st, lo=lo, ch=ch, pv=pv, a=a, b=b: {"op": "comp", "n": cstr(n), "s2": cstr(st), "loc": cstr(lo), "ch": cstr(ch), "pub": pv, "w": wm((a, b)), "r": r["rv"]})
        dump_step(s, c)
        for sid in ids:
            for _ in range(3):
                st = rng.randrange(13)
                match_step(s, c, sid, st, st + rng.choice([0, 0, 1, 4]), rng.choice([0, 1, 2, 255]))
            st, n, pub = rng.randrange(13), rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 255])
            s.do("rec_new r=0 sid=%s st=%d rate=x%s cnt=%d pub=%d fmt=3" % (hx(sid), c.ns(st), struct.pack(">d", -c.unit / 1e9).hex(), n, pub))
            s.do("sel_matchrec s=0 r=0", lambda r, sid=sid, st=st, n=n, pub=pub: {"op": "matchrec", "sid": cstr(sid), "st": st, "en": st + n - 1, "pub": pub, "r": bool(r["m"])})
        ss.append(s)
    run.validate("SelectTrace", ss, "identifiers")


def longer(rng, p):
    """a pattern of the same meaning with characters written as sets, or one that is too long"""
    if rng.random() < .05:
        return "*" * rng.choice([60, 95, 99, 100, 101, 120])
    if rng.random() < .5 or p == "--":
        return p
    return "".join("[%s]" % (ch * rng.choice([1, 3, 5, 12, 20])) if ch.isalnum() and "[" not in p else ch for ch in p)


def bad_set(p):
    """sets outside the common subset of globbing (empty, or with stray brackets or dashes)"""
    i = 0
    while i < len(p):
        if p[i] == "\\":
            i += 2
            continue
        if p[i] == "[":
            j = i + 1
            if j < len(p) and p[j] == "^":
                j += 1
            k = p.find("]", j)
            body = p[j:k] if k >= 0 else p[j:]
            if k >= 0 and (not body or any(ch in "[]*?\\^_" for ch in body)):
                return True
            if k < 0:
                return False
            i = k
        i += 1
    return False


def mutate(rng, sid):
    out = []
    for ch in sid:
        x = rng.random()
        if x < 0.06:
            out.append("?")
        elif x < 0.1:
            out.append("*")
        elif x < 0.15 and ch.isalnum():
            out.append(rng.choice(["[%s]" % ch, "[^%s]" % ch, "[A-Z]", "[0-9]", "[%sQ]" % ch, "[A-MN-Z0-4]"]))
        elif x < 0.18:
            out.append("\\" + ch)
        elif x < 0.22:
            continue
        else:
            out.append(ch)
    p = "".join(out)
    if rng.random() < 0.5:
        k = rng.randrange(len(p) + 1)
        p = rng.choice(["*" + p[k:], p[:k] + "*"])
    return p


# ------------------------------------------------------------ selection files
def tfield(rng, c):
    """a date-like field: (text, k, value)"""
    if rng.random() < 0.12:
        return rng.choice(["2012-99-99", "2012,400", "2012-13-01T00:00:00", "2010-02-30", "2012-01-01T25:00:00", "2012-1x"]), "bad", OPEN
    t = rng.randrange(-20, 60)
    ns = c.ns(t)
    y, d, h, m, sec, f = msr.ns2cal(ns)
    import datetime
    mo = datetime.date(y, 1, 1) + datetime.timedelta(d - 1)
    fr = rng.choice(["", ".0", ".000000000"]) if f == 0 else ".%09d" % f
    txt = rng.choice(["%04d-%02d-%02dT%02d:%02d:%02d%s" % (y, mo.month, mo.day, h, m, sec, fr), "%04d,%03d,%02d,%02d,%02d%s" % (y, d, h, m, sec, fr),
                      "%04d/%02d/%02dT%02d:%02d:%02d%sZ" % (y, mo.month, mo.day, h, m, sec, fr), "%04d-%03dT%02d:%02d:%02d%s" % (y, d, h, m, sec, fr)])
    return txt, "time", t


def sel_line(rng, c):
    """(text, fields) of one line"""
    def f(txt):
        return {"c": cstr(txt), "k": "no", "t": OPEN}

    def tf():
        t, k, v = tfield(rng, c)
        return {"c": cstr(t), "k": k, "t": v}
    kind = rng.random()
    if kind < 0.08:
        return rng.choice(["", "   ", "\t"]), []
    if kind < 0.16:
        if rng.random() < 0.4:
            # where a line is cut must not matter: what follows is still the comment
            k = rng.choice([190, 196, 197, 198, 199, 200, 395, 396, 397, 1000])
            return "#" * rng.choice([1, k // 2]) + "c" * (k - k // 2) + " " * (k // 2) + rng.choice(["*", "FDSN:XX_STA_00_B_H_Z", "XX STA 00 BHZ", "FDSN:XX_* 2012-99-99", "# x"]), [f("#")]
        return rng.choice(["# FDSN:XX_*", "#", "  # 2012-99-99"]), [f("#")]
    if kind < 0.55:
        fs = [f(rng.choice(["FDSN:XX_STA_00_B_H_Z", "FDSN:X?_*", "*", "FDSN:XX_[A-C]*_B_H_Z"]))]
        if rng.random() < .05:
            fs = [f("FDSN:XX_" + "*" * rng.choice([90, 91, 92, 93, 110]))]
        n = rng.choice([1, 2, 3, 4, 4])
        if n > 1:
            fs.append(tf())
        if n > 2:
            fs.append(tf() if n > 3 or rng.random() < 0.9 else f("-"))
        if n > 3:
            fs.append(f(rng.choice(["0", "1", "2", "255", "256", "007"])))
    else:
        fs = [f(rng.choice(["XX", "X?", "*"])), f(rng.choice(["STA", "*", "S[A-T]A"]) if rng.random() < .9 else rng.choice(["[SSSSS][TTTTT][AAAAA]", "[ST][ABT][A-C]*[A-Z]*", "S" + "*" * 90])), f(rng.choice(["--", "00", "*", "??"])),
              f(rng.choice(["BHZ", "B??", "*", "B_H_Z", "[BL]H?", "LH*", "BH[ZN]"]))]
        n = rng.choice([4, 5, 6, 7, 7, 8])
        if n > 4:
            fs.append(f(rng.choice(["1", "D", "R", "0", "300", "3"])))
        if n > 5:
            fs.append(tf())
        if n > 6:
            fs.append(tf() if rng.random() < 0.9 else f("*"))
        if n > 7:
            fs.append(f("extra"))
    sep = rng.choice([" ", "  ", "\t"])
    if rng.random() < 0.08:
        w = sum(len(x["c"]) for x in fs[:-1])
        sep = " " * max(1, (rng.choice([197, 198, 199, 200, 300]) - w - len(fs[-1]["c"])) // max(1, len(fs) - 1))
        k = rng.choice([196, 197, 198, 199, 200]) - w - len(sep) * (len(fs) - 1) - len(fs[-1]["c"])
        return " " * max(0, k) + sep.join(bytes(x["c"]).decode() for x in fs) + rng.choice(["", " ", "\r", " " * 200]), fs
    return rng.choice(["", "", " ", "\t"]) + sep.join(bytes(x["c"]).decode() for x in fs) + rng.choice(["", "", " ", "\r"]), fs


@prop("S02")
def s02(run):
    rng = run.rng
    ss = []
    for i in range(run.scale(700, 15000)):
        c = Clock(rng)
        s = Session()
        if rng.random() < 0.3:
            add_step(s, c, rng.choice(["FDSN:XX_STA_00_B_H_Z", "*"]), 0, (None, None))
        ls = [sel_line(rng, c) for _ in range(rng.randrange(0, 7))]
        txt = "\n".join(t for t, _ in ls) + ("\n" if rng.random() < 0.7 else "")
        fields = [{"f": f, "w": len(t.rstrip())} for t, f in ls]
        name = "s02_%d.sel" % i
        s.do("buf_set b=0 hex=%s" % (txt.encode().hex() or "20"))
        s.do("buf_file b=0 path=%s" % hx(name))
        s.do("sel_file s=0 path=%s" % (hx(name) if rng.random() < .85 else hx("-") + " in=" + hx(name)), lambda r, fields=fields: {"op": "file", "lines": fields, "r": r["rv"]})
        dump_step(s, c)
        for _ in range(4):
            st = rng.randrange(-20, 60)
            match_step(s, c, rng.choice(["FDSN:XX_STA_00_B_H_Z", "FDSN:XX_STA__L_H_Z", "FDSN:XY_SBA_00_B_H_N"]), st, st + rng.choice([0, 3, 30]), rng.choice([1, 2, 3]))
        ss.append(s)
    run.validate("SelectTrace", ss, "files")
