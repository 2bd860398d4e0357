"""G01, G03: calendar, time strings, sample times and leap seconds."""
import datetime, random
import obs
from core import *
from props import prop
from props.pack import rate_of

NS = 10**9
DAY = 86400 * NS
LO, HI = -(2**63) + 2, 2**63 - 1
ERR = -2145916800 * NS
READABLE = [0, 1, 4, 5, 6, 7]
NEWYEAR = {y: (datetime.date(y, 1, 1) - datetime.date(1970, 1, 1)).days for y in range(1677, 2263)}


def cc(s):
    return list(s.encode("latin-1"))


def rinstant(rng):
    k = rng.random()
    if k < .1:
        t = rng.choice([LO + 10**12, HI, 0, 1, -1, HI - 1, NEWYEAR[1678] * DAY]) + rng.choice([0, 0, -1, 1, NS])
    elif k < .25:
        t = -rng.choice([1, 999, 1000, 1001, 999999, 10**6, 999999999, NS, NS + 1, NS - 1000, 60 * NS, 86399 * NS, DAY, DAY + 1, DAY - 1])
    elif k < .5:
        y = rng.choice([1678, 1699, 1700, 1704, 1799, 1800, 1900, 1901, 1904, 1968, 1969, 1970, 1972, 1999, 2000, 2001, 2024, 2100, 2101, 2200, 2261, 2262, rng.randint(1678, 2262)])
        t = (NEWYEAR[y] + rng.choice([0, 0, 31, 58, 59, 60, 90] + ([365, 364] if y < 2262 else []))) * DAY + rng.choice([0, -1, 1, 86399 * NS, 999999999, -1000, 43200 * NS])
    else:
        t = rng.randint(NEWYEAR[1678] * DAY, HI)
        t = t // rng.choice([1, 1, 1000, 10**6, NS, 60 * NS, 3600 * NS, DAY]) * 1
        if rng.random() < .6:
            q = rng.choice([1000, 10**6, NS, 60 * NS, DAY])
            t = rng.randint(NEWYEAR[1678] * DAY // q + 1, HI // q) * q
    t = max(LO, min(HI, t))
    return t if t // NS != ERR // NS else 0


def fields(t):
    d, r = divmod(t, DAY)
    y = (datetime.date(1970, 1, 1) + datetime.timedelta(days=d)).year
    return [y, d - NEWYEAR[y] + 1, r // (3600 * NS), r // (60 * NS) % 60, r // NS % 60, r % NS]


def tres(r):
    return {"err": bool(r["err"]), "t": [] if r["err"] else obs.instant(r["t"])}


def join(s, f):
    s.do("t_join y=%d d=%d h=%d m=%d sc=%d n=%d" % tuple(f), lambda r: {"op": "join", "f": f, "r": tres(r)})


def fmt(s, t, form, ss, back=False):
    def fn(r):
        o = {"ok": bool(r["ok"]), "str": codes(r["str"])}
        if back and r["ok"]:
            o["back"] = obs.instant(r["back"])
        return {"op": "round" if back else "fmt", "t": obs.instant(t), "form": form, "ss": ss, "r": o}
    s.do("t_fmt t=%d f=%d ss=%d%s" % (t, form, ss, " back=1" if back else ""), fn)


def parse(s, txt, how):
    s.do("t_parse str=%s k=%s" % (hx(txt), how), lambda r: {"op": "parse", "str": cc(txt), "how": how, "r": tres(r)})


def year(s, y):
    s.do("t_cal y=%d" % y, lambda r: {"op": "year", "y": y, "days": r["days"], "md": r["md"]})


# ------------------------------------------------------------- time strings
def layout(rng):
    """a string of one of the layouts, whole or cut after any field, and the parsers that read it"""
    t = rinstant(rng)
    f = fields(max(t, NEWYEAR[1678] * DAY))
    y, doy, h, mi, se, ns = f
    if rng.random() < .1:
        se = rng.choice([59, 60, 0])
    dt = datetime.date(1970, 1, 1) + datetime.timedelta(days=NEWYEAR[y] + doy - 1)
    nd = rng.choice([0, 0, 1, 2, 3, 4, 6, 8, 9, 9, 10, 12, 15])
    frac = ("%09d" % ns + "".join(rng.choice("0123") for _ in range(8)))[:nd]
    if nd > 9 and rng.random() < .4:
        frac = frac[:9] + rng.choice("6789") + frac[10:]
    frac = "." + frac if nd else ""
    pad = rng.random() < .85
    w = lambda v, n: ("%0*d" % (n, v)) if pad else str(v)
    k = rng.random()
    if k < .45:
        a = rng.choice(["-", "-", "/"])
        parts = [w(y, 4), a, w(dt.month, 2), a, w(dt.day, 2), rng.choice("T T".split(" ") + [" "]), w(h, 2), ":", w(mi, 2), ":", w(se, 2)]
        how = ["any", "md"]
    elif k < .8:
        a = rng.choice(["-", ",", ","])
        parts = [w(y, 4), a, w(doy, 3), "," if a == "," and rng.random() < .7 else rng.choice("T ") if a == "-" or rng.random() < .3 else ",", w(h, 2), ":", w(mi, 2), ":", w(se, 2)]
        how = ["any", "seed"]
    else:
        e = t // NS
        return rng.choice(["%d%s", "%d%s", "+%d%s"]) % (e, frac) if e >= 0 else "%d%s" % (e, frac), ["any"]
    cut = rng.choice([len(parts)] * 4 + list(range(1, len(parts) + 1, 2)))
    txt = "".join(parts[:cut]) + (frac if cut == len(parts) else "") + (rng.choice(["", "", "Z", "Z", "z"]) if "any" in how else "")
    return txt, how


JUNK = list("0123456789") + list("-:/,. TZz+") + ["x", "e", "\t", "(", "_"]


def spoil(rng, s):
    s = list(s)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        i = rng.randrange(len(s) + 1)
        if k < .35 and s:
            s[min(i, len(s) - 1)] = rng.choice(JUNK)
        elif k < .6:
            s.insert(i, rng.choice(JUNK))
        elif k < .8 and s:
            del s[min(i, len(s) - 1)]
        elif s:
            # another value in a field
            j = [q for q in range(len(s)) if s[q].isdigit() and (q == 0 or not s[q - 1].isdigit())]
            if j:
                a = rng.choice(j)
                b = a
                while b < len(s) and s[b].isdigit():
                    b += 1
                s[a:b] = list(str(rng.choice([0, 00, 1, 12, 13, 23, 24, 28, 29, 30, 31, 32, 59, 60, 61, 99, 365, 366, 367, 1677, 1678, 2262, 2263, 9999, 123456])))
    return "".join(s)


def fair(txt):
    """inside what the specification is exact about: numbers of up to nine digits apart from fractions and epochs, no near-tie after the ninth digit"""
    import re
    if "\0" in txt:
        return False
    body = txt.rstrip("Zz")
    num = re.fullmatch(r"[+-]?[0-9]*\.?[0-9]*", body) is not None and not (len(txt) == 4 and txt.isdigit())
    runs = [(m.start(), m.group()) for m in re.finditer(r"[0-9]+", txt)]
    for i, g in runs:
        fracp = i > 0 and txt[i - 1] == "."
        if fracp and len(g) > 9 and (len(g) > 16 or g[9] in "45"):
            return False
        if not fracp and len(g) > 9 and not (num and len(g) <= 17):
            return False
        if num and not fracp and len(g) > 17:
            return False
    return True


def not_error(txt):
    return "1902" not in txt and "2145916800" not in txt


@prop("G01")
def g01(run):
    rng = run.rng
    begin = {(y - 1600) * 1000000 + NEWYEAR[y] + 200000 for y in range(1678, 2262, 49)}
    run.mc("MCCal", "calendar", {"Final": 106751, "Begin": begin, "Every": 1009 if not run.thorough() else 31},
           ["Turned", "BackAgain", "Readback", "Ordered"], workers=4 if not run.thorough() else 8)
    # every day of every year
    ys = list(range(1670, 2270)) + [-2147483648, -2000, -1, 0, 1, 4, 999, 1000, 1500, 9999, 32768, 65536, 65536 + 1970, 67506 + 2000, 2147483647]
    rng.shuffle(ys)
    ses = []
    for i in range(0, len(ys), 12):
        s = Session()
        for y in ys[i:i + 12]:
            year(s, y)
        ses.append(s)
    run.validate("ClockTrace", ses, "every day of every year")
    # instants, fields, layouts
    ses = []
    for _ in range(run.scale(150, 1500)):
        s = Session()
        for _ in range(6):
            t = rinstant(rng)
            s.do("t_split t=%d" % t, lambda r, t=t: {"op": "split", "t": obs.instant(t), "r": r["f"] if r["rv"] == 0 else []})
            if t >= NEWYEAR[1678] * DAY:
                join(s, fields(t))
            for form in rng.sample(range(9), 4):
                fmt(s, t, form, rng.randrange(7))
            for form in rng.sample(READABLE, 3):
                fmt(s, t, form, rng.randrange(7), back=True)
        ses.append(s)
    run.validate("ClockTrace", ses, "instants")
    ses = []
    for _ in range(run.scale(80, 600)):
        s = Session()
        for _ in range(20):
            f = fields(max(rinstant(rng), NEWYEAR[1678] * DAY))
            for _ in range(rng.choice([0, 1, 1, 2])):
                i = rng.randrange(6)
                f[i] = rng.choice([[1677, 2263, 0, -1, 1678, 2262, 65536 + 2000], [0, 366, 367, 365, -1, 1], [24, 23, -1, 0, 256], [60, 59, -1, 61], [60, 61, 59, -1, 62], [NS, NS - 1, 0, 4294967295]][i])
            join(s, f)
        ses.append(s)
    for y in (1678, 2262):  # the ends of the range of years
        s = Session()
        for d in (1, 100, 101, 102, 103, 365, 366):
            for c in ([0, 0, 0, 0], [23, 47, 16, 854775807], [23, 47, 16, 854775808], [23, 47, 17, 0], [23, 59, 60, 999999999]):
                join(s, [y, d] + c)
        ses.append(s)
    run.validate("ClockTrace", ses, "joined fields")
    ses = []
    for _ in range(run.scale(150, 2000)):
        s = Session()
        n = 0
        while n < 20:
            txt, how = layout(rng)
            if rng.random() < .55:
                txt = spoil(rng, txt)
                how = ["any", "md", "seed"] if rng.random() < .3 else how
            if not fair(txt) or not not_error(txt):
                continue
            for h in how:
                parse(s, txt, h)
            n += 1
        ses.append(s)
    run.validate("ClockTrace", ses, "strings")


# ------------------------------------------------------------- sample times
LEAPDAYS = [730, 912, 1096, 1461, 1826, 2191, 2557, 2922, 3287, 3652, 4199, 4564, 4929, 5660, 6574, 7305, 7670, 8217, 8582, 8947, 9496, 10043, 10592, 13149, 14245, 15522, 16617, 17167]
RATES = [1.0, 20.0, 100.0, 40.0, 0.1, 0.05, 0.01, 1 / 3, 1 / 60, 12.5, 0.4, 2.5, 1000.0, 5000.0, 32767.0, 40000.0, 7 / 9, 62.5, 1e6, 1 / 3600, 0.0, 3.2, 99.5, 7.0, 11.0, 13.0]


def rrate(rng):
    r = rng.choice(RATES) if rng.random() < .8 else float(rng.randint(1, 3000))
    if r and rng.random() < .35:
        r = -(1.0 / r if rng.random() < .5 else rng.choice([1.0, 2.0, 10.0, 60.0, 3600.0, 0.5, 0.25, 0.01, 0.02, 3.0, 7.0, 1.5]))
    return r


def hz(rate):
    return -1.0 / rate if rate < 0 else rate


def place(rng, days):
    """an instant near a leap second, or anywhere"""
    if days and rng.random() < .75:
        return rng.choice(days) * DAY + rng.choice([0, 0, -1, 1, -NS, NS, -NS - 1, -NS + 1, -10 * NS, -60 * NS, 5 * NS, -3600 * NS, rng.randint(-200, 5) * NS, rng.randint(-300 * NS, NS)])
    return max(-9 * 10**18, min(9 * 10**18, rinstant(rng)))


def count(rng, q):
    """a number of samples spanning at most about three hours, or a whole number of seconds over longer"""
    n, d = q
    if n == 0:
        return rng.randint(0, 10**6)
    most = max(1, min(10000 * n // d, 2**31 // max(d, 1) - 1))
    k = rng.choice([0, 1, 2, 3, rng.randint(0, most), rng.randint(0, most), rng.randint(0, min(most, 300)), min(most, max(1, n // d * rng.randint(1, 120)))])
    if rng.random() < .2 and d == 1 and n < 1000:
        k = n * rng.randint(1, 2 * 10**6)
    return min(k, 2**31 // max(d, 1) - 1)


def sample(s, t, k, rate):
    q = obs.frac(hz(rate))
    s.do("t_sample t=%d off=%d rate=%s" % (t, k, repr(rate)), lambda r: {"op": "sample", "t": obs.instant(t), "k": k, "q": q, "r": obs.instant(r["t"])})


def rec(s, t, cnt, rate):
    q = obs.frac(hz(rate))
    s.do("rec_new r=0 sid=%s st=%d rate=%r cnt=%d" % (hx("FDSN:XX_S__L_H_Z"), t, rate, cnt))
    s.do("rec_dump r=0 data=0", lambda r: {"op": "rec", "t": obs.instant(t), "cnt": cnt, "q": q, "r": {"end": obs.instant(r["end"]), "q": obs.frac(f64(r["hz"])), "per": obs.instant(r["nsper"])}})


def times(rng, s, days, n):
    for _ in range(n):
        r = rrate(rng)
        q = obs.frac(hz(r))
        if q[0] < 0:
            continue
        k = count(rng, q)
        t = place(rng, days)
        if days and k > 1 and q[0] and rng.random() < .5:
            # aim the last sample at the leap second
            span = k * q[1] * NS // q[0]
            t = rng.choice(days) * DAY - span + rng.choice([0, NS, NS - 1, NS + 1, -1, 1, 2 * NS, -NS, rng.randint(0, 2 * NS)])
        if not -9 * 10**18 < t < 9 * 10**18 or abs(t - ERR) < 10**15:
            continue
        if rng.random() < .6:
            sample(s, t, k, r)
        else:
            rec(s, t, k + 1 if k else rng.choice([0, 1]), r)


def table(rng, old):
    """lines of a leap second file and the days it lists"""
    lines, days = [], []
    ds = sorted(rng.sample(LEAPDAYS + [17500, 18000, 18262, 19000, 20000, 21000, -3000, -40, 25000], rng.choice([0, 1, 2, 5, 12])))
    if rng.random() < .2:
        rng.shuffle(ds)
    lines += rng.choice([[], ["#"], ["# comment text 123 45", "#\tmore"], ["#$\t 3676924800"]])
    if rng.random() < .8:
        x = rng.choice([2208988800, 3400000000, 3676924800, 3913056000, 3900000000] if rng.random() < .5 else [9000000000, 4900000000, 12345678901])
        lines.append("#@%s%d%s" % (rng.choice(["\t", " ", "  \t", ""]), x, rng.choice(["", "", " text", "\r"])))
    for i, d in enumerate(ds):
        sec = (d + 25567) * 86400 + (rng.choice([0, 0, 0, 1, 43200]) if d not in LEAPDAYS else 0)
        lines.append("%s%d%s%d%s" % (rng.choice(["", "", "", " "]), sec, rng.choice([" ", "\t", "      "]), rng.choice([10 + i, 10 + i, -1, 0]), rng.choice(["", "\t# 1 Jan 1972", " ", "\r", "  # comment"])))
        days.append(d)
        if rng.random() < .12:
            lines.append(rng.choice(["", "# between", "#@", "#@ x", "", "#@3900000000"]))
    if rng.random() < .4:
        lines.insert(rng.randrange(len(lines) + 1), rng.choice(["garbage", "2272060800", "2272060800 x", "x 2272060800 10", "-", "+ 3", "2272060800,10", " ", "\r", "@# 5"]))
    if rng.random() < .3:
        k = rng.choice([150, 196, 197, 198, 199, 200, 396, 600])
        x = (17167 + 25567) * 86400
        lines.insert(rng.randrange(len(lines) + 1), rng.choice(["#" + "c" * k + " %d 37" % x, "x" * k + " %d 37" % x, "#@ " + " " * 150 + "%d 30" % x, "%d 20 # " % (x + 86400) + "c" * k + " %d 37" % x]))
    return lines, days


def leapfile(s, rng, path, lines, missing=False, isdir=False):
    txt = "".join(x + "\n" for x in lines)
    if lines and rng.random() < .3 and lines[-1]:
        txt = txt[:-1]
    if not missing and not isdir:
        s.do("buf_set b=9 hex=%s" % (txt.encode("latin-1").hex() or "-"))
        s.do("buf_file b=9 path=" + hx(path))

    def fn(r):
        return {"op": "leapfile", "lines": [cc(x) for x in lines], "missing": missing, "unreadable": isdir,
                "r": {"rv": r["rv"], "list": [[obs.instant(a), b] for a, b in r["list"]], "warned": bool(r["log"])}}
    s.do("leap_file path=" + hx(path), fn)


def leapdump(s):
    s.do("leap_dump", lambda r: {"op": "leapdump", "r": [[obs.instant(a), b] for a, b in r["list"]]})


@prop("G03")
def g03(run):
    rng = run.rng
    ses = []
    for _ in range(run.scale(120, 1500)):
        s = Session()
        times(rng, s, LEAPDAYS, 24)
        ses.append(s)
    run.validate("ClockTrace", ses, "sample times")
    ses = []
    for i in range(run.scale(160, 2000)):
        s = Session()
        leapdump(s)
        days = LEAPDAYS
        for j in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            if k < .1:
                leapfile(s, rng, "none%d" % i, [], missing=True)
            elif k < .18:
                leapfile(s, rng, "/", [], isdir=True)
                days = []
            elif k < .24:
                s.do("leap_env", lambda r: {"op": "leapenv", "r": {"rv": r["rv"]}})
            else:
                lines, days = table(rng, days)
                leapfile(s, rng, "leap%d_%d" % (i, j), lines)
            times(rng, s, days, 5)
        leapdump(s)
        ses.append(s)
    run.validate("ClockTrace", ses, "leap second tables")
