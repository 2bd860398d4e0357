"""A01: memory and file handles, with any request refused."""
import re
import msr
from core import *
from props import prop

T0 = 1700000000 * 10**9
SID = "FDSN:XX_STA__B_H_Z"


def call(s, cmd, uses=False):
    """a step whose memory events are checked"""
    if cmd == "memlog":
        s.do("memlog")
        return
    name = cmd.split()[0]

    def fn(r):
        if "mem" not in r:
            return None
        m = r["mem"]
        return {"op": "call", "call": name, "ops": m["ops"], "held": m["held"], "fds": m["fds"], "hfds": m["hfds"], "direct": m["direct"], "par": bool(m["par"]), "uses": uses}
    s.do(cmd, fn)


# a script: (set-up steps, the steps examined); a step is a command, or (command, uses a parse state)
def rec_new(r, i, n=4, st=None, ty="i", enc=3, extra="", sid=SID, cnt=None, rate="1.0", pub=1, reclen=256, fmt=3):
    return "rec_new r=%d sid=%s st=%d rate=%s enc=%d pub=%d reclen=%d fmt=%d gen=%d,%d type=%s%s%s" % (
        r, hx(sid), T0 + (i if st is None else st) * 10**9, rate, enc, pub, reclen, fmt, i, n, ty, " extra=" + extra.encode().hex() if extra else "", "" if cnt is None else " cnt=%d" % cnt)


def v3rec(rng, i, n=4, kind="i", sid=None, **kw):
    v = [rng.randrange(-1000, 1000) for _ in range(n)]
    if kind == "st1":
        return msr.v3(sid or SID, T0 + i * 10**9, 1.0, n, 10, msr.steim1(v), **kw)
    return msr.v3(sid or SID, T0 + i * 10**9, 1.0, n, {"i": 3, "d": 5, "f": 4}[kind], msr.payload(kind, v), **kw)


def file_steps(name, b):
    return ["buf_set b=9 hex=%s" % (b.hex() or "-"), "buf_file b=9 path=%s" % hx(name)]


def stream(rng, n, bad=0.2):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < bad:
            out.append(rng.choice([b"junk" * 16, v3rec(rng, 5, badcrc=True), msr.v3(SID, T0, 1.0, 9, 77, b"\1" * 20), msr.v3(SID, T0, 1.0, 99, 3, b"\1" * 20),
                                   msr.v2("XX", "STA", "", "BHZ", T0, 1, 1, 4, 11, b"\xff" * 64), v3rec(rng, 1)[:-7]]))
        elif k < .45:
            out.append(msr.v2("XX", "STA", rng.choice(["", "00"]), "BHZ", T0 + rng.randrange(30) * 10**9, 1, 1, 4, 3, msr.payload("i", [1, 2, 3, 4], big=True)))
        else:
            out.append(v3rec(rng, rng.randrange(30), rng.randint(1, 6), rng.choice(["i", "i", "d", "st1"]), sid="FDSN:XX_STA%d__B_H_Z" % rng.randrange(3), extra=rng.choice([b"", b'{"FDSN":{"Time":{"Quality":100}}}'])))
    return b"".join(out)


def script(rng, k, tag):
    pre, st = [], []
    if k == "add":
        n = rng.randint(2, 6)
        st.append("tl_new t=0")
        for i in range(n):
            pos = rng.choice([i * 4, i * 4, (n - i) * 4, rng.randrange(30), i * 4 + 2])
            pre.append(rec_new(i, pos, extra=rng.choice(["", '{"a":1}']), ty=rng.choice("iiid"), cnt=4, sid=rng.choice([SID, SID, "FDSN:XX_B__B_H_Z"])))
            st.append("tl_add r=%d t=0 ah=%d rl=%d sv=%d" % (i, rng.randrange(2), rng.randrange(2), rng.randrange(2)))
        st += rng.sample(["tl_resize t=0", "tl_convert t=0 to=d", "tl_convert t=0 to=f", "tl_convert t=0 to=i", "prealloc n=4096"], rng.randint(0, 3))
        if rng.random() < .5:
            st.append("tl_pack t=0 b=1 reclen=%d enc=%d fl=%d%s" % (rng.choice([128, 256, 40]), rng.choice([3, 10, 11]), rng.choice([0x40, 0, 0x240, 0xC0]), " extra=" + hx('{"FDSN":{"x":1}}') if rng.random() < .4 else ""))
        if rng.random() < .3:
            st.append("tl_write t=0 path=%s reclen=256 enc=3 fl=64" % hx(rng.choice([tag + "w", "/no/such/dir/x"])))
        st += ["tl_dump t=0 data=1 rl=1", "tl_free t=0"]
    elif k in ("buf", "file", "recs"):
        b = stream(rng, rng.randint(1, 6))
        pre += file_steps(tag + "f", b)
        fl = rng.choice([1, 1, 0, 0x100, 0x103, 3, 7, 0x101])
        sel = rng.random() < .3
        if sel:
            pre += ["sel_add s=1 pat=%s ts=%d" % (hx("*STA*"), T0 + 5 * 10**9)]
        path = tag + rng.choice(["f", "f", "f", "nofile", "f@0-", "f@64-300"])
        if k == "buf":
            st.append("tl_readbuf t=0 b=9 fl=%d%s sv=%d" % (fl, " s=1" if sel else "", rng.randrange(2)))
        elif k == "file":
            st.append("tl_readfile t=0 path=%s fl=%d%s" % (hx(path), fl | (8 if "@" in path else 0), " s=1" if sel else ""))
        else:
            st.append("tl_readrecs t=0 path=%s fl=%d fd=%d%s" % (hx(tag + "f"), fl, rng.random() < .3, " s=1" if sel else ""))
        if fl & 0x100:
            st.append("tl_unpack t=0 id=0 seg=0%s" % rng.choice(["", "", " osz=4", " osz=4000"]))
        st += rng.sample(["tl_resize t=0", "tl_convert t=0 to=d"], rng.randrange(2))
        st += ["tl_dump t=0 data=1 rl=1", "tl_free t=0"]
    elif k == "next":
        pre += file_steps(tag + "f", stream(rng, rng.randint(1, 5), .15))
        pre += file_steps(tag + "g", b"") if rng.random() < .2 else []
        p = tag + rng.choice(["f", "f", "f", "g", "zz", "f@0-100"])
        fl = rng.choice([0, 1, 2, 4, 7, 9])
        if rng.random() < .2:
            st.append("rd_fd s=2 path=%s" % hx(tag + "f"))
        st += ["rd_next s=2 r=3 path=%s fl=%d" % (hx(p), fl)] * rng.randint(1, 4)
        st += [rng.choice(["rd_close s=2 r=3", "rd_close s=2 r=3", "rd_all s=3 path=%s fl=%d" % (hx(p), fl), "rd_plain path=%s fl=%d" % (hx(p), fl)])]
    elif k == "rec":
        b = rng.choice([lambda: v3rec(rng, 3, 5, rng.choice(["i", "st1", "d"]), extra=rng.choice([b"", b'{"FDSN":{"Time":{"Quality":5}}}'])),
                        lambda: msr.v2("XX", "STA", "", "BHZ", T0, 1, 1, 4, 3, msr.payload("i", [1, 2, 3, 4], big=True)),
                        lambda: v3rec(rng, 3, badcrc=True), lambda: msr.v3(SID, T0, 1.0, 9, 77, b"\1" * 20), lambda: msr.v3(SID, T0, 1.0, 50, 3, b"\1" * 20), lambda: v3rec(rng, 3)[:-9]])()
        pre.append("buf_set b=4 hex=%s" % b.hex())
        st.append("rec_parse r=0 b=4 fl=%d" % rng.choice([0, 1, 4, 5]))
        st += rng.sample(["rec_parse r=0 b=4 fl=1 reuse=1", "rec_init r=5"], rng.randrange(3))
        if b[-1:] and rng.random() < .5:
            st.append("rec_parse r=1 b=4 fl=0")
        st.append("rec_dump r=0")
    elif k == "pack":
        pre.append(rec_new(0, 2, n=rng.choice([4, 300, 1000]), ty=rng.choice("iifdt"), enc=-1, extra=rng.choice(["", '{"FDSN":{"Time":{"Quality":3},"Event":{"Detection":[{"Type":"MURDOCK","OnsetTime":"2020-01-01T00:00:00Z"}]}}}', "[1", '{"FDSN":{"Sequence":7}}']), reclen=rng.choice([128, 256, 512, 47])))
        st += ["rec_dup r=1 src=0 dd=%d" % rng.randrange(2), "rec_pack r=0 b=1 fl=%d" % rng.choice([0x40, 0, 0xC0, 0x80]), "rec_resize r=0",
               "rec_hdr r=0 kind=%s sz=%d" % (rng.choice("23"), rng.choice([512, 60])), "rec_dump r=0", "rec_dump r=1", "buf_dump b=1", "rec_free r=1", "rec_free r=0"]
    elif k == "sel":
        lines = ["XX_STA*", "XX STA * BHZ", "XX STA -- BHZ R 2020-01-01 2021-01-01", "# note", "", "FDSN:* 2020-01-01", "bad line of six seven eight", "XX A * B Q notatime", "AA_* 2020-13-45"]
        pre += file_steps(tag + "s", "\n".join(rng.choice(lines) for _ in range(rng.randint(1, 6))).encode())
        for _ in range(rng.randint(1, 5)):
            st.append(rng.choice(["sel_add s=0 pat=%s ts=%d pub=%d" % (hx(rng.choice(["A*", "B", "C?"])), T0 + rng.randrange(3), rng.randrange(2)),
                                  "sel_comp s=0 n=%s st=%s l=%s c=%s" % (hx("XX"), hx("A*"), hx("--"), hx(rng.choice(["BHZ", "B"]))),
                                  "sel_file s=0 path=%s" % hx(tag + rng.choice(["s", "s", "none"]))]))
        st += ["sel_dump s=0", "sel_match s=0 sid=%s ts=%d" % (hx(rng.choice(["A1", "B", "FDSN:XX_STA__B_H_Z"])), T0 + 5), "sel_free s=0"]
    elif k == "eh":
        pre.append(rec_new(0, 2, extra=rng.choice(["", '{"a":{"b":1},"s":"x"}', '{"FDSN":{}}', "{bad"])))
        for _ in range(rng.randint(2, 7)):
            ps = rng.random() < .6
            c = rng.choice(["eh_set r=0 ptr=%s ty=n v=1.5" % hx(rng.choice(["/a/b", "/c", "/a/b/c", "x", ""])), "eh_set r=0 ptr=%s ty=i v=7" % hx("/n/m/o"), "eh_set r=0 ptr=%s ty=s v=%s" % (hx("/s"), hx("text")),
                            "eh_get r=0 ptr=%s ty=n" % hx(rng.choice(["/a/b", "/none"])), "eh_get r=0 ptr=%s ty=s" % hx("/s"), "eh_setlong r=0 ptr=%s n=%d" % (hx("/l"), rng.choice([10, 3000, 70000])),
                            "eh_ser r=0", "eh_rep r=0 json=%s" % hx(rng.choice(['{"z":1}', "", "{", "[1,2]"])), "eh_print r=0", "eh_tex r=0 type=%s tm=%d ptr=%s" % (hx("X"), T0, hx("/FDSN/Time/Exception")),
                            "eh_ev r=0 type=%s on=%d ptr=%s" % (hx("M"), T0, hx("/FDSN/Event/Detection"))])
            if ps and c.split()[0] in ("eh_set", "eh_get", "eh_setlong", "eh_ser", "eh_tex", "eh_ev"):
                c += " ps=1"
            st.append((c, "ps=1" in c))
        st += [("eh_ser r=0 ps=1", True), ("eh_free r=0 ps=1", True), "rec_free r=0"]
    elif k == "log":
        st.append("lg_init c=2 h1=0 h2=1 max=%d" % rng.choice([0, 1, 2, 5]))
        for _ in range(rng.randint(2, 8)):
            st.append(rng.choice(["lg_log c=2 lv=%d msg=%s fn=%s" % (rng.randint(0, 2), hx("message"), hx("f")), "lg_log c=2 lv=2 msg=%s fn=%s" % (hx("m" * 250), hx("f" * 40)), "lg_emit c=2 n=%d" % rng.choice([0, 1, 2]),
                                  "lg_init c=2 h1=0 h2=1 max=%d" % rng.choice([0, 1, 3]), "lg_free c=2"]))
        st.append("lg_look c=2")
    else:
        good = "".join("%d %d # x\n" % (2272060800 + 31536000 * i, 10 + i) for i in range(5))
        pre += file_steps(tag + "l", (rng.choice(["#@ 4000000000\n", "#@ 2300000000\n", ""]) + good + rng.choice(["", "broken line\n", "99999999999999999999999 12\n"])).encode())
        st += [rng.choice(["leap_file path=%s" % hx(tag + rng.choice(["l", "l", "none"])), "leap_env path=%s" % hx(tag + "l")]) for _ in range(rng.randint(1, 3))]
        st.append("leap_dump")
    return pre, st


KINDS = ["add", "add", "buf", "file", "recs", "next", "rec", "pack", "sel", "eh", "eh", "log", "leap"]


def plain(r):
    """what a call answered, without the memory notes, the wording of messages and the spare room of buffers"""
    return re.sub(r'"dsize": \d+, ', "", json.dumps({k: v for k, v in r.items() if k not in ("mem", "log")}, sort_keys=True))


def short(s, cmd, want, retry=False):
    """a step whose answer is checked against the answer it gives when nothing is refused"""
    def fn(r):
        if "mem" not in r:
            return None
        bad = r.get("rv", 0) < 0 or r.get("ok", 1) == 0
        return {"op": "answer", "call": cmd.split()[0], "refused": any(o[0] == 4 for o in r["mem"]["ops"]), "again": retry, "failed": bad, "told": r["mem"]["errs"] > 0 or cmd.startswith("lg_log"),  # lg_log: said on the standard error stream
                 "got": plain(r), "want": want}
    s.do(cmd, fn)


def session(pre, st, at=None, k=0, again=False, rest=True):
    s = Session()
    call(s, "memlog")
    for c in pre:
        call(s, c)
    for j, c in enumerate(st):
        c, uses = c if isinstance(c, tuple) else (c, False)
        if j == at:
            s.do("failat n=%d" % k)
        call(s, c, uses)
        if j == at:
            s.do("failat n=0")
            if again:
                call(s, c, uses)
            if not rest:
                break
    call(s, "freeall")
    call(s, "mem")
    return s


def answers(pre, st, at, k, wants):
    """the script with one request refused, each answer from there on beside the one it gives otherwise"""
    s = Session()
    for c in ["memlog"] + pre:
        s.do(c)
    for j, c in enumerate(st):
        c = c[0] if isinstance(c, tuple) else c
        if j < at:
            s.do(c)
            continue
        if j == at:
            s.do("failat n=%d" % k)
        short(s, c, wants[j])
        if j == at:
            s.do("failat n=0")
            name = c.split()[0]
            if name in WHOLE:
                short(s, c, wants[j], True)
            elif name in MAKERS:
                break
    s.do("freeall")
    return s


MAKERS = ("tl_new", "rec_parse", "rec_init", "rec_dup", "rd_fd", "lg_init", "tl_readbuf", "tl_readfile", "tl_readrecs")
# calls which leave things as they were when they fail: repeated with memory at hand they give the full result
WHOLE = ("rec_parse", "rec_init", "rec_dup", "sel_add", "sel_comp", "eh_set", "eh_get", "eh_setlong", "eh_ser", "eh_rep", "eh_ev", "eh_tex", "tl_convert", "tl_resize", "tl_unpack", "tl_new", "leap_file", "leap_env", "rd_fd", "rec_resize")


def refusals(run, scripts, per, answered=False):
    """every request of every step of a script refused in turn (or a sample of them)"""
    rng = run.rng
    base = [session(p, q) for p, q in scripts]
    res = run_sessions(run.bdir, base, run.work)
    out = []
    for (pre, st), r in zip(scripts, res):
        r = r[2 + len(pre):]
        if len(r) < len(st) or any("mem" not in x for x in r[:len(st)]):
            continue
        pts = [(j, k) for j in range(len(st)) for k in range(1, r[j]["mem"]["asks"] + 1)]
        if len(pts) > per:
            pts = rng.sample(pts, per)
        for j, k in pts:
            c = (st[j][0] if isinstance(st[j], tuple) else st[j]).split()[0]
            # what the script goes on to use may be missing when its maker failed
            if answered:
                out.append(answers(pre, st, j, k, [plain(x) for x in r]))
            else:
                out.append(session(pre, st, j, k, again=rng.random() < .4, rest=c not in MAKERS))
    return base, out


@prop("A01")
def a01(run):
    rng = run.rng
    hs = run.mc("MCAlloc", "refused", {"Ops": {"add", "extend", "grow", "drop"}, "Calls": run.scale(2, 3), "MaxLive": run.scale(5, 6)}, ["Accounted", "Quiet", "Kept", "Unchanged", "Emit"], properties=["Returns"])
    scripts = []
    # the model's histories on a trace list: a new identifier or segment, an extension, a growing buffer, removal
    seen = []
    for h in hs:
        if h not in seen:
            seen.append(h)
    ms = []
    for n, h in enumerate(seen):
        for rl in (0, 1):
            pre = ["rec_new r=%d sid=%s st=%d rate=1.0 enc=3 gen=0,4 type=i extra=%s" % (i, hx(sid), T0 + st * 10**9, b'{"a":1}'.hex()) for i, (sid, st) in
                   enumerate([(SID, 0), (SID, 4), (SID, 100), ("FDSN:XX_B__B_H_Z", 0), (SID, 104), (SID, 200)])]
            s = Session(name="model")
            call(s, "memlog")
            for c in pre:
                call(s, c)
            call(s, "tl_new t=0")
            nx = iter([0, 2, 3, 5] * 9)
            ex = iter([1, 4] * 9)
            for op, k in h:
                if k:
                    s.do("failat n=%d" % k)
                if op in ("add", "extend", "grow"):
                    call(s, "tl_add r=%d t=0 ah=1 rl=%d" % (next(nx) if op == "add" else next(ex), rl))
                else:
                    call(s, "tl_pack t=0 b=1 reclen=256 enc=3 fl=64")
                if k:
                    s.do("failat n=0")
            call(s, "tl_free t=0")
            call(s, "freeall")
            ms.append(s)
    run.validate("AllocTrace", ms, "model histories")
    for i in range(run.scale(170, 2500)):
        scripts.append(script(rng, KINDS[i % len(KINDS)], "a%d_" % i))
    base, out = refusals(run, scripts, run.scale(12, 60))
    run.validate("AllocTrace", base, "calls")
    run.validate("AllocTrace", out, "calls with a request refused")


@prop("A02")
def a02(run):
    rng = run.rng
    scripts = [script(rng, KINDS[i % len(KINDS)], "b%d_" % i) for i in range(run.scale(420, 3000))]
    # parsed extra headers: values are obtained in pools, a pool runs out after a certain number of them
    for i in range(run.scale(60, 600)):
        pre, st = [rec_new(0, 2, extra=rng.choice(["", '{"s":"x","n":3}']))], [("eh_set r=0 ps=1 ptr=%s ty=n v=1.5" % hx("/s"), True)]
        for j in range(rng.randint(1, 45)):
            if rng.random() < .3:
                st.append((rng.choice([
                    "eh_ev r=0 ps=1 type=%s det=%s wave=%s units=%s amp=3.5 per=0.2 bg=9.5 on=%d snr=0102030405 lb=2 pa=1" % (hx("MURDOCK"), hx("Z"), hx("DILATATION"), hx("COUNTS"), T0),
                    "eh_cal r=0 ps=1 type=%s trig=%s iu=%s ar=%s ic=%s cp=%s ro=%s no=%s bt=%d et=%d steps=3 fpp=1 as=0 cont=1 amp=1.5 dur=9.0 sp=2.0 sb=1.0 ra=4.0" % (hx("STEP"), hx("MANUAL"), hx("V"), hx("PEAK"), hx("BC0"), hx("RESISTIVE"), hx("3dB"), hx("WHITE"), T0, T0 + 9),
                    "eh_tex r=0 ps=1 type=%s cs=%s tm=%d vco=1.5 us=3 rq=50 cnt=2" % (hx("VALID"), hx("GPS"), T0),
                    "eh_rec r=0 ps=1 type=%s trig=%s bt=%d et=%d" % (hx("MASS"), hx("AUTO"), T0, T0 + 5)]), True))
                continue
            st.append(("eh_set r=0 ps=1 ptr=%s ty=%s" % (hx(rng.choice(["/s", "/n", "/a%d" % (j % 9), "/p/q/r%d" % j])), rng.choice(["n v=2.5", "i v=%d" % j, "s v=" + hx("text"), "b v=1"])), True))
        scripts.append((pre, st + [("eh_ser r=0 ps=1", True), ("eh_free r=0 ps=1", True), "rec_free r=0"]))
    base, out = refusals(run, scripts, run.scale(12, 60), answered=True)
    run.validate("AllocTrace", out, "answers with a request refused")
