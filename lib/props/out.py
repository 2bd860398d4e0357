"""W06: records and trace lists written to files."""
import hashlib, json
import tl
from core import *
from props import prop
from props.pack import Req, do_pack, cut, series, wire, STEIM1, STEIM2, INT32, INT16, FLOAT32, SIDS, FLUSH, V2FLAG
from props.roll import KEEP, SIDS as LSIDS


def look(s, what):
    def fn(r):
        return {"op": "look", "v": hashlib.sha1(json.dumps(r, sort_keys=True).encode()).hexdigest()}
    s.do("rec_dump r=0" if what == "rec" else "tl_dump t=0 data=1 rl=0", fn)


def write(rng, s, cmd, path, ow, std=False, lim=None):
    """one call; lim: (share of the records in thousandths, bytes more) a file has room for"""
    st = {}
    c = cmd + " ow=%d" % (rng.choice([1, 1, 2, 127, -1, -128]) if ow else 0)
    opened, full = True, False
    if path == "/dev/full":
        full = True
    elif path.startswith("/no") or path.endswith("/") or path == "":
        opened = False
    if std:
        c += " path=%s std=%s" % (hx("-"), hx(path))
    else:
        c += " path=%s" % hx(path)
    if lim:
        c += " limof=1 num=%d limit=%d" % lim
    s.do(c, lambda r: st.update(r) and None)
    if opened and not full:
        s.do("buf_load b=2 path=" + hx(path))
    else:
        s.do("buf_set b=2 hex=-")

    def fn(r):
        # standard output is a file that grows
        return {"op": "write", "std": std, "a": {"path": path, "ow": bool(ow) and not std, "open": opened, "limit": st["lim"], "full": full},
                "r": {"rv": st["rv"], "told": bool(st["log"]), "open": st.get("open", 1), "b": codes(r["hex"])}}
    s.do("buf_dump b=2", fn)


def somewhere(rng, path):
    r = rng.random()
    if r < .08:
        return rng.choice(["/no/such/dir/file", "/nofile/", "", "./"]), False, None
    if r < .16:
        return "/dev/full", False, None
    std = r > .85
    lim = None
    if rng.random() < .45:
        lim = rng.choice([(1000, 0), (1000, -1), (1000, -1), (1000, 1), (0, 0), (0, -1), (0, 1), (rng.randint(0, 1000), rng.randint(-3, 3)), (rng.randint(0, 1000), 0), (500, 0)])
    return path + ("s" if std else ""), std, lim


@prop("W06")
def w06(run):
    rng = run.rng
    for asks, frees, inv in ((["error", "close"], False, ["Honest", "Leading", "Same"]), (["error", "close"], True, ["Honest"])):
        run.mc("MCOutput", "stream-%d" % frees, {"Lens": {1, 2, 3}, "N": run.scale(4, 6), "B": 3, "Caps": set(range(0, run.scale(9, 14))), "Frees": frees, "Asks": set(asks)}, inv)
    ss = []
    for i in range(run.scale(160, 4000)):
        # records, each packed to memory and then to files
        s = Session()
        path = "w06-%d" % i
        for k in range(rng.choice([1, 2, 3])):
            ver = rng.choice([2, 3])
            q = Req(rng, ver, reclen=rng.choice([128, 256, 512]) if ver == 2 else rng.choice([100, 200, 400]), sid=rng.choice(SIDS[:3]), n=rng.choice([0, 1, 30, 100, 150]), extra=("", [], 0) if ver == 3 else None)
            if q.x[2]:
                q.x = ("", [], 0)
            if rng.random() < .12 and q.vals and q.ty == "i":
                q.enc = rng.choice([STEIM2, INT16])  # refused after some records
                q.vals = [rng.randint(-9, 9) for _ in range(rng.choice([40, 150]))] + [2**31 - 1, -2**31]
            elif rng.random() < .05:
                q.reclen = 41
            fl = rng.random() < .8
            s.do(q.cmd())
            do_pack(s, q, fl)
            s.do("buf_set b=3 hex=-", lambda r: {"op": "renew"})
            look(s, "rec")
            for _ in range(rng.choice([1, 2, 3])):
                p, std, lim = somewhere(rng, path)
                write(rng, s, "rec_write r=0 fl=%d" % (FLUSH if fl else 0), p, rng.random() < .4, std, lim)
                if rng.random() < .4:
                    look(s, "rec")
            look(s, "rec")
        ss.append(s)
    run.validate("OutTrace", ss, "records")
    ss = []
    for i in range(run.scale(40, 900)):
        # lists, large enough for several buffers
        s = Session()
        path = "w06l-%d" % i
        s.do("tl_new t=0")
        t = 10**18
        enc = rng.choice([INT32, INT32, STEIM1, -1])
        for k in range(rng.choice([0, 1, 2, 3])):
            n = rng.choice([1, 50, 400, 900])
            v = [rng.randint(-2**31, 2**31 - 1) for _ in range(n)] if enc == INT32 else series(rng, n, 12)
            if enc == -1 and rng.random() < .3:
                v[-2:] = [2**31 - 1, -2**31]
            s.do("rec_new r=0 sid=%s st=%d rate=10 cnt=%d pub=1 fmt=3 type=i data=%s" % (hx(rng.choice(LSIDS)), t, n, wire("i", v)))
            s.do("tl_add t=0 r=0 sv=0 ah=1 rl=0")
            t += n * 10**8 + rng.choice([0, 10**9])
        reclen = rng.choice([128, 512, 1024, 4096])
        v2 = rng.random() < .4
        for _ in range(rng.choice([2, 3, 4])):
            st = {}
            fl = V2FLAG if v2 else 0
            s.do("tl_pack t=0 b=1 reclen=%d enc=%d fl=%d" % (reclen, enc, FLUSH | KEEP | fl), lambda r, st=st: st.update(r) and None)
            s.do("buf_dump b=1", lambda r, st=st: {"op": "deliver", "r": {"rv": st["rv"], "recs": cut(r["hex"], st["lens"])}})
            look(s, "list")
            p, std, lim = somewhere(rng, path)
            write(rng, s, "tl_write t=0 reclen=%d enc=%d fl=%d" % (reclen, enc, fl), p, rng.random() < .3, std, lim)
        look(s, "list")
        ss.append(s)
    run.validate("OutTrace", ss, "lists")
