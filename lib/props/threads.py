"""P01: threads with objects of their own do not affect each other."""
import collections
from core import *
import core
from props import REG, prop, cli

# commands that concern the process as a whole, or that are documented to be for one thread only
SOLE = {"msi", "mem", "memlog", "failat", "prealloc", "leap_dump", "leap_env", "leap_file", "rd_plain", "url", "freeall"}
SOLE_ARGS = (" std=", " limit=", " in=", " prealloc=")
FROM = {"D01": 2, "D02": 2, "D03": 2, "E01": 2, "E02": 2, "G01": 1, "G02": 1, "G03": 1, "L01": 3, "R01": 2, "R02": 2, "R03": 2, "R04": 1, "R05": 1, "S01": 1, "S02": 1,
        "C02": 1, "T01": 1, "T03": 1, "T04": 1, "T05": 2, "T06": 1, "T07": 1, "W01": 2, "W02": 2, "W03": 1, "W04": 2, "W05": 2, "W06": 1}


class Harvest:
    """stands in for a check's run, and keeps the sessions it would have recorded"""

    def __init__(self, run, pid):
        self.rng = random.Random("threads/%s/%d" % (pid, SEED))
        self.bdir, self.work, self.viol, self.assumptions = run.bdir, run.work, [], []
        self.cov = collections.defaultdict(dict)
        self.cov["models"] = [{}]
        self.got = []
        self.tier, self.level = "quick", run.level
        self.t0, self.deadline = run.t0, run.deadline

    def thorough(self):
        return False

    def scale(self, q, t):
        return max(1, q // 8) if type(q) is int else q

    def mc(self, *a, **k):
        return []

    def model(self, *a, **k):
        return None

    def fail(self, *a, **k):
        pass

    def validate(self, module, sessions, label="", corrupt=True, bdir=None):
        if bdir in (None, self.bdir) and module != "CliTrace":
            self.got += [(module, s) for s in sessions if suits(s)]


def suits(s):
    sc = s.script()
    return 2 < len(sc) <= 120 and not s.info.get("ranged") and sum(map(len, sc)) < 60000 and \
        all(x.split(" ")[0] not in SOLE and not any(a in x for a in SOLE_ARGS) for x in sc[1:]) and "prealloc=" not in sc[0].replace("prealloc=0", "")


def harvest(run, n):
    pool = collections.defaultdict(list)
    for pid in FROM:
        h = Harvest(run, pid)
        try:
            if pid != "C02":
                REG[pid](h)
        except (IndexError, ValueError, KeyError, FileNotFoundError):
            pass  # its remaining sessions come from a model's behaviours
        if pid == "C02":
            h.got = [("CliTrace", s) for s in cli.listings(h, 24)]
        for m, s in h.got:
            pool[pid].append((m, s))
    for v in pool.values():
        run.rng.shuffle(v)
    run.cov["sessions_from"] = {k: len(v) for k, v in pool.items()}
    return pool


RACE = re.compile(r"WARNING: ThreadSanitizer: ([^\n]*)\n(.*?)\n==================", re.S)


class Group:
    """sessions that run in threads together: th[k] are those of thread k, one after another"""

    def __init__(self, mode, th, order=None):
        self.mode, self.th = mode, th
        q = [[(s, i, c) for s in x for i, c in enumerate(s[1].script())] for x in th]
        self.steps = []  # (thread, session, step of it, command)
        if mode == "free":
            self.steps = [(k,) + e for k, x in enumerate(q) for e in x]
        else:
            pos, i = [0] * len(q), 0
            while any(pos[k] < len(q[k]) for k in range(len(q))):
                k = order[i % len(order)] - 1
                i += 1
                if k < len(q) and pos[k] < len(q[k]):
                    self.steps.append((k,) + q[k][pos[k]])
                    pos[k] += 1
        if mode == "hand":
            # one session, its commands given to one thread after another
            self.steps = [(order[i % len(order)] - 1, *e) for i, (k, *e) in enumerate(self.steps)]
        self.lines = ["%d# %s" % (k, c) for k, s, i, c in self.steps]

    def run(self, exe, d):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        env = core._env()
        env["TSAN_OPTIONS"] = "exitcode=0:halt_on_error=0:report_thread_leaks=0:report_signal_unsafe=0:second_deadlock_stack=0"
        try:
            p = subprocess.run([exe, "free" if self.mode == "free" else "turns"], input=("\n".join(self.lines) + "\n").encode(), capture_output=True, cwd=d, env=env, timeout=150)
            out, err = p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
            rc = p.returncode
        except subprocess.TimeoutExpired:
            out, err, rc = "", "timeout", -1
        if rc == 78 or "unexpected memory mapping" in err:
            raise CheckError("threads cannot be run here: %s" % err[-300:])
        shutil.rmtree(d, ignore_errors=True)
        ans = out.split("\n")[:-1]
        self.res = {}
        whole = len(ans) == len(self.steps)
        for n, (k, s, i, c) in enumerate(self.steps):
            r = self.res.setdefault(id(s), [])
            try:
                r.append(json.loads(ans[n]) if whole else {"crash": "the group ended: " + (err[-300:] or str(rc))})
            except ValueError:
                r.append({"garbled": ans[n][:200]})
        nt = max(k for k, *_ in self.steps) + 1
        cnt = [sum(1 for x in self.steps if x[0] == k) for k in range(nt)]
        ev = [{"op": "reset", "cfg": {"left": cnt}}]
        if self.mode == "free":
            ev += [{"op": "ran", "t": k + 1, "n": sum(1 for n, x in enumerate(self.steps) if x[0] == k and whole)} for k in range(nt)]
        else:
            ev += [{"op": "turn", "t": x[0] + 1, "answered": whole} for x in self.steps]
        self.races = []
        for what, body in RACE.findall(err):
            fr = [f for f in re.findall(r"#\d+ (\w+) [^\n]*?([\w.]+:\d+)", body)]
            self.races.append({"op": "race", "what": what[:60], "where": ["%s %s" % f for f in fr[:6]]})
        ev += self.races[:3]
        ev.append({"op": "end"})
        self.ev = ev
        return self


@prop("P01")
def p01(run):
    rng = run.rng
    Calls = run.scale(3, 4)
    run.mc("MCThreads", "isolation", {"N": 2, "Calls": Calls, "Kinds": {"work", "message", "emit"}, "Shared": set()}, ["Isolated"], properties=["Finishes"])
    if run.thorough():
        run.mc("MCThreads", "three", {"N": 3, "Calls": 2, "Kinds": {"work", "message", "emit"}, "Shared": set()}, ["Isolated"])
    # with anything shared some interleaving gives a thread what is another's
    for sh in ("scratch", "log"):
        run.mc("MCThreads", "shared_" + sh, {"N": 2, "Calls": 2, "Kinds": {"work", "message", "emit"}, "Shared": {sh}}, ["Isolated"], expect_ok=False)
        if "Invariant Isolated is violated" not in run.last.out:
            raise CheckError("MCThreads: sharing the %s goes unnoticed" % sh)
    orders = run.mc("MCThreads", "turns2", {"N": 2, "Calls": 4, "Kinds": {"work"}, "Shared": set()}, ["Isolated", "Emitted"])
    orders = [o for i, o in enumerate(orders) if o not in orders[:i]]
    o3 = run.mc("MCThreads", "turns3", {"N": 3, "Calls": 2, "Kinds": {"work"}, "Shared": set()}, ["Isolated", "Emitted"])
    o3 = [o for i, o in enumerate(o3) if o not in o3[:i]]

    exe = os.path.join(build(threads="thread"), "lmh")
    # where the sanitizer's layout of memory cannot be had, the answers are judged without its reports
    p = subprocess.run([exe, "free"], input=b"", capture_output=True, timeout=60, cwd=run.work)
    if p.returncode != 0:
        exe = os.path.join(build(threads="address"), "lmh")
        run.assumptions.append("ThreadSanitizer cannot run here (%s): races are not reported, only what comes of them" % p.stderr.decode("latin-1")[:80])
    pool = harvest(run, 0)
    groups = []

    def take(pid):
        return rng.choice(pool[pid])
    ids = [p for p in pool if pool[p] for _ in range(FROM[p])]
    used = lambda: {}
    # every kind of work against itself, and against the others
    for rep in range(run.scale(1, 20)):
        for pid in sorted(set(ids)):
            for mode in ("free", "free", "turns"):
                n = 2 if mode == "turns" else rng.choice([2, 3, 4])
                per = min(len(pool[pid]) // n, (14 if pid == "D01" else 7) if mode == "free" else 2)
                if per == 0:
                    continue
                q = rng.sample(pool[pid], per * n)
                groups.append(Group(mode, [q[k::n] for k in range(n)], rng.choice(orders)))
    for i in range(run.scale(30, 1200)):
        mode = rng.choice(["free", "free", "turns", "hand"])
        if mode == "hand":
            p = rng.choice([x for x in ids if x != "L01"])
            groups.append(Group(mode, [[take(p)]], rng.choice(o3)))
            continue
        n = rng.choice([2, 3, 4]) if mode == "free" else rng.choice([2, 3])
        seen, th = set(), [[] for _ in range(n)]
        for k in range(n * (5 if mode == "free" else 2)):
            x = take(rng.choice(ids))
            if id(x) not in seen:
                seen.add(id(x))
                th[k % n].append(x)
        groups.append(Group(mode, [t for t in th if t], rng.choice(orders if n == 2 else o3)))

    def exe_of(g):
        return os.path.join(run.bdir, "lmh") if g.mode == "hand" else exe

    def perform(gs, tag=""):
        with ThreadPoolExecutor(max(2, NCPU // 2)) as ex:
            list(ex.map(lambda a: a[1].run(exe_of(a[1]), os.path.join(run.work, "g%s%d" % (tag, a[0]))), enumerate(gs)))

    def judge(gs):
        """mismatches by group: [(group, session or None, mismatch)]"""
        by, where = collections.defaultdict(list), collections.defaultdict(list)
        for g in gs:
            m = by["ThreadsTrace"]
            m.append([dict(e, s=len(m)) for e in g.ev])
            where["ThreadsTrace"].append((g, None))
            for x in {id(s): s for _, s, _, _ in g.steps}.values():
                m = by[x[0]]
                m.append(to_events(x[1], g.res[id(x)], len(m)))
                where[x[0]].append((g, x))
        bad, mods = [], sorted(by)
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(lambda m: validate(m, by[m], run.work, shards=max(1, min(3, sum(map(len, by[m])) // 1500))), mods))
        for m, (mism, tags, st) in zip(mods, rs):
            c = run.cov
            c["states"] += st["states"]
            c["transitions"] += st["transitions"]
            c["events_validated"] += st["events"]
            c["traces_validated_against_impl"] += len(by[m])
            c["branch_counts"][m] = c["branch_counts"].get(m, 0) + st["events"]
            bad += [(where[m][x["s"]] + (x, by[m][x["s"]])) for x in mism]
        return bad
    t0 = time.time()
    for lo in range(0, len(groups), 400):
        gs = groups[lo:lo + 400]
        perform(gs)
        t1 = time.time()
        bad = judge(gs)
        if os.environ.get("VERIF_DEBUG"):
            print("# %d groups: recorded by %.1fs, validated %.1fs, %d mismatches" % (len(gs), t1 - t0, time.time() - t1, len(bad)), flush=True)
        if lo == 0:
            run.cov["samples"] = [{"label": g.mode, "events": [json.dumps(e)[:300] for e in g.ev[:6]]} for g in gs[:6]]
        settle(run, bad, perform, judge)
        if run.viol:
            break
    run.cov["groups"] = dict(collections.Counter(g.mode for g in groups))


def settle(run, bad, perform, judge):
    """report what comes of the threads, and again when the group is run again"""
    for g, x, m, ev in bad:
        if len(run.viol) >= 3:
            break
        if x is not None:
            # by itself: a fault then is another property's
            alone = run_sessions(run.bdir, [x[1]], run.work, shards=1)
            if validate(x[0], [to_events(x[1], alone[0], 0)], run.work, shards=1)[0]:
                run.cov.setdefault("fails_alone", []).append(str(m)[:200])
                continue
        elif not g.races:
            # the group came to an end: only if none of its sessions does so alone
            ss = list({id(s): s for _, s, _, _ in g.steps}.values())
            rs = run_sessions(run.bdir, [s[1] for s in ss], run.work, shards=1)
            if any(r is None or any("crash" in a or "hang" in a for a in r) for r in rs):
                run.cov.setdefault("fails_alone", []).append(str(m)[:200])
                continue
        for _ in range(4):
            again = Group.__new__(Group)
            again.__dict__ = dict(g.__dict__)
            perform([again], "again")
            if judge([again]):
                run.report(m, g.lines, ev, "threads, %s" % {"free": "at once", "turns": "in turns", "hand": "handed over"}[g.mode])
                break
        else:
            run.cov.setdefault("unconfirmed", []).append(str(m)[:200])
