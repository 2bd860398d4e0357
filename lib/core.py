"""Shared machinery: build the tree under test, run recorder sessions, let TLC
validate the recorded traces against the specification, report and write evidence."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
OUT = os.environ.get("VERIF_OUT", ROOT)  # evidence/ and replays/ go here
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = max(1, min(8, os.cpu_count() or 1))
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ building
def _sources():
    lm = os.path.join(REPO, "libmseed")
    cs = sorted(os.path.join(lm, f) for f in os.listdir(lm) if f.endswith(".c"))
    hs = sorted(os.path.join(lm, f) for f in os.listdir(lm) if f.endswith(".h"))
    ms = os.path.join(REPO, "src")
    mc = sorted(os.path.join(ms, f) for f in os.listdir(ms) if f.endswith((".c", ".h")))
    return cs, hs, mc


def _curl():
    try:
        c = subprocess.run(["curl-config", "--cflags"], capture_output=True, text=True)
        l = subprocess.run(["curl-config", "--libs"], capture_output=True, text=True)
        if c.returncode == 0 and l.returncode == 0:
            return ["-DLIBMSEED_URL"] + c.stdout.split(), l.stdout.split()
    except FileNotFoundError:
        pass
    return [], []


def build(maxrec=None, threads=None):
    """Build recorder and msi from REPO's working tree (ASan); returns the directory.
    Results are keyed by the content of every source, so a changed tree is rebuilt.
    maxrec: with the largest supported record length reduced to it (None if that
    cannot be set in this tree)."""
    # threads: the recorder alone, with objects of its own for every thread, under that sanitizer
    cs, hs, mc = _sources()
    if maxrec is not None:
        pat = re.compile(r"(#define\s+MAXRECLEN\s+)10485760\b")
        if not any(pat.search(open(f).read()) for f in hs):
            return None
    hdir = os.path.join(ROOT, "harness")
    hfiles = [os.path.join(hdir, f) for f in sorted(os.listdir(hdir)) if f.endswith((".c", ".h"))]
    h = hashlib.sha256()
    for f in cs + hs + mc + hfiles:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\1")
    h.update(open(__file__, "rb").read() + b"%d" % (maxrec or 0) + (threads or "").encode())
    bdir = os.path.join(ROOT, "build")
    out = os.path.join(bdir, h.hexdigest()[:20])
    if os.path.exists(os.path.join(out, "ok")):
        os.utime(out)
        return out
    os.makedirs(bdir, exist_ok=True)
    old = sorted((os.path.join(bdir, d) for d in os.listdir(bdir)), key=os.path.getmtime)
    for d in old[:-8]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(dir=bdir, prefix="tmp")
    cflags, libs = _curl()
    inc = os.path.join(REPO, "libmseed")
    if maxrec is not None:
        inc = os.path.join(tmp, "inc")
        os.makedirs(inc)
        for f in cs + hs:
            x = open(f, "rb").read()
            if f.endswith(".h"):
                x = pat.sub(lambda m: m.group(1) + str(maxrec), x.decode("latin-1")).encode("latin-1")
            open(os.path.join(inc, os.path.basename(f)), "wb").write(x)
        cs = [os.path.join(inc, os.path.basename(f)) for f in cs]
        mc = []
    san = ["-fsanitize=address", "-fno-omit-frame-pointer"]
    if threads:
        san = ["-fsanitize=" + threads, "-fno-omit-frame-pointer", "-DLMH_THREADS"]
        mc = []
    jobs = []
    rename = ["-D%s=lm_direct_%s" % (x, x) for x in ("malloc", "calloc", "realloc", "free", "strdup", "strndup")]
    for f in cs + [os.path.join(hdir, "lmh.c"), os.path.join(hdir, "direct.c")] + [m for m in mc if m.endswith(".c")]:
        o = os.path.join(tmp, os.path.basename(f)[:-2] + ".o")
        opt = "-O0" if "yyjson" in f else "-O1"
        jobs.append(["gcc", "-g", opt, "-w"] + san + cflags + (rename if f in cs else []) +
                    ["-I" + inc, "-I" + hdir, "-c", f, "-o", o])

    def one(cmd):
        return subprocess.run(cmd, capture_output=True, text=True)
    with ThreadPoolExecutor(NCPU) as ex:
        for p, cmd in zip(ex.map(one, jobs), jobs):
            if p.returncode != 0:
                shutil.rmtree(tmp, ignore_errors=True)
                raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), p.stderr[-3000:]))
    lo = [os.path.join(tmp, os.path.basename(f)[:-2] + ".o") for f in cs + ["direct.c"]]
    for name, extra in (("lmh", ["lmh.o"]), ("msi", [os.path.basename(m)[:-2] + ".o" for m in mc if m.endswith(".c")]))[:2 if mc else 1]:
        cmd = ["gcc"] + san + [os.path.join(tmp, e) for e in extra] + lo + ["-o", os.path.join(tmp, name)] + libs + ["-lm", "-lpthread"]
        p = one(cmd)
        if p.returncode != 0:
            shutil.rmtree(tmp, ignore_errors=True)
            raise CheckError("link failed: %s" % p.stderr[-3000:])
    for f in os.listdir(tmp):
        if f.endswith(".o"):
            os.unlink(os.path.join(tmp, f))
    shutil.rmtree(os.path.join(tmp, "inc"), ignore_errors=True)
    open(os.path.join(tmp, "ok"), "w").close()
    if os.path.exists(out):
        shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.rename(tmp, out)
    return out


def _env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    e.pop("LIBMSEED_LEAPSECOND_FILE", None)
    return e


# ------------------------------------------------------------------ sessions
class Session:
    """A script of recorder commands; each step maps the recorder's answer to
    trace events.  step: (command, fn(result)->event|list|None)."""

    def __init__(self, cfg=None, name=""):
        self.steps = []
        self.cfg = cfg or {}
        self.name = name
        self.reset_args = ""
        self.info = {}

    def do(self, cmd, fn=None):
        self.steps.append((cmd, fn))
        return self

    def script(self):
        return ["reset " + self.reset_args] + [c for c, _ in self.steps]


def run_shard(exe, sessions, cwd, timeout=600):
    """Run sessions one after another in a recorder process; returns list of result lists."""
    results = []
    k = hangs = 0
    env = _env()
    while k < len(sessions):
        lines, counts = [], []
        for s in sessions[k:]:
            sc = s.script()
            counts.append(len(sc))
            lines.extend(sc)
        try:
            p = subprocess.run([exe], input=("\n".join(lines) + "\n").encode(), capture_output=True, cwd=cwd,
                               env=env, timeout=timeout)
            out, err = p.stdout, p.stderr
        except subprocess.TimeoutExpired as ex:
            out, err = ex.stdout or b"", b"timeout"
        answers = out.decode("latin-1").split("\n")
        if answers and answers[-1] == "":
            answers.pop()
        pos = 0
        crashed = False
        for n in counts:
            got = answers[pos:pos + n]
            res = []
            for a in got:
                try:
                    res.append(json.loads(a))
                except ValueError:
                    res.append({"garbled": a[:200]})
            if res and "hang" in res[-1]:
                pass
            elif len(res) < n:
                txt = err.decode("latin-1")
                m = re.search(r"(ERROR: AddressSanitizer[^\n]*)", txt)
                where = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) ([^\n]*)", txt)
                res.append({"crash": m.group(1)[:300] if m else txt[-300:] or "process ended",
                            "stack": ["%s %s" % (a, b.split("/")[-1]) for a, b in where[:6]]})
            results.append(res)
            pos += n
            k += 1
            if len(got) < n or "hang" in (res[-1] if res else {}):
                crashed = True
                hangs += "hang" in (res[-1] if res else {})
                break
        if hangs >= 2:
            # enough time was waited; the rest is not run
            results += [[{"skipped": 1}]] * (len(sessions) - k)
            break
        if not crashed:
            break
    return results


def run_sessions(bdir, sessions, workdir, shards=None):
    shards = shards or min(NCPU, max(1, len(sessions) // 4))
    exe = os.path.join(bdir, "lmh")
    parts = [sessions[i::shards] for i in range(shards)]

    def one(a):
        i, p = a
        d = os.path.join(workdir, "rec%d" % i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        return run_shard(exe, p, d)
    with ThreadPoolExecutor(shards) as ex:
        outs = list(ex.map(one, enumerate(parts)))
    res = [None] * len(sessions)
    for i, o in enumerate(outs):
        for j, r in enumerate(o):
            res[i + j * shards] = r
    return res


def to_events(s, results, sid):
    """Trace events of one session: a reset event carrying its configuration, then
    one event per observed step.  A crash or a hang is an event no behaviour allows."""
    evs = [{"op": "reset", "s": sid, "cfg": s.cfg}]
    if results is None:
        results = [{"crash": "no answer"}]
    if results and "skipped" in results[0]:
        return evs
    if results and ("crash" in results[0] or "hang" in results[0]):
        evs.append({"op": "CRASH", "s": sid, "at": "reset", "why": str(results[0])[:300]})
        return evs
    for (cmd, fn), r in zip(s.steps, results[1:]):
        if "crash" in r or "hang" in r or "garbled" in r or "badop" in r:
            evs.append({"op": "CRASH", "s": sid, "at": cmd[:200], "why": json.dumps(r)[:600]})
            return evs
        if fn is None:
            continue
        try:
            e = fn(r)
        except Exception as ex:  # an answer outside the recorder's own vocabulary
            e = {"op": "CRASH", "at": cmd[:200], "why": "projection: %r on %s" % (ex, json.dumps(r)[:400])}
            if os.environ.get("VERIF_DEBUG"):
                raise
        if e is None:
            continue
        for x in (e if isinstance(e, list) else [e]):
            x["s"] = sid
            evs.append(x)
    return evs


# ----------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out or \
                  "The number of states generated" in out and "Error:" not in out


def tlc(module, cfg, workdir, env=None, workers=1, heap="2g", extra=(), timeout=800, sim=None):
    meta = tempfile.mkdtemp(dir=workdir, prefix="meta")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-DTLA-Library=" + SPEC, "-cp", JAVA_CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra)
    if sim:
        cmd += ["-simulate", sim]
    cmd.append(module)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b""
        out, rc = (o.decode("latin-1") if isinstance(o, bytes) else o) + "\nTIMEOUT", -1
    shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(out, rc)


def _unq(s):
    # TLC prints strings with the usual escapes
    try:
        return json.loads('"' + s + '"')
    except ValueError:
        return s


def clamp(o):
    """TLC integers are 32-bit: anything else becomes a sentinel the specification never produces."""
    if isinstance(o, bool):
        return o
    if isinstance(o, int):
        return o if -2147483647 <= o <= 2147483646 else (2147483647 if o > 0 else -2147483647)
    if isinstance(o, float):
        return 2147483647
    if o is None:
        return "null"
    if isinstance(o, dict):
        return {k: clamp(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clamp(v) for v in o]
    return o


def validate(module, traces, workdir, shards=None, heap="3g"):
    """Check traces (list of event lists) against spec/<module>.tla.  Returns
    (mismatches, tags, stats): mismatches as dicts {s, l, op, exp}."""
    cfg = os.path.join(SPEC, module + ".cfg")
    n = sum(len(t) for t in traces)
    shards = shards or max(1, min(NCPU, n // 150, len(traces)))
    # balance shards by size
    order = sorted(range(len(traces)), key=lambda i: -len(json.dumps(traces[i][-1])) * len(traces[i]))
    parts = [[] for _ in range(shards)]
    for k, i in enumerate(order):
        parts[k % shards].append(traces[i])

    def tlc_on(part):
        fd, path = tempfile.mkstemp(dir=workdir, prefix=module, suffix=".ndjson")
        with os.fdopen(fd, "w") as f:
            for t in part:
                for e in t:
                    f.write(json.dumps(clamp(e)) + "\n")
        r = tlc(os.path.join(SPEC, module + ".tla"), cfg, workdir, env={"TRACE": path}, heap=heap)
        os.unlink(path)
        done = re.search(r'"CONSUMED (\d+) OF (\d+)"', r.out)
        return r, bool(done and done.group(1) == done.group(2))

    def one(part, depth=0):
        r, ok = tlc_on(part)
        if ok:
            return [(r, None)]
        if "Error: Evaluating" not in r.out and "TLC threw" not in r.out and "The error occurred" not in r.out \
                and "was violated" not in r.out and "Error: " not in r.out or "***Parse Error" in r.out or "Semantic errors" in r.out \
                or "Parsing or semantic analysis failed" in r.out or "OutOfMemory" in r.out or "TIMEOUT" in r.out:
            raise CheckError("TLC on %s:\n%s" % (module, r.out[-3500:]))
        # an observation the specification cannot even interpret: find its session
        at = [int(x) for x in re.findall(r"^/\\ l = (\d+)", r.out, re.M)]
        k, pos = 0, 0
        if at:
            while k < len(part) - 1 and pos + len(part[k]) < at[-1]:
                pos += len(part[k])
                k += 1
        elif len(part) > 1:
            h = len(part) // 2
            return one(part[:h], depth + 1) + one(part[h:], depth + 1)
        rest = part[:k] if k and depth == 0 else []
        out = [(r, part[k])]
        if rest:
            out += one(rest, depth + 1)
        if part[k + 1:] and depth < 4:
            out += one(part[k + 1:], depth + 1)
        return out
    with ThreadPoolExecutor(shards) as ex:
        rs = [x for y in ex.map(one, parts) for x in y]
    mism, tags = [], {}
    gen = dist = 0
    for r, broken in rs:
        gen += r.generated
        dist += r.distinct
        if broken is not None:
            if "TIMEOUT" in r.out or "OutOfMemory" in r.out:
                raise CheckError("TLC gave up on a %s trace:\n%s" % (module, r.out[-2000:]))
            msg = [x for x in r.out.split("\n") if x.strip() and not x.startswith(("Parsing", "Semantic", "TLC", "Running", "Starting"))]
            mism.append({"s": broken[0]["s"], "l": -1, "op": "EVAL", "exp": " ".join(msg)[:1500]})
            continue
        for line in r.out.split("\n"):
            if line.startswith('"MISMATCH '):
                mism.append(json.loads(_unq(line.strip()[1:-1])[9:]))
            elif line.startswith('"TAGS '):
                for k, v in json.loads(_unq(line.strip()[1:-1])[5:]).items():
                    tags[k] = tags.get(k, 0) + v
    return mism, tags, {"states": dist, "transitions": gen, "events": n}


# -------------------------------------------------------------------- report
def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


class Run:
    """One check run of one property."""

    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.rng = random.Random("%s/%d/%s" % (pid, SEED, tier))
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.bdir = build()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "events_validated": 0, "branch_counts": {}, "models": []}
        self.viol = []
        self.known = {}
        self.assumptions = []
        self.deadline = self.t0 + (780 if tier == "quick" else 10 * 3600)

    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough() else quick

    # model checking of the design
    def model(self, name, cfg=None, workers=None, heap="4g", env=None, expect_ok=True, timeout=None, extra=()):
        cfg = os.path.join(SPEC, (cfg or name) + ".cfg")
        r = tlc(os.path.join(SPEC, name + ".tla"), cfg, self.work, env=env, workers=workers or NCPU, heap=heap,
                extra=extra, timeout=timeout or (700 if not self.thorough() else 7200))
        self.last = r
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["models"].append({"model": os.path.basename(cfg)[:-4], "distinct_states": r.distinct, "states_generated": r.generated})
        if expect_ok and (r.rc != 0 or r.distinct == 0):
            # the specification itself, not the code: an error of the check
            txt = "\n".join(x for x in r.out.split("\n") if not re.match(r'"[A-Z]+ |Semantic processing|Parsing|Linting', x))
            raise CheckError("model %s: %s" % (name, txt[-4000:]))
        return r

    def mc(self, module, label, consts, invariants=(), properties=(), spec="Spec", constraint=None, view=None, emit="HIST ", **kw):
        """Model-check spec/<module>.tla under a generated configuration; returns the values it emitted."""
        lines = ["SPECIFICATION " + spec, "CONSTANTS"] + ["  %s %s %s" % (k, "<-" if isinstance(v, str) and v.startswith("@") else "=", v[1:] if isinstance(v, str) and v.startswith("@") else tla(v)) for k, v in consts.items()]
        if not consts:
            lines.pop()
        if invariants:
            lines.append("INVARIANTS " + " ".join(invariants))
        if properties:
            lines.append("PROPERTIES " + " ".join(properties))
        if constraint:
            lines.append("CONSTRAINT " + constraint)
        if view:
            lines.append("VIEW " + view)
        lines.append("CHECK_DEADLOCK FALSE")
        cfg = os.path.join(self.work, "%s-%s.cfg" % (module, label))
        open(cfg, "w").write("\n".join(lines) + "\n")
        r = self.model(module, cfg=cfg[:-4], **kw)
        out = []
        for ln in r.out.split("\n"):
            if ln.startswith('"' + emit):
                out.append(json.loads(_unq(ln.strip()[1:-1])[len(emit):]))
        out.sort(key=lambda x: json.dumps(x, sort_keys=True))
        self.cov["models"][-1]["constants"] = {k: str(v) for k, v in consts.items()}
        self.cov["models"][-1]["checked"] = list(invariants) + list(properties)
        if out:
            self.cov["models"][-1]["behaviours_emitted"] = len(out)
        return out

    # sessions -> traces -> TLC
    def validate(self, module, sessions, label="", corrupt=True, bdir=None):
        if not sessions:
            return
        if self.viol and not self.thorough() and time.time() - self.t0 > 240:
            self.cov["cut_short"] = "further batches are not run once a violation is established and time is short"
            return
        random.Random(7).shuffle(sessions)
        t0 = time.time()
        res = run_sessions(bdir or self.bdir, sessions, self.work)
        t1 = time.time()
        traces = [to_events(s, r, i) for i, (s, r) in enumerate(zip(sessions, res))]
        mism, tags, st = validate(module, traces, self.work)
        if os.environ.get("VERIF_DEBUG"):
            print("# %-40s %5d sessions %6d events: recorded %.1fs, validated %.1fs, %d mismatches" % (
                label, len(sessions), st["events"], t1 - t0, time.time() - t1, len(mism)), flush=True)
        if os.environ.get("VERIF_MISM"):
            with open(os.environ["VERIF_MISM"], "a") as f:
                for m in mism:
                    f.write(json.dumps({"label": label, "m": m, "script": sessions[m["s"]].script()}) + "\n")
        c = self.cov
        c["states"] += st["states"]
        c["transitions"] += st["transitions"]
        c["events_validated"] += st["events"]
        c["traces_validated_against_impl"] += len(traces)
        for k, v in tags.items():
            c["branch_counts"][k] = c["branch_counts"].get(k, 0) + v
        if len(c["samples"]) < 12:
            for t in traces[:2]:
                c["samples"].append({"label": label, "events": [json.dumps(e)[:400] for e in t[:6]]})
        if mism:
            self._confirm(module, sessions, traces, mism, label, bdir or self.bdir)
        elif corrupt and traces:
            self._binding(module, traces)
        return traces

    def _binding(self, module, traces):
        """Corrupt one recorded result field per copied trace; TLC must reject some."""
        rng = random.Random(5)
        bad = []
        for _ in range(12):
            t = json.loads(json.dumps(rng.choice(traces)))
            cand = [e for e in t if "r" in e and isinstance(e["r"], (dict, list))]
            if not cand:
                continue
            e = rng.choice(cand)
            leaves = []

            def walk(o, path):
                if isinstance(o, dict):
                    for k in o:
                        walk(o[k], path + [k])
                elif isinstance(o, list):
                    for k in range(len(o)):
                        walk(o[k], path + [k])
                elif isinstance(o, int) and not isinstance(o, bool):
                    leaves.append(path)
            walk(e["r"], [])
            if not leaves:
                continue
            path = rng.choice(leaves)
            o = e["r"]
            for k in path[:-1]:
                o = o[k]
            o[path[-1]] += 1
            for x in t:
                x["s"] = len(bad)
            bad.append(t)
        if not bad:
            return
        try:
            mism, _, _ = validate(module, bad, self.work, shards=1)
        except CheckError:
            return
        b = self.cov.setdefault("binding_selftest", {"corrupted_traces": 0, "rejected": 0})
        b["corrupted_traces"] += len(bad)
        b["rejected"] += len({m["s"] for m in mism})

    def _confirm(self, module, sessions, traces, mism, label, bdir):
        seen = set()
        t0 = time.time()
        for m in mism:
            if m["s"] in seen:
                continue
            if self.viol and time.time() - t0 > 40:
                break
            seen.add(m["s"])
            if len(self.viol) >= 5:
                break
            s = sessions[m["s"]]
            if self._is_known(m, label, s.info):
                continue
            # once more, alone, in a fresh process
            r2 = run_sessions(bdir, [s], self.work, shards=1)
            t2 = [to_events(s, r2[0], 0)]
            m2, _, _ = validate(module, t2, self.work, shards=1)
            if not m2:
                # may depend on what ran before it in the process: repeat the whole batch
                r3 = run_sessions(bdir, sessions, self.work)
                t3 = [to_events(q, r, i) for i, (q, r) in enumerate(zip(sessions, r3))]
                m3, _, _ = validate(module, t3, self.work)
                m3 = [x for x in m3 if x["s"] == m["s"]]
                if not m3:
                    self.cov.setdefault("unconfirmed", []).append({"label": label, "mismatch": str(m)[:300]})
                    continue
                m2, ev = m3, t3[m["s"]]
            else:
                ev = t2[0]
            self.report(m2[0], s.script(), ev, label, s.info)

    def _is_known(self, m, label, info):
        what = json.dumps({"label": label, "mismatch": m, "info": info or {}}, default=str, sort_keys=True)
        for k in known_findings():
            if k["property"] == self.pid and re.search(k["match"], what):
                self.known[k["id"]] = k["what"]
                return True
        return False

    def report(self, m, script, events, label, info=None):
        if self._is_known(m, label, info):
            return
        rd = os.path.join(OUT, "replays")
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, "%s-%d.json" % (self.pid, len(self.viol)))
        json.dump({"property": self.pid, "label": label, "seed": SEED, "tier": self.tier, "mismatch": m, "info": info or {},
                   "script": script, "events": events}, open(p, "w"), indent=1, default=str)
        self.viol.append({"label": label, "replay": p, "mismatch": str(m)[:500]})

    def fail(self, label, what, script=None, info=None):
        """A violation established without a recorder session (command-line runs)."""
        self.report({"op": label, "what": what}, script or [], [], label, info)

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 2)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        if self.viol:
            ev["violations"] = len(self.viol)
            ev["violation_details"] = [{"replay": v["replay"], "what": v["label"] + ": " + v["mismatch"]} for v in self.viol]
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(OUT, "evidence", self.pid + ".json"), "w"), indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        for k, v in self.known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, v))
        for v in self.viol:
            print("# %s: %s" % (v["label"], v["mismatch"][:300]))
            print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
        print("%s %s: %d states, %d traces, %d events, %.1fs%s" % (
            self.pid, self.tier, self.cov["states"], self.cov["traces_validated_against_impl"],
            self.cov["events_validated"], time.time() - self.t0, "" if not self.viol else " VIOLATED"))
        return 1 if self.viol else 0


def tla(v):
    """A Python value as a TLA+ expression"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, str):
        return json.dumps(v)
    return str(v)


def hx(s):
    return (s if isinstance(s, bytes) else s.encode("latin-1")).hex()


def codes(hexs):
    return list(bytes.fromhex(hexs))


def f64(hexs):
    import struct
    return struct.unpack(">d", bytes.fromhex(hexs))[0]


def f32(hexs):
    import struct
    return struct.unpack(">f", bytes.fromhex(hexs))[0]
