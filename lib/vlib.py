"""Shared machinery of the checks: build the driver from /repo, run it, run TLC, report."""
import atexit, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
NCPU = max(1, min(8, os.cpu_count() or 8))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MODPATH = "github.com/markusmobius/go-dateparser"
PTYPES = ["ts", "nts", "rel", "fmt", "abs", "nosp"]

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


class CheckError(Exception):
    """The check could not decide: never a violation."""


def goenv():
    e = dict(os.environ)
    e.update(TZ="UTC", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOTELEMETRY="off",
             GOFLAGS="-mod=mod", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", CGO_ENABLED="1",
             GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"))
    e["PATH"] = "/opt/veriftools/go1.24.13/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    return e


def build_driver(tags="", race=False):
    """Builds the driver against the working tree of /repo, outside of it."""
    name = "drv-" + (tags or "std") + ("-race" if race else "")
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(VERIF, "driver", "main.go"), d)
    mod = open(os.path.join(REPO, "go.mod")).read()
    mod = re.sub(r"(?m)^module .*$", "module verifdriver", mod, count=1)
    mod += "\nrequire %s v0.0.0\nreplace %s => %s\n" % (MODPATH, MODPATH, REPO)
    open(os.path.join(d, "go.mod"), "w").write(mod)
    shutil.copy(os.path.join(REPO, "go.sum"), d)
    out = os.path.join(d, "driver")
    cmd = ["go", "build", "-o", out]
    if tags:
        cmd += ["-tags", tags]
    if race:
        cmd += ["-race"]
    p = subprocess.run(cmd + ["."], cwd=d, env=goenv(), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("cannot build the driver: " + (p.stdout + p.stderr)[-3000:])
    return out


EMPTY_DT = dict(some=False, y=1, mo=1, d=1, h=0, mi=0, s=0, ns=0, off=0, zone="UTC", wd=1, per="", loc="",
                ed=0, es=0)


def _blank(i, **kw):
    r = dict(id=i, run=0, err="", iserr=False, dt=dict(EMPTY_DT), found=[], lang="", out="", num=0, panic="",
             hang=False, mut="", was="", now="", ms=0, beg=0, end=0)
    r.update(kw)
    return r


def _run_shard(binary, reqs, env, limit):
    """Sequential driver process; survives hangs and runtime deaths of the process."""
    res, todo, hangs = {}, list(reqs), 0
    while todo:
        if hangs == 3:                       # enough is seen
            res.update((q["id"], _blank(q["id"], hang=True, panic="not asked: three calls before it did not return")) for q in todo)
            break
        data = "".join(json.dumps(r, ensure_ascii=False) + "\n" for r in todo)
        # a call that takes all the memory ends with its own process, not with the machine's
        p = subprocess.run(["bash", "-c", 'ulimit -v 4000000; exec "$0" seq', binary], input=data.encode("utf-8", "replace"), env=env, capture_output=True,
                           timeout=limit)
        n = 0
        for line in p.stdout.split(b"\n"):
            if not line.strip():
                continue
            try:
                o = json.loads(line)
            except ValueError:
                break
            res[o["id"]] = o
            n += 1
        if p.returncode == 0:
            if n != len(todo):
                raise CheckError("driver answered %d of %d requests" % (n, len(todo)))
            break
        if p.returncode == 4:
            raise CheckError("driver: " + p.stderr.decode("utf-8", "replace")[-2000:])
        if p.returncode == 3 and n:          # the last answer says that it hung
            hangs += 1
            todo = todo[n:]
        else:                                # the process died while it ran request n
            err = p.stderr.decode("utf-8", "replace")
            if n >= len(todo) or ("fatal error" not in err and "panic" not in err and "SIG" not in err):
                raise CheckError("driver died (%s): %s" % (p.returncode, err[-2000:]))
            m = re.search(r"(fatal error|panic|SIG\w+)[^\n]*", err)
            res[todo[n]["id"]] = _blank(todo[n]["id"], panic="process died: " + m.group(0))
            todo = todo[n + 1:]
    return res


def run_seq(binary, reqs, shards=None, env=None, limit=800, req_limit=60):
    """Runs the requests on several driver processes. Requests of one session stay together, in order.
    Returns the answers in the order of the requests; ids are assigned here."""
    shards = shards or NCPU
    for i, r in enumerate(reqs):
        r["id"] = i
        if any("\udc80" <= c <= "\udcff" for c in r["text"]):      # not UTF-8: surrogates stand for the bytes
            r["hex"] = r["text"].encode("utf-8", "surrogateescape").hex()
    groups, order = {}, []
    for r in reqs:
        k = r.get("sess") or ("#%d" % r["id"])
        if k not in groups:
            groups[k] = []
            order.append(k)
        groups[k].append(r)
    buckets = [[] for _ in range(shards)]
    for n, k in enumerate(order):
        buckets[n % shards].extend(groups[k])
    e = goenv()
    e.update(env or {})
    e["DRIVER_LIMIT_S"] = str(req_limit)
    res = {}
    with ThreadPoolExecutor(shards) as ex:
        for part in ex.map(lambda b: _run_shard(binary, b, e, limit) if b else {}, buckets):
            res.update(part)
    out = []
    for r in reqs:
        o = _blank(r["id"])
        o.update(res[r["id"]])
        out.append(o)
    return out


def run_par(binary, reqs, goroutines, times, seed=0, env=None, limit=300):
    """Runs the requests on many goroutines of one process. Returns (answers, what went wrong with the process)."""
    for i, r in enumerate(reqs):
        r["id"] = i
    e = goenv()
    e.update(env or {})
    e.update(DRIVER_LIMIT_S=str(limit), VERIF_SEED=str(SEED * 10000 + seed), GORACE="halt_on_error=0 exitcode=0")
    data = "".join(json.dumps(r, ensure_ascii=False) + "\n" for r in reqs)
    try:
        p = subprocess.run([binary, "par", str(goroutines), str(times)], input=data.encode("utf-8", "replace"), env=e,
                           capture_output=True, timeout=limit + 60)
    except subprocess.TimeoutExpired:
        return [], "the calls do not return"
    err = p.stderr.decode("utf-8", "replace")
    if p.returncode == 4:
        raise CheckError("driver: " + err[-2000:])
    out, wrong = [], ""
    for line in p.stdout.split(b"\n"):
        try:
            o = json.loads(line)
        except ValueError:
            continue
        if o["id"] < 0:
            wrong = "the calls do not return"
        else:
            out.append(dict(_blank(o["id"]), **o))
    if "WARNING: DATA RACE" in err:
        wrong = "data race: " + " / ".join(dict.fromkeys(re.findall(r"/[\w./-]*\.go:\d+", err[err.find("WARNING: DATA RACE"):][:6000])))[:600]
    elif p.returncode not in (0, 3):
        m = re.search(r"(fatal error|panic|SIG\w+)[^\n]*", err)
        if not m:
            raise CheckError("driver died (%s): %s" % (p.returncode, err[-2000:]))
        wrong = "the process died: " + m.group(0)
    elif not wrong and len(out) != len(reqs) * goroutines * times:
        raise CheckError("driver gave %d answers" % len(out))
    return out, wrong


# ---------------------------------------------------------------- TLC

def _java(mem="1500m"):
    return ["java", "-XX:+UseSerialGC", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Xmx" + mem, "-Xss16m", "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC"]


def _spec_copy():
    d = os.path.join(scratch(), "spec")
    if not os.path.isdir(d):
        shutil.copytree(os.path.join(VERIF, "spec"), d)
    return d


def _stats(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if not m:
        return 0, 0
    g, dd = m[-1]
    return int(g.replace(",", "")), int(dd.replace(",", ""))


def tlc_model(module, cfg=None, workers=None, timeout=600, mem="4g", extra=()):
    """Exhaustive check of the specification itself. Returns (generated, distinct, output)."""
    d = _spec_copy()
    meta = tempfile.mkdtemp(dir=scratch())
    cmd = _java(mem) + ["-workers", str(workers or NCPU), "-metadir", meta, "-noGenerateSpecTE", "-deadlock",
                        "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
    cmd[1] = "-XX:+UseParallelGC"
    p = subprocess.run(cmd, cwd=d, capture_output=True, encoding="utf-8", errors="replace", timeout=timeout)
    out = p.stdout + p.stderr
    if p.returncode != 0 or "Model checking completed. No error has been found" not in out:
        raise CheckError("the specification %s does not check:\n%s" % (cfg or module, out[max(out.find("Error:"), 0):][:4000]))
    g, dd = _stats(out)
    return g, dd, out


def tlc_trace(module, records, shards=None, cfg=None, timeout=800, mem="2g", shard_key=None):
    """Checks recorded observations against the specification: one step per record. Returns
    (list of (record, reason)), states, transitions)."""
    if not records:
        raise CheckError("no records for " + module)
    d = _spec_copy()
    shards = min(shards or NCPU, max(1, len(records) // 20))
    buckets = [[] for _ in range(shards)]
    if shard_key:
        keys = {}
        for r in records:
            k = shard_key(r)
            if k not in keys:
                keys[k] = len(keys) % shards
            buckets[keys[k]].append(r)
    else:
        for i, r in enumerate(records):
            buckets[i % shards].append(r)
    buckets = [b for b in buckets if b]

    def one(ib):
        i, b = ib
        w = tempfile.mkdtemp(dir=scratch())
        tr = os.path.join(w, "trace.ndjson")
        with open(tr, "w", encoding="utf-8", errors="replace") as f:
            for n, r in enumerate(b):
                r["n"] = n + 1
                f.write(json.dumps(r, ensure_ascii=False) + "\n")
        cmd = _java(mem) + ["-workers", "1", "-metadir", os.path.join(w, "m"), "-noGenerateSpecTE", "-deadlock",
                            "-config", (cfg or module) + ".cfg", module + ".tla"]
        e = dict(os.environ)
        e["TRACE"] = tr
        p = subprocess.run(cmd, cwd=d, capture_output=True, encoding="utf-8", errors="replace", timeout=timeout, env=e)
        out = p.stdout + p.stderr
        if p.returncode != 0 or "Model checking completed. No error has been found" not in out:
            keep = os.environ.get("VERIF_KEEP")
            if keep:
                shutil.copy(tr, keep)
            k = max(out.find("Error:"), 0)
            raise CheckError("TLC could not validate a trace of %s:\n%s" % (module, out[k:k + 2500]))
        m = re.search(r'<<"CONSUMED", (\d+)>>', out)
        if not m or int(m.group(1)) != len(b):
            raise CheckError("TLC did not consume the whole trace of %s:\n%s" % (module, out[-3000:]))
        bad = []
        flat = re.sub(r"\s*\n\s*", " ", out)
        for mm in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(.*?)\s*,\s*"END"\s*>>', flat):
            bad.append((b[int(mm.group(1)) - 1], mm.group(2)))
        g, dd = _stats(out)
        return bad, dd, g

    bad, states, trans = [], 0, 0
    with ThreadPoolExecutor(len(buckets)) as ex:
        for bb, s, t in ex.map(one, list(enumerate(buckets))):
            bad += bb
            states += s
            trans += t
    return bad, states, trans


# ---------------------------------------------------------------- verdict

KNOWN = os.path.join(VERIF, "known-findings.jsonl")


def known_findings(prop):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("{"):
                o = json.loads(line)
                if o.get("property") == prop and o.get("kind") == "open":
                    res.append(o)
    return res


class Report:
    """Collects what a check covered and what it found; writes the evidence and ends the process."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = "thorough" if (len(sys.argv) > 2 and sys.argv[2] == "thorough") else "quick"
        self.t0 = time.time()
        self.states = self.trans = self.traces = 0
        self.samples, self.assumptions, self.extra, self.bad = [], [], {}, []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def model(self, module, cfg=None, **kw):
        g, d, out = tlc_model(module, cfg, **kw)
        self.states += d
        self.trans += g
        self.extra.setdefault("models", {})[cfg or module] = {"distinct": d, "generated": g}
        return out

    def conform(self, module, records, cfg=None, **kw):
        """Validates records; returns the mismatches."""
        bad, s, t = tlc_trace(module, records, cfg=cfg, **kw)
        self.states += s
        self.trans += t
        self.traces += len(records)
        self.extra.setdefault("conformance", {})
        c = self.extra["conformance"]
        c[cfg or module] = c.get(cfg or module, 0) + len(records)
        return bad

    def violation(self, what, detail):
        self.bad.append((what, detail))

    def sample(self, *objs):
        for o in objs:
            if len(self.samples) < 6:
                self.samples.append(o)

    def finish(self):
        known = known_findings(self.prop)
        fresh, seen = [], {}
        for what, detail in self.bad:
            k = next((f for f in known if f.get("match") == what), None)
            if k is not None:
                seen[k["match"]] = k
            else:
                fresh.append((what, detail))
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in seen.values():
            print(("KNOWN-FINDING: property=%s %s" % (self.prop, k.get("what", k["match"]))).encode("utf-8", "backslashreplace").decode())
        if fresh:
            rp = os.path.join(VERIF, "evidence", self.prop + "-violation.json")
            with open(rp, "w") as f:
                json.dump([dict(what=w, detail=d) for w, d in fresh[:200]], f, indent=1)
            for w, d in fresh[:5]:
                print("  " + w.encode("utf-8", "backslashreplace").decode())
                print("    " + json.dumps(d)[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            sys.stdout.flush()
            sys.exit(1)
        print("%s: held on everything explored (%d states, %d traces, %.1f s)" %
              (self.prop, self.states, self.traces, time.time() - self.t0))
        sys.exit(0)


def rng(salt=""):
    return random.Random("%d/%s" % (SEED, salt))


CONFIRMED = [0]


def confirm(binary, req, obs, keys=("dt", "found", "iserr", "panic", "lang", "out", "num", "mut"), env=None):
    """Re-runs one request on the real code and says whether it answers the same again (for the first ones only)."""
    CONFIRMED[0] += 1
    if CONFIRMED[0] > 12 or obs["hang"]:
        return None, obs
    r = dict(req)
    again = run_seq(binary, [r], shards=1, env=env)[0]
    return all(again[k] == obs[k] for k in keys), again


def must_break(module, cfg, inv):
    """A model of a careless implementation: TLC has to see that it breaks the invariant."""
    try:
        tlc_model(module, cfg)
    except CheckError as e:
        if inv + " is violated" in str(e):
            return
        raise
    raise CheckError("%s does not break %s" % (cfg, inv))


def judge(rep, drv, module, cases, key=lambda o: dict(o=o["dt"]), keep=("text", "cfg"), cfg=None, env=None, **kw):
    """Runs the requests of `cases` (a list of (request, record)) on the real code, adds what was observed to
    the records and lets the trace specification `module` judge them. Returns the observations."""
    reqs = [c[0] for c in cases]
    obs = run_seq(drv, reqs, env=env)
    recs = []
    for i, ((q, rec), o) in enumerate(zip(cases, obs)):
        rec = dict(rec, id=i)
        rec.update(key(o))
        recs.append(rec)
        if o["panic"] or o["hang"]:
            rep.violation("no answer: %r" % q["text"], dict(request=q, answer=o))
    for rec, why in rep.conform(module, recs, cfg=cfg, **kw):
        i = rec["id"]
        same, again = confirm(drv, reqs[i], obs[i], env=env) if not reqs[i].get("sess") else (None, None)
        rep.violation("%r: %s" % (reqs[i]["text"], why),
                      dict(request=reqs[i], record=rec, spec=why, reproduced=same))
    rep.sample(*[dict(request={k: reqs[i].get(k) for k in keep}, observed=key(obs[i])) for i in (0, len(reqs) // 2)])
    return obs
