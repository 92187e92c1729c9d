"""Shared machinery of the checks: building the instrumented crate and harness, running scenarios, running TLC,
classifying, evidence."""
import json, os, re, subprocess, sys, time, hashlib, shutil, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(ROOT, "build"))
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ build
def build():
    """instrumented copy of the crate + harness; returns the harness binary"""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    instr = os.path.join(BUILD, "instr")
    r = subprocess.run([sys.executable, os.path.join(ROOT, "tools", "instrument.py"), REPO, instr, os.path.join(ROOT, "rt")],
                       capture_output=True, text=True)
    if r.returncode:
        raise ToolError("instrumentation failed: " + r.stderr[-2000:])
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
    err = ""
    for feat in ([], ["--features", "lazy"]):
        r = subprocess.run(["cargo", "build", "--offline", "--bin", "rxh"] + feat, cwd=os.path.join(ROOT, "harness"),
                           env=env, capture_output=True, text=True)
        if r.returncode == 0:
            log("built in %.1fs" % (time.time() - t0))
            return os.path.join(BUILD, "target", "debug", "rxh")
        err = r.stderr
    raise ToolError("harness does not build:\n" + err[-6000:])


# ------------------------------------------------------------------ running the harness
def harness(binary, mode, lines, work, name, parts=CORES, timeout=600, line_limit=20):
    """Feeds `lines` (JSON objects) to the harness, one trace per line back, in order.  A scenario that kills or
    hangs the process is reported as a trace with a single step `bad`."""
    os.makedirs(work, exist_ok=True)
    parts = max(1, min(parts, len(lines)))
    chunks = [lines[i::parts] for i in range(parts)]

    def one(ix):
        todo = chunks[ix]
        res = []
        crashes = 0
        while todo:
            inp = os.path.join(work, "%s.%d.in" % (name, ix))
            outp = os.path.join(work, "%s.%d.out" % (name, ix))
            with open(inp, "w") as f:
                for l in todo:
                    f.write(json.dumps(l) + "\n")
            p = subprocess.Popen([binary, mode, inp, outp], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            t_end = time.time() + timeout
            last, last_t = -1, time.time()
            why = None
            while p.poll() is None:
                time.sleep(0.02 if time.time() - last_t < 1 else 0.2)
                n = os.path.getsize(outp) if os.path.exists(outp) else 0
                if n != last:
                    last, last_t = n, time.time()
                elif time.time() - last_t > line_limit:
                    why = "hang"
                    p.kill()
                if time.time() > t_end:
                    p.kill()
                    p.wait()
                    raise ToolError("harness exceeded %ds" % timeout)
            errtxt = p.stderr.read().decode(errors="replace")[-600:]
            got = []
            with open(outp) as f:
                for l in f:
                    if l.endswith("\n"):
                        got.append(json.loads(l))
            res += got
            if p.returncode == 0:
                if len(got) != len(todo):
                    raise ToolError("harness lost scenarios")
                break
            if p.returncode == 101 and "harness:" in errtxt:
                raise ToolError("harness failed: " + errtxt)
            crashes += 1
            bad = todo[len(got)]
            res.append({"crash": (why or "crash rc=%s %s" % (p.returncode, errtxt[-200:])), "sc": bad})
            todo = todo[len(got) + 1:]
            if crashes >= 5:
                for b in todo:
                    res.append({"skipped": True, "sc": b})
                break
        return res

    with cf.ThreadPoolExecutor(parts) as ex:
        parts_out = list(ex.map(one, range(parts)))
    out = [None] * len(lines)
    for ix, res in enumerate(parts_out):
        for k, r in enumerate(res):
            out[ix + k * parts] = r
    return out


# ------------------------------------------------------------------ TLC
def tlc(module, cfg=None, env=None, work="/tmp", workers=CORES, timeout=800, heap="6g", extra=(), xss="32m"):
    meta = os.path.join(work, "tlc-%s-%d-%s" % (module, os.getpid(), hashlib.md5(repr((cfg, sorted((env or {}).items()))).encode()).hexdigest()[:8]))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss" + xss, "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or (module + ".cfg")] + list(extra) + [module]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC timeout on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout + r.stderr
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    states = int(m.group(2).replace(",", "")) if m else 0
    trans = int(m.group(1).replace(",", "")) if m else 0
    return {"rc": r.returncode, "out": out, "states": states, "transitions": trans, "s": time.time() - t0}


def tlc_ok(r, module):
    if "Model checking completed. No error" in r["out"]:
        return True
    if re.search(r"(Invariant|Property|Temporal properties|Action property).*(violated|is violated)", r["out"]) or "is violated" in r["out"] or "Deadlock reached" in r["out"]:
        return False
    i = r["out"].find("Error:")
    raise ToolError("TLC failed on %s:\n%s" % (module, r["out"][max(i, 0):][:3000]))


ENDLESS = []   # traces whose scenario is endless by itself in the specification (not judged)


def validate(module, traces, work, name, env=None, jvms=4, timeout=800):
    """trace validation: ids of the traces the specification accepts"""
    os.makedirs(work, exist_ok=True)
    if not traces:
        return set(), 0, 0
    jvms = max(1, min(jvms, (len(traces) + 199) // 200))
    acc, states, trans = set(), 0, 0

    def one(ix):
        part = traces[ix::jvms]
        p = os.path.join(work, "%s.%d.tr" % (name, ix))
        with open(p, "w") as f:
            for t in part:
                f.write(json.dumps(t) + "\n")
        r = tlc(module, env=dict(env or {}, TRACE=p), work=work, workers=max(1, CORES // jvms), timeout=timeout,
                heap="%dg" % max(2, 20 // jvms))
        ok = tlc_ok(r, module)
        ids = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', r["out"]))
        ENDLESS.extend(int(x) for x in re.findall(r'<<"ENDLESS", (\d+)>>', r["out"]))
        return ids, r["states"], r["transitions"], (None if ok else r["out"][-3000:])

    with cf.ThreadPoolExecutor(jvms) as ex:
        for ids, s, t, bad in ex.map(one, range(jvms)):
            if bad:
                raise ToolError("the specification itself violates an invariant on an accepted trace:\n" + bad)
            acc |= ids
            states += s
            trans += t
    return acc, states, trans


def explain(module, trace, work, env=None):
    p = os.path.join(work, "explain.%s.tr" % trace["id"])
    with open(p, "w") as f:
        f.write(json.dumps(trace) + "\n")
    try:
        r = tlc(module, env=dict(env or {}, TRACE=p, DIAG="1"), work=work, workers=1, timeout=60)
    except ToolError as x:
        return str(x)
    i = r["out"].find('"MIS"')
    j = r["out"].find("Model checking completed")
    return re.sub(r"\s+", " ", r["out"][max(i - 4, 0):j if j > 0 else None])[-4000:] if i >= 0 else "no behaviour of the specification reaches the end of this trace"


# ------------------------------------------------------------------ reporting
def known():
    p = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and l.startswith("known:"):
                out.append(l)
    return out


class Report:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.assume = []
        self.viol = []
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(BUILD, "replay", prop)
        shutil.rmtree(self.replays, ignore_errors=True)

    def add(self, states=0, trans=0, traces=0):
        self.cov["states"] += states
        self.cov["transitions"] += trans
        self.cov["traces_validated_against_impl"] += traces

    def violation(self, what, data):
        self.viol.append((what, data))

    def finish(self):
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(self.cov)
        cov.update(self.extra)
        cov["samples"] = cov["samples"][:6]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.viol:
            print("%s held: %d traces of the real code accepted, %d states of the specification, %.1fs" % (
                self.prop, cov["traces_validated_against_impl"], cov["states"], time.time() - self.t0))
            return 0
        os.makedirs(self.replays, exist_ok=True)
        for n, (what, data) in enumerate(self.viol[:5]):
            p = os.path.join(self.replays, "%d.json" % n)
            with open(p, "w") as f:
                json.dump({"property": self.prop, "what": what, "replay": data}, f, indent=1)
            print("%s" % what[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        return 1
