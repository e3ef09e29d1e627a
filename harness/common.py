"""Shared machinery of the checks: running TLC, running the implementation, reporting."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CPUS = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


def rng(*names):
    return random.Random(":".join(str(x) for x in (SEED,) + names))


class Work:
    """scratch directory of one run"""
    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="gcv-")

    def file(self, name):
        return os.path.join(self.path, name)

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def read_ndjson(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


class TlcResult:
    def __init__(self):
        self.states = self.distinct = self.depth = 0
        self.prints = []
        self.violation = None
        self.out = ""


_states = re.compile(r"(\d+) states generated(?:, | \().*?(\d+) distinct states found")
_sim = re.compile(r"The number of states generated: (\d+)")


def tlc(work, module, cfg, env=None, workers=CPUS, timeout=2400 if TIER == "thorough" else 800, extra=(), heap="6g"):
    """run TLC on spec/<module>.tla with the configuration text cfg"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work.path)
    cfgfile = os.path.join(meta, module + ".cfg")
    with open(cfgfile, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-config", cfgfile, "-nowarning", "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
    outfile = os.path.join(meta, "out.txt")
    t0 = time.time()
    with open(outfile, "w") as o:
        p = subprocess.Popen(cmd, cwd=SPEC, stdout=o, stderr=subprocess.STDOUT, env=e, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise MachineryError("TLC timed out on %s" % module)
    r = TlcResult()
    r.rc = rc
    r.wall = time.time() - t0
    with open(outfile) as f:
        r.out = f.read()
    for line in r.out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            s = line[1:-1]
            if "\\" in s:
                s = json.loads('"' + s + '"')
            r.prints.append(s)
    m = None
    for m in _states.finditer(r.out):
        pass
    if m:
        r.states, r.distinct = int(m.group(1)), int(m.group(2))
    else:
        for m in _sim.finditer(r.out):
            r.states = r.distinct = int(m.group(1))
    m = re.search(r"depth of the complete state graph search is (\d+)", r.out)
    if m:
        r.depth = int(m.group(1))
    if rc != 0:
        m = re.search(r"Invariant (\w+) is violated|Assumption .* is false|property (\w+) is violated", r.out)
        r.violation = m.group(0) if m else None
        if not m:
            ls = [x for x in r.out.splitlines() if not x.startswith(('"', "Semantic", "Parsing"))]
            k = [i for i, x in enumerate(ls) if x.startswith("Error")]
            tail = "\n".join([x[:400] for x in (ls[k[0]:k[0] + 40] if k else ls[-40:])] + [x for x in ls if re.match(r"/\\ t = \d+$", x)][-1:])
            raise MachineryError("TLC failed (rc %d) on %s:\n%s" % (rc, module, tail))
    shutil.rmtree(meta, ignore_errors=True)
    return r


def drive(work, kind, cases, procs=CPUS, timeout=1800 if TIER == "thorough" else 600, case_timeout=20):
    """run the implementation on the cases, in parallel, through harness/driver.py -> list of observations"""
    if not cases:
        return []
    n = max(1, min(procs, (len(cases) + 19) // 20))
    running = []
    env = dict(os.environ, PYTHONPATH=REPO + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1",
               PYTHONHASHSEED="0", CASE_TIMEOUT=str(case_timeout), VERIF_REPO=REPO)
    for k in range(n):
        d = tempfile.mkdtemp(prefix="drv-", dir=work.path)
        inp, out, err = (os.path.join(d, x) for x in ("in", "out", "err"))
        write_ndjson(inp, cases[k::n])
        f = open(err, "w")
        p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "driver.py"), kind, inp, out], stdout=f, stderr=f,
                             env=env, cwd=d, start_new_session=True)
        running.append((p, out, err, len(cases[k::n]), f))
    res = [None] * len(cases)
    end = time.time() + timeout
    for k, (p, out, err, cnt, f) in enumerate(running):
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            for q in running:
                try:
                    os.killpg(q[0].pid, signal.SIGKILL)
                except OSError:
                    pass
            raise MachineryError("driver %s timed out" % kind)
        f.close()
        rows = read_ndjson(out) if os.path.exists(out) else []
        if rc != 0 or len(rows) != cnt:
            with open(err) as g:
                raise MachineryError("driver %s failed (rc %s): %s" % (kind, rc, g.read()[-3000:]))
        res[k::n] = rows
    return res


def tame(case):
    """the numbers of the program stay far from the bounds of the specification, even added up"""
    text = json.dumps(case)
    sums = {}
    for a, n in re.findall(r"([XYZEIJ])([-+]?[0-9]*\.?[0-9]+)", text):
        sums[a] = sums.get(a, 0) + abs(float(n)) * (25.4 if "G20" in text else 1)
    return all(n < 15000 for n in sums.values())


def rank(clause):
    return 2 if clause == "ok" else 1 if clause.startswith("skip") else 0


class Check:
    """one run of the check of a property"""
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.work = Work()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.proofs = []

    # -- model checking ------------------------------------------------------
    def model(self, name, module, cfg, env=None, **kw):
        r = tlc(self.work, module, cfg, env, **kw)
        if r.violation:
            raise MachineryError("the specification %s violates its own property: %s\n%s" % (module, r.violation, r.out[-3000:]))
        self.count(name, r)
        return r

    def count(self, name, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += max(0, r.states - 1)
        runs = self.cov.setdefault("tlc_runs", {})
        runs[name] = {"distinct_states": r.distinct, "states_generated": r.states, "depth": r.depth, "wall_s": round(r.wall, 1)}

    # -- proofs --------------------------------------------------------------
    def prove(self, module, *runs):
        """start Apalache on spec/<module>.tla, in the background: runs are (init, next, invariant, length).
        Without runs: Ind is an inductive invariant (holds at Init, kept by Next from any state of IndInit)."""
        runs = runs or (("Init", "Stutter", "Ind", 0), ("IndInit", "Next", "Ind", 1))
        for init, nxt, inv, length in runs:
            d = tempfile.mkdtemp(prefix="ap-", dir=self.work.path)
            cmd = ["apalache-mc", "check", "--out-dir=" + d, "--init=" + init, "--next=" + nxt, "--inv=" + inv, "--length=%d" % length, module + ".tla"]
            f = open(os.path.join(d, "log"), "w")
            env = dict(os.environ, JVM_ARGS="-Xmx3g", HOME=d, TMPDIR=d)
            p = subprocess.Popen(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=env, start_new_session=True)
            self.proofs.append((module, init, inv, length, p, f, time.time()))

    def proved(self):
        """wait for the proofs"""
        end = time.time() + 400
        for module, init, inv, length, p, f, t0 in self.proofs:
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
            f.close()
            with open(f.name) as g:
                out = g.read()
            if rc == 0 and "The outcome is: NoError" in out:
                what = "proved"
            elif rc == "timeout":
                what = "not decided in time"       # concerns the specification alone: TLC has checked it within bounds
            else:
                raise MachineryError("the specification %s: %s isn't proved from %s (rc %s)\n%s" % (module, inv, init, rc, out[-3000:]))
            self.cov.setdefault("proofs", []).append({"module": module, "from": init, "steps": length, "invariant": inv, "result": what,
                                                      "solver": "Apalache, z3"})
        self.proofs = []

    # -- trace validation ----------------------------------------------------
    def validate(self, name, module, traces, cases, cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env=None, chunk=40000, **kw):
        """validate traces (records with at least nothing special; numbered here) with spec/<module>.tla.
        The module prints "V <number> <clause> <line>" exactly once per trace.  clause "ok" accepts, "skip..." is
        outside of the property's domain, anything else rejects.  cases[k] is what to save for replay."""
        clauses = {}
        for lo in range(0, len(traces), chunk):
            part = traces[lo:lo + chunk]
            path = self.work.file("traces-%s.ndjson" % re.sub(r"\W", "_", name))
            write_ndjson(path, part)
            e = {"TRACES": path}
            e.update(env or {})
            seen = {}
            while True:
                try:
                    r = tlc(self.work, module, cfg, e, **kw)
                    break
                except MachineryError as x:
                    # numbers out of the range of the specification, from a program which isn't
                    m = re.search(r"^/\\ t = (\d+)$", str(x), re.M)
                    k = int(m.group(1)) if m else 0
                    if not ("Overflow when computing" in str(x) and 0 < k <= len(part) and tame(cases[lo + k - 1])):
                        raise
                    seen[k] = ("overflow", "?")
                    if len(seen) > 3:
                        break
                    blank = dict(part[k - 1])
                    blank["err"] = "overflow"
                    part = part[:k - 1] + [blank] + part[k:]
                    write_ndjson(path, part)
            if len(seen) > 3:
                for k in seen:
                    self.violation(name, "overflow", "?", cases[lo + k - 1])
                os.unlink(path)
                return clauses
            if r.violation:
                raise MachineryError("%s: %s\n%s" % (module, r.violation, r.out[-3000:]))
            self.count(name if lo == 0 else "%s+%d" % (name, lo), r)
            for s in r.prints:
                if s.startswith("V "):
                    _, k, clause, line = s.split(" ", 3)
                    k = int(k)
                    if seen.get(k) == ("overflow", "?"):
                        continue
                    if k in seen and seen[k] != (clause, line):
                        # several explanations were tried: one success is enough
                        if rank(seen[k][0]) >= rank(clause):
                            continue
                    seen[k] = (clause, line)
            if len(seen) != len(part):
                raise MachineryError("%s: %d verdicts for %d traces\n%s" % (module, len(seen), len(part), r.out[-3000:]))
            for k, (clause, line) in sorted(seen.items()):
                clauses[clause] = clauses.get(clause, 0) + 1
                if clause != "ok" and not clause.startswith("skip"):
                    self.violation(name, clause, line, cases[lo + k - 1])
            os.unlink(path)
        self.cov["traces_validated_against_impl"] += sum(v for k, v in clauses.items() if not k.startswith("skip"))
        self.cov.setdefault("verdicts", {})[name] = clauses
        return clauses

    def sample(self, x, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def violation(self, what, clause, where, case):
        self.violations.append({"property": self.prop, "check": what, "clause": clause, "at": where, "case": case})

    def finish(self):
        self.proved()
        self.work.close()
        d = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(d, "replay"), exist_ok=True)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            # the smallest case makes the best replay
            self.violations.sort(key=lambda v: len(json.dumps(v["case"])))
            path = os.path.join(d, "replay", self.prop + ".json")
            with open(path, "w") as f:
                json.dump(self.violations[:20], f, indent=1)
            for v in self.violations[:5]:
                print("  %s: clause %s at %s: %s" % (v["check"], v["clause"], v["at"], json.dumps(v["case"])[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        c = self.cov
        print("%s held: %d states, %d transitions, %d implementation traces validated, %.1f s" % (
            self.prop, c["states"], c["transitions"], c["traces_validated_against_impl"], time.time() - self.t0))
        return 0
