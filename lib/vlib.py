"""Shared machinery of the checks: running drivers against /repo, running TLC, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, random, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class MachineryError(Exception):
    pass


def tla_unquote(line):
    """TLC prints a string value with TLA+ escapes; they are JSON-compatible."""
    return json.loads(line)


class Check:
    def __init__(self, pid, level="model_checking", budget=None):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        atexit.register(shutil.rmtree, self.scratch, True)
        self.states = self.transitions = self.traces = self.replayed = 0
        self.events = 0
        self.samples, self.runs, self.notes = [], [], []
        self.violations, self.known_hits = [], []
        self.other = {}
        self.budget = budget
        self.extra = {}
        self.findings = load_findings(pid)

    # ---- drivers -------------------------------------------------------------------
    def driver(self, module, args=None, timeout=400, scenarios=None):
        """Runs drivers/<module>.py on the code in /repo; returns its list of recorded traces."""
        out = os.path.join(self.scratch, "%s_%d.json" % (module, len(self.runs)))
        req = {"seed": SEED, "tier": TIER, "args": args or {}, "out": out, "scenarios": scenarios}
        rq = out + ".req"
        with open(rq, "w") as f:
            json.dump(req, f)
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.scratch, "LANG": "C.UTF-8",
               "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
               "MPLCONFIGDIR": os.path.join(self.scratch, "mpl"), "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
               "NPY_DISABLE_CPU_FEATURES": "AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL",
               "PYTHONPATH": REPO + os.pathsep + os.path.join(VERIF, "lib"), "TMPDIR": self.scratch}
        os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
        if os.path.isdir("/opt/vp/mplconfig"):
            for fn in glob.glob("/opt/vp/mplconfig/*.json"):
                shutil.copy(fn, env["MPLCONFIGDIR"])
        cwd = os.path.join(self.scratch, "cwd")
        os.makedirs(cwd, exist_ok=True)
        t = time.time()
        try:
            r = subprocess.run([PY, "-B", "-W", "ignore", os.path.join(VERIF, "drivers", module + ".py"), rq], env=env,
                               cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired as e:
            rc, err = "timeout", "the driver did not finish within %ss" % timeout
        wall = round(time.time() - t, 2)
        traces = None
        if os.path.exists(out):
            with open(out) as f:
                traces = json.load(f)
        self.runs.append({"driver": module, "args": args or {}, "traces": len(traces or []), "wall_s": wall})
        if rc == 3:
            raise MachineryError("driver %s: %s" % (module, err[-2000:]))
        if rc != 0 or traces is None:
            self.violation("driver", {"driver": module, "args": args, "rc": rc, "stderr": err[-4000:]},
                           "the code under test could not be driven (%s): %s" % (rc, err.strip().splitlines()[-1:] or ""))
            return traces or []
        return traces

    # ---- TLC -----------------------------------------------------------------------
    def _tlc(self, module, cfg, files=None, workers=8, timeout=800, xmx="6g", extra=()):
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        for fn in glob.glob(os.path.join(VERIF, "spec", "*.tla")):
            shutil.copy(fn, d)
        for name, obj in (files or {}).items():
            with open(os.path.join(d, name), "w") as f:
                json.dump(obj, f)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + xmx, "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JAR + ":" + DEPS,
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", "run.cfg"] + list(extra) + [module + ".tla"]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            rc, out = "timeout", (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        wall = round(time.time() - t, 2)
        gen = dist = 0
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out.replace(",", "") if False else out)
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        lines = [tla_unquote(l) for l in out.splitlines() if l.startswith('"@@')]
        shutil.rmtree(d, True)
        return dict(rc=rc, out=out, gen=gen, dist=dist, lines=lines, wall=wall)

    def model_check(self, module, consts="", invariants=(), properties=(), emit=None, timeout=800, constraint=None,
                    view=None, spec=True, workers=8, simulate=None):
        """Exhaustive TLC run of the specification itself; a failure is a failure of the specification."""
        cfg = (("SPECIFICATION Spec\n" if spec else "INIT Init\nNEXT Next\n") + consts + "\n" +
               "".join("INVARIANT %s\n" % i for i in invariants) + "".join("PROPERTY %s\n" % i for i in properties) +
               ("ACTION_CONSTRAINT %s\n" % emit if emit else "") + ("CONSTRAINT %s\n" % constraint if constraint else "") +
               ("VIEW %s\n" % view if view else "") + "CHECK_DEADLOCK FALSE\n")
        extra = ()
        if simulate:
            extra = ("-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(SEED))
        r = self._tlc(module, cfg, workers=workers, timeout=timeout, extra=extra)
        if r["rc"] != 0:
            raise MachineryError("model check of %s failed (rc %s):\n%s" % (module, r["rc"], r["out"][-3000:]))
        self.states += r["dist"]
        self.transitions += r["gen"]
        self.runs.append({"tlc": module, "mode": "exhaustive" if not simulate else "simulate", "constants": " ".join(consts.split()),
                          "invariants": list(invariants) + list(properties), "states": r["dist"], "transitions": r["gen"], "wall_s": r["wall"]})
        return [json.loads(l[2:]) for l in r["lines"]]

    def validate(self, module, traces, relevant, scenario_of=None, timeout=800, consts="", label=None, xmx="8g"):
        """Validates recorded traces against a trace specification.

        The trace specification has one behaviour per trace (Traces == the list in traces.json), one state per
        consumed event (field "ev"), and prints @@{tr, pos, bad} for each event at which clauses fail.  `relevant` selects the clauses
        that decide this property (prefix match; a pair (prefix, condition) counts only for traces that satisfy the condition)."""
        if not traces:
            raise MachineryError("no traces for %s" % module)
        expected = sum(len(t["ev"]) + 1 for t in traces)
        bad = []
        dist = self._validate(module, traces, bad, timeout, consts, xmx, 0)
        nbadtr = len({b["tr"] for b in bad if b.get("fatal")})
        if not nbadtr and dist != expected:
            raise MachineryError("%s consumed %s of %s trace positions" % (module, dist, expected))
        self.traces += len(traces)
        self.events += expected - len(traces)
        if len(self.samples) < 4:
            tr = traces[len(traces) // 2]
            s = json.dumps(tr)
            self.samples.append({"spec": module, "trace": tr if len(s) < 1500 else s[:1500] + "..."})
        nrel = 0
        seen = set()
        for b in sorted(bad, key=lambda b: (b["tr"], b["pos"])):
            for clause in b["bad"]:
                if any(clause.startswith(p) if isinstance(p, str) else clause.startswith(p[0]) and p[1](traces[b["tr"] - 1])
                       for p in relevant):
                    nrel += 1
                    k = (b["tr"], clause)
                    if k in seen:
                        continue
                    seen.add(k)
                    tr = traces[b["tr"] - 1]
                    key = clause + "|" + str(tr.get("fam", ""))
                    self.violation(key, {"spec": module, "clause": clause, "event": b["pos"], "trace": tr},
                                   "%s at event %s of trace %s %s" % (clause, b["pos"], b["tr"], tr.get("name", "")))
                else:
                    self.other[clause] = self.other.get(clause, 0) + 1
        return nrel

    def _validate(self, module, traces, bad, timeout, consts, xmx, off):
        cfg = "INIT TraceInit\nNEXT TraceNext\nACTION_CONSTRAINT Report\nCHECK_DEADLOCK FALSE\n" + consts + "\n"
        r = self._tlc(module, cfg, files={"traces.json": traces}, timeout=timeout, xmx=xmx)
        self.runs.append({"tlc": module, "mode": "trace validation", "traces": len(traces),
                          "states": r["dist"], "transitions": r["gen"], "wall_s": r["wall"]})
        if r["rc"] == 0:
            self.states += r["dist"]
            self.transitions += r["gen"]
            for l in r["lines"]:
                b = json.loads(l[2:])
                b["tr"] += off
                bad.append(b)
            return r["dist"]
        if r["rc"] == "timeout" or "OutOfMemory" in r["out"] or "Parsing or semantic analysis failed" in r["out"] or \
                "Error" not in r["out"] or os.environ.get("VERIF_DEBUG"):
            raise MachineryError("TLC on %s failed (rc %s):\n%s" % (module, r["rc"], r["out"][-3000:]))
        if len(traces) == 1:
            # the specification cannot even evaluate this recorded behaviour: it is not one of its behaviours
            bad.append({"tr": off + 1, "pos": 0, "bad": [c + ".uninterpretable" for c in (self.pid,)], "fatal": True,
                        "why": r["out"][-1500:]})
            return 0
        if sum(1 for b in bad if b.get("fatal")) >= 3:
            return 0
        h = len(traces) // 2
        a = self._validate(module, traces[:h], bad, timeout, consts, xmx, off)
        if sum(1 for b in bad if b.get("fatal")) >= 3:
            return a
        return a + self._validate(module, traces[h:], bad, timeout, consts, xmx, off + h)

    def replay(self, module, behaviours, limit, fields, label="replay", mode="replay"):
        """Executes behaviours emitted by the specification on the real code and compares what it reports."""
        if not behaviours:
            raise MachineryError("the specification emitted no behaviour for %s" % module)
        if len(behaviours) > limit:
            behaviours = random.Random(SEED).sample(behaviours, limit)
        got = self.driver(module, {"mode": mode}, scenarios=behaviours)
        for e, g in zip(behaviours, got):
            for what in fields:
                if g["out"] != "ok" or norm(g[what]) != norm(e[what]):
                    self.violation("%s.%s.%s" % (self.pid, label, what), {"run": e, "got": g},
                                   "a behaviour of the specification is not reproduced (%s, %s): %s" % (what, g["out"], json.dumps(e)[:300]))
        self.replayed += len(behaviours)

    # ---- verdicts ------------------------------------------------------------------
    def violation(self, key, replay, what):
        for k, text in self.findings:
            if key == k or key.startswith(k + "|"):
                if (k, text) not in self.known_hits:
                    self.known_hits.append((k, text))
                return
        self.violations.append((key, replay, what))

    def finish(self, rule=None):
        for k, text in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for fn in glob.glob(os.path.join(rdir, self.pid + "-*.json")):
            os.unlink(fn)
        shown = set()
        n = 0
        for key, replay, what in self.violations:
            if key in shown:
                continue
            shown.add(key)
            n += 1
            path = os.path.join(rdir, "%s-%d.json" % (self.pid, n))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "key": key, "what": what, "seed": SEED, "replay": replay}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  " + what)
            if n >= 10:
                break
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces + self.replayed,
               "traces_recorded_and_validated": self.traces, "spec_behaviours_replayed": self.replayed, "events_validated": self.events,
               "samples": self.samples or [{"note": "see runs"}], "runs": self.runs,
               "known_findings": [t for _, t in self.known_hits], "violations": len(self.violations),
               "mismatches_outside_this_property": self.other}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2)}
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            return 1
        print("OK property=%s tier=%s: %d states, %d traces validated, %d behaviours replayed, %.1fs" %
              (self.pid, TIER, self.states, self.traces, self.replayed, ev["wall_s"]))
        return 0


def norm(x):
    """TLC prints the empty function as []."""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()} or []
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


def load_findings(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def tier(quick, thorough):
    return thorough if TIER == "thorough" else quick
