"""Shared machinery of the checks: TLC runs, driver builds, verdicts, evidence."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Trouble(Exception):
    """The check itself could not decide (never a verdict)."""


def go_env():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
    e.setdefault("HOME", "/root")
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.states = self.transitions = self.traces = self.lines = 0
        self.models, self.samples, self.notes, self.violations, self.known = [], [], [], [], []
        self.extra = {}
        self.assumptions = []
        self.timing = []
        self.pool = cf.ThreadPoolExecutor(16)
        self.quick = tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.dir, name)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, args=(), env=None, mem="3g", workers=2, timeout=800):
        md = tempfile.mkdtemp(prefix="md_", dir=self.dir)
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2",
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
               "-config", cfg] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Trouble("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout

    def model(self, module, cfg, expect_violation=None, **kw):
        """Exhaustive check of a design model.  A failure is trouble with the
        model, not a verdict on the code (unless a violation is what the
        configuration is for)."""
        rc, out = self.tlc(module, cfg, **kw)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if expect_violation:
            if expect_violation not in out:
                raise Trouble("%s/%s: expected violation of %s not found\n%s" % (module, cfg, expect_violation, out[-3000:]))
            self.models.append({"model": module, "config": cfg, "refuted_as_expected": expect_violation})
            return
        if rc != 0 or not m or m[-1][2] != "0" or "No error has been found" not in out:
            raise Trouble("model %s/%s failed (rc %d)\n%s" % (module, cfg, rc, out[-3000:]))
        gen, dist = int(m[-1][0]), int(m[-1][1])
        self.states += dist
        self.transitions += gen
        self.models.append({"model": module, "config": cfg, "states": dist, "transitions": gen})

    def generate(self, module, cfg, num, depth, seed_off=0, **kw):
        """Random behaviours of a generator specification, as JSON values."""
        rc, out = self.tlc(module, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed * 7919 + seed_off)], workers=1, **kw)
        res = [json.loads(json.loads(x)) for x in out.splitlines() if x.startswith('"[') or x.startswith('"{')]
        if rc != 0 or len(res) < num:
            raise Trouble("generation %s/%s gave %d of %d behaviours (rc %d)\n%s" % (module, cfg, len(res), num, rc, out[-2000:]))
        self.models.append({"model": module, "config": cfg, "behaviours": len(res), "seed": self.seed * 7919 + seed_off})
        return res

    def enumerate(self, module, cfg, **kw):
        """All transitions printed by an exhaustive run of a generator."""
        rc, out = self.tlc(module, cfg, workers=1, **kw)
        res = [json.loads(json.loads(x)) for x in out.splitlines() if x.startswith('"[') or x.startswith('"{')]
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if rc != 0 or not res or not m:
            raise Trouble("enumeration %s/%s failed (rc %d)\n%s" % (module, cfg, rc, out[-2000:]))
        self.states += int(m[-1][1]); self.transitions += int(m[-1][0])
        self.models.append({"model": module, "config": cfg, "states": int(m[-1][1]), "transitions": int(m[-1][0]), "emitted": len(res)})
        return res

    # ------------------------------------------------------------------ drivers
    def build(self, name, race=False, tags=None):
        out = self.path("drv_" + name + ("_race" if race else ""))
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + (["-tags", tags] if tags else []) + ["./cmd/" + name]
        e = go_env()
        if race:
            e["CGO_ENABLED"] = "1"
        r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Trouble("building driver %s failed:\n%s" % (name, r.stdout[-4000:]))
        return out

    def drive(self, exe, label, args=(), env=None, timeout=None):
        """Runs a driver; returns the trace path, or None after recording a
        violation because the library crashed the process."""
        trace = self.path("trace_%s.ndjson" % label)
        e = go_env()
        e.update(VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, GOTRACEBACK="all", GORACE="halt_on_error=1")
        e.update({k: str(v) for k, v in (env or {}).items()})
        t1 = time.time()
        p = subprocess.Popen([exe, trace] + [str(a) for a in args], cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try:
            out, err = p.communicate(timeout=timeout or self.pick(420, 700))
        except subprocess.TimeoutExpired:
            p.send_signal(signal.SIGQUIT)  # the Go runtime prints every goroutine
            try:
                out, err = p.communicate(timeout=30)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
            idle = re.search(r"^goroutine \d+ .*(semacquire|chan (receive|send)|sync\.)", err, re.M) and not re.search(r"^goroutine \d+ .*\[(running|runnable)", err, re.M)
            if idle and "/repo/" in err:
                self.violation("the library blocks for ever (%s)" % label, text=err, trace=trace)
                return None
            raise Trouble("driver %s timed out\n%s" % (label, err[:3000]))
        r = subprocess.CompletedProcess(p.args, p.returncode, out, err)
        for line in r.stdout.splitlines():
            if line.startswith("NOTE "):
                self.notes.append(line[5:])
        self.timing.append([label, round(time.time() - t1, 1)])
        err = r.stderr
        if "WARNING: DATA RACE" in err:
            if "/repo/" in err:
                self.violation("data race in the library (%s)" % label, text=err)
                return None
            raise Trouble("data race in the driver itself: " + err[:2000])
        if r.returncode != 0:
            crashed = re.search(r"^(panic:|fatal error:|SIGSEGV|unexpected fault)", err, re.M)
            if crashed and "/repo/" in err:
                self.violation("library crashed the process (%s)" % label, text=err, trace=trace)
                return None
            raise Trouble("driver %s failed (rc %d): %s" % (label, r.returncode, err[-3000:]))
        return trace

    def concat(self, traces, label):
        """Joins traces (each starting with a reset event) into one file."""
        out = self.path("trace_%s.ndjson" % label)
        with open(out, "w") as f:
            for t in traces:
                if t and os.path.exists(t):
                    f.write(open(t).read())
        return out

    # ------------------------------------------------------------------ verdicts
    def violation(self, what, text=None, trace=None, line=None):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d-%d.txt" % (self.prop, self.tier, self.seed, len(self.violations)))
        with open(path, "w") as f:
            f.write("property %s\n%s\nseed %d tier %s\n" % (self.prop, what, self.seed, self.tier))
            if text:
                f.write(text[:20000] + "\n")
            if trace and os.path.exists(trace):
                f.write("--- trace (up to and including the rejected line)\n")
                ls = open(trace).read().splitlines()
                n = line if line is not None else len(ls)
                f.write("\n".join(x[:4000] for x in ls[max(0, n - 200):n]) + "\n")
        self.violations.append((what, path))

    def validate(self, module, cfg, trace, label=None, mem="3g", timeout=700, env=None):
        """Checks one recorded trace against its trace specification."""
        if trace is None:
            return False
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise Trouble("empty trace " + trace)
        e = {"TRACE": trace}
        e.update(env or {})
        rc, out = self.tlc(module, cfg, env=e, mem=mem, workers=1, timeout=timeout)
        m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', out)
        inv = re.search(r"Error: Invariant (\w+) is violated", out)
        if m is None and not inv:
            if "Attempted to " in out or "Overflow when computing" in out or "was not in the domain" in out or "Evaluating " in out and "outside of the domain" in out:
                # a recorded value does not even fit the vocabulary of the
                # specification (index out of range, torus value out of range)
                k = max([1] + [int(x) for x in re.findall(r"^/\\ l = (\d+)", out, re.M)])
                bad = open(trace).read().splitlines()
                self.violation("%s cannot interpret line %d of %s: %s" % (module, k, label or os.path.basename(trace), bad[min(k, n) - 1][:600]),
                               trace=trace, line=min(k, n), text="last TLC output:\n" + "\n".join(x[:400] for x in out.splitlines()[-40:]))
                return False
            brief = "\n".join(x[:300] for x in out.splitlines() if re.match(r"^(Error|\d+\. |Attempted|The |TLC|In )", x) or "xception" in x)
            raise Trouble("trace check %s on %s failed (rc %d)\n%s" % (module, trace, rc, brief[-3000:]))
        if inv:
            depth = len(re.findall(r"^State \d+", out, re.M))
            line = max(1, depth - 1)
        else:
            if int(m.group(2)) != n:
                raise Trouble("trace length mismatch")
            done = int(m.group(1))
            if done == n:
                self.traces += 1
                self.lines += n
                return True
            line = done + 1
        bad = open(trace).read().splitlines()[line - 1]
        self.violation("%s rejects line %d of %s%s: %s" % (module, line, label or os.path.basename(trace),
                       " (invariant %s)" % inv.group(1) if inv else "", bad[:600]), trace=trace, line=line,
                       text="last TLC output:\n" + "\n".join(out.splitlines()[-25:]))
        return False

    def sample(self, trace, k=2, skip=0):
        if trace and os.path.exists(trace):
            with open(trace) as f:
                for i, line in enumerate(f):
                    if i < skip:
                        continue
                    if k <= 0:
                        break
                    self.samples.append(line.strip()[:600])
                    k -= 1

    def par(self, *thunks):
        fs = [self.pool.submit(t) for t in thunks]
        cf.wait(fs)  # a violation found by one stands even if another fails
        return [f.result() for f in fs]

    # ------------------------------------------------------------------ evidence
    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces, "trace_lines_validated": self.lines,
                                "models": self.models, "samples": self.samples[:12]}, **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        if self.known:
            ev["coverage"]["known_findings_seen"] = self.known
        ev["coverage"]["driver_seconds"] = self.timing[:40]
        if self.notes:
            ev["coverage"]["notes"] = self.notes[:40]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, path in self.violations:
            print("%s: %s" % (self.prop, what[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()
        return 1 if self.violations else 0
