"""Infrastructure of the checks: building the harness, running TLC, collecting results, evidence, verdicts."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
OUT = os.path.join(ROOT, "out")
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "harness", "target")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
DEADLINE = 880


class ToolError(Exception):
    pass


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = os.path.join(OUT, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.detail = {}
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.exhaustive = None
        self.bin = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # -- harness ------------------------------------------------------------------------------------
    def build(self):
        """Builds the harness against /repo's working tree; cargo trusts mtimes, so its idea of ntfs is dropped first."""
        if self.bin:
            return self.bin
        os.makedirs(TARGET, exist_ok=True)
        with open(os.path.join(TARGET, ".vlock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            for prof in ("debug", "release"):
                fp = os.path.join(TARGET, prof, ".fingerprint")
                if os.path.isdir(fp):
                    for n in os.listdir(fp):
                        if n.startswith("ntfs-") or n.startswith("vharness-"):
                            shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
            p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=os.path.join(ROOT, "harness"), env=env,
                               capture_output=True, text=True)
            if p.returncode != 0:
                raise ToolError("the harness does not build:\n" + p.stderr[-4000:])
            # every check runs its own copy, so that a build of another one does not disturb it
            self.bin = os.path.join(self.dir, "vharness")
            shutil.copy2(os.path.join(TARGET, "debug", "vharness"), self.bin)
        self.log("harness built")
        return self.bin

    def harness(self, *args, timeout=800, ok=(0,)):
        b = self.build()
        env = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
        try:
            p = subprocess.run([b] + [str(a) for a in args], env=env, cwd=self.dir, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("harness %s did not end within %d s" % (args, timeout))
        if p.returncode not in ok:
            # The harness reports panics of the code under test as data; an abort of the process itself (stack overflow,
            # memory exhaustion) inside the code under test is left.
            raise HarnessDied(args, p.returncode, p.stderr[-3000:])
        return p

    def report(self, name, *args, what=None, timeout=800):
        """Runs a harness command that writes a report file and merges it."""
        path = os.path.join(self.dir, name + ".report.json")
        try:
            self.harness(*[path if a == "@out" else a for a in args], timeout=timeout)
        except HarnessDied as e:
            if e.rc < 0:
                self.violation(name, {"message": "the process running the library was killed by signal %d" % -e.rc,
                                      "command": [str(a) for a in e.args_], "stderr": e.err})
                return {}
            raise ToolError("harness %s failed with %s: %s" % (e.args_, e.rc, e.err))
        r = json.load(open(path))
        self.detail.setdefault(name, {}).update(r["counts"])
        for s in r["samples"][:3]:
            self.samples.append({name: s})
        for v in r["violations"]:
            self.violation(v["what"], v["detail"])
        self.log(name, r["counts"], "violations:", r["nviol"])
        return r["counts"]

    # -- TLC ----------------------------------------------------------------------------------------
    def tlc(self, module, cfg, emit=None, env=None, workers=8, timeout=800, extra=(), heap="6g", count=True, simulate=None):
        """Model checks spec/<module>.tla with spec/<cfg>.cfg. Lines printed as JSON go to <emit> (ndjson)."""
        meta = os.path.join(self.dir, "tlc-" + cfg + "-" + str(len(os.listdir(self.dir))))
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg + ".cfg"), "-fp", str(self.seed % 100)]
        cmd += list(extra)
        cmd.append(os.path.join(SPEC, module + ".tla"))
        t = time.time()
        e = dict(os.environ, VERIF_SEED=str(self.seed % 1000))
        e.update(env or {})
        out_path = os.path.join(self.dir, cfg + ".tlc.out")
        n_emit = 0
        em = open(os.path.join(self.dir, emit), "w") if emit else None
        rejects = []
        res = {}
        tail = []
        with open(out_path, "w") as of:
            p = subprocess.Popen(["timeout", "-k", "5", str(timeout)] + cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            for line in p.stdout:
                if line.startswith('"{'):
                    n_emit += 1
                    if em:
                        em.write(json.loads(line))
                        em.write("\n")
                    continue
                if line.startswith('"REJECT'):
                    rejects.append(json.loads(line))
                    continue
                of.write(line)
                tail = (tail + [line])[-60:]
                m = re.match(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", line)
                if m:
                    res["generated"], res["distinct"], res["left"] = map(int, m.groups())
                m = re.match(r"Finished computing initial states: (\d+) distinct", line)
                if m:
                    res["init"] = int(m.group(1))
            rc = p.wait()
        if em:
            em.close()
        shutil.rmtree(meta, ignore_errors=True)
        if rc != 0 or "distinct" not in res or res.get("left"):
            raise ToolError("TLC %s/%s ended with %s\n%s" % (module, cfg, rc, "".join(tail)))
        res["emitted"] = n_emit
        res["rejects"] = rejects
        if count:
            self.states += res["distinct"]
            self.transitions += res["generated"]
        self.detail.setdefault("tlc", {})[cfg] = {"module": module, "states": res["distinct"], "generated": res["generated"],
                                                  "emitted": n_emit, "seconds": round(time.time() - t, 1)}
        self.log("TLC", cfg, "distinct", res["distinct"], "generated", res["generated"], "emitted", n_emit, "%.1fs" % (time.time() - t))
        return res

    def validate(self, name, module, cfg, trace, env=None, workers=8, timeout=800, describe=None):
        """Trace validation: the trace specification accepts a recorded trace iff it reaches the end of it.
        It prints one REJECT line (trace number, event number) for every trace it cannot follow."""
        path = os.path.join(self.dir, trace)
        recs = [json.loads(l) for l in open(path)]
        if not recs:
            raise ToolError("no traces recorded in " + trace)
        e = dict(env or {})
        e["TRACE"] = path
        res = self.tlc(module, cfg, env=e, workers=workers, timeout=timeout)
        n = len(recs)
        events = sum(len(r.get("ev", [])) for r in recs)
        if res.get("init") != n:
            raise ToolError("%s: %s initial states for %d traces" % (name, res.get("init"), n))
        rej = {}
        for r in res["rejects"]:
            _, tid, i = r.split()[:3]
            rej.setdefault(int(tid), int(i))
        if not rej and res["distinct"] != n + events:
            raise ToolError("%s: %d states for %d traces with %d events" % (name, res["distinct"], n, events))
        for tid, i in sorted(rej.items()):
            r = dict(recs[tid - 1])
            ev = r.get("ev", [])
            r["ev"] = ev[max(0, i - 6):i]
            self.violation(name, {"message": "the recorded behaviour is not one of the specification: event %d of trace %d" % (i, tid),
                                  "rejected": ev[i - 1] if 0 < i <= len(ev) else None, "trace": r, "spec": module})
        self.traces += n
        self.detail.setdefault(name, {}).update({"traces": n, "events": events, "rejected": len(rej)})
        return res

    # -- results --------------------------------------------------------------------------------------
    def violation(self, what, detail):
        self.violations.append({"what": what, "detail": detail})

    def need(self, cond, msg):
        """A run that exercised nothing is no answer."""
        if not cond:
            raise ToolError("vacuous: " + msg)

    def finish(self):
        known = load_known(self.prop)
        real, seen = [], {}
        for v in self.violations:
            t = json.dumps(v, sort_keys=True)
            hit = next((k for k in known if k["match"] in t), None)
            if hit:
                seen[hit["text"]] = True
            else:
                real.append(v)
        for k in known:
            if k["text"] in seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:8] or [{}], "detail": self.detail}
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(real)}
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        if not real:
            self.log("held: states", self.states, "transitions", self.transitions, "replayed/validated", self.traces)
            shutil.rmtree(self.dir, ignore_errors=True)
            return 0
        kinds = {}
        for v in real:
            kinds.setdefault(v["what"], []).append(v)
        n = 0
        for k, vs in kinds.items():
            for v in vs[:3]:
                n += 1
                path = os.path.join(OUT, "replays", "%s-%d.json" % (self.prop, n))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, **v}, f, indent=1)
                msg = v["detail"].get("message", "") if isinstance(v["detail"], dict) else str(v["detail"])
                self.log("%s: %s" % (k, msg))
                print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        return 1


class HarnessDied(Exception):
    def __init__(self, args, rc, err):
        self.args_, self.rc, self.err = args, rc, err


def load_known(prop):
    """Lines `finding: property=<id> match=<json string found in the violation> <text>`; `fixed:` lines suppress nothing."""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\"(?:[^\"\\]|\\.)*\") (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append({"match": json.loads(m.group(2)), "text": m.group(3)})
    return out


def run(prop, fn):
    ctx = Ctx(prop)
    try:
        fn(ctx)
        rc = ctx.finish()
    except ToolError as e:
        # Violations that were established before the tool failed stand.
        if ctx.violations:
            rc = ctx.finish()
            if rc == 1:
                return 1
        print("ERROR property=%s %s" % (prop, e), file=sys.stderr)
        return 2
    return rc
