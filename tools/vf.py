"""Runs the checks: model checking of the specification, generation of cases from it, execution of
the real code, validation of the recorded traces against the specification."""
import json, os, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
TARGET = os.path.join(VERIF, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, replay, text):
        self.replay, self.text = replay, text


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building

FLAVOURS = {  # name: (cargo arguments, target subdirectory, profile directory)
    "dev": ([], "dev", "debug"),
    "release": (["--release"], "dev", "release"),
    "little": (["--features", "little"], "little", "debug"),
    "little-release": (["--release", "--features", "little"], "little", "release"),
}


def build(flavour):
    args, sub, prof = FLAVOURS[flavour]
    env = dict(os.environ)
    env["RUSTFLAGS"] = "--cfg lcms2_verif -Awarnings"
    env["CARGO_NET_OFFLINE"] = "true"
    tgt = os.path.join(TARGET, sub)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--target-dir", tgt] + args,
                       cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("build of the harness failed:\n" + r.stderr[-6000:])
    return os.path.join(tgt, prof, "harness")


# ------------------------------------------------------------------ TLC

JAVA_LOCK = threading.Lock()


def overrides():
    """Compiles the double arithmetic TLC uses for spec/Floats.tla."""
    out = os.path.join(TARGET, "java")
    src = os.path.join(VERIF, "tools", "java", "Floats.java")
    with JAVA_LOCK:
        cls = os.path.join(out, "Floats.class")
        if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
            r = subprocess.run(["javac", "-cp", JARS, "-d", out, src], capture_output=True, text=True)
            if r.returncode != 0:
                raise ToolError("javac failed:\n" + r.stderr[-3000:])
    return out


def tlc(module, cfg, meta, env=None, workers="1", heap="2g", extra=(), timeout=800, fast=True):
    """Runs TLC on SPEC/module.tla with the configuration text cfg."""
    os.makedirs(meta, exist_ok=True)
    cfgfile = os.path.join(meta, module + ".cfg")
    with open(cfgfile, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    java = ["java", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + meta]
    java += ["-XX:+UseSerialGC"] if workers == "1" else ["-XX:+UseParallelGC"]
    if fast:
        java += ["-XX:TieredStopAtLevel=1"]
    cmd = java + ["-cp", overrides() + ":" + JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", workers, "-metadir", os.path.join(meta, "states"),
                  "-config", cfgfile] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=meta, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s did not finish in %d s" % (module, timeout))
    out = r.stdout + r.stderr
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    shutil.rmtree(os.path.join(meta, "states"), ignore_errors=True)
    return r.returncode, out, gen, dist


def read(p):
    with open(p) as f:
        return f.read()


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.dir = os.path.join(OUT, pid)
        self.work = os.path.join(self.dir, "work")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.events = self.cases = 0
        self.models, self.samples, self.runs = [], [], []
        self.lock = threading.Lock()

    def count(self, gen, dist):
        with self.lock:
            self.states += dist
            self.transitions += gen

    # the specification on its own
    def model(self, module, cfg):
        t = time.time()
        code, out, gen, dist = tlc(module, read(os.path.join(SPEC, cfg)), os.path.join(self.work, "mc-" + cfg),
                                   workers="4", heap="6g", fast=self.tier == "quick", timeout=840)
        if code != 0:
            raise ToolError("the specification does not satisfy its own properties (%s, %s):\n%s" % (module, cfg, out[-5000:]))
        self.count(gen, dist)
        with self.lock:
            self.models.append({"model": cfg, "states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1)})

    # cases from the specification
    def generate(self, module, cfg, name):
        cases = os.path.join(self.work, name + ".ndjson")
        code, out, _, _ = tlc(module, read(os.path.join(SPEC, cfg)), os.path.join(self.work, "gen-" + name),
                              env={"OUT": cases}, heap="4g", extra=["-seed", str(self.seed)])
        if code != 0 or not os.path.exists(cases):
            raise ToolError("case generation failed (%s):\n%s" % (module, out[-4000:]))
        return cases

    # one run of the real code and the validation of what it did
    def drive(self, binary, step, cases, k):
        name = "%d-%s-%s" % (k, step["family"], step.get("mode", ""))
        tr = os.path.join(self.work, name)
        os.makedirs(tr)
        n = step["n"][0 if self.tier == "quick" else 1]
        shards = step.get("shards", CORES)
        cmd = [binary, step["family"], "--out", tr, "--shards", str(shards), "--seed", str(self.seed),
               "--n", str(n), "--mode", step.get("mode", "")]
        if cases:
            cmd += ["--cases", cases]
            with self.lock:
                self.cases += sum(1 for _ in open(cases))

        def execute(c, t):
            def lim():
                resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            # a time zone far from UTC: nothing may depend on it
            return subprocess.run(c, cwd=tr, capture_output=True, text=True, timeout=t, preexec_fn=lim, env=dict(os.environ, TZ="VRF-05:45"))
        try:
            r = execute(cmd, 600)
            if r.returncode < 0:   # the process died: find the call
                r = execute(cmd + ["--flush"], 800)
        except subprocess.TimeoutExpired:
            raise ToolError("the driver did not finish: " + " ".join(cmd))
        if os.path.exists(os.path.join(tr, "hang")):
            raise Violation(self.replay_text("call never returned: " + read(os.path.join(tr, "hang")), cmd),
                            "a call did not return")
        if r.returncode < 0:
            doing = os.path.join(tr, "doing")
            what = read(doing) if os.path.exists(doing) else ""
            raise Violation(self.replay_text("the process was killed by signal %d during: %s\n%s" % (-r.returncode, what, r.stderr[-2000:]), cmd),
                            "the process was killed")
        if r.returncode != 0:
            raise ToolError("driver failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stderr[-4000:]))
        summary = json.loads(read(os.path.join(tr, "summary.json")))
        focus = step.get("focus", [self.pid])
        jobs = [os.path.join(tr, f) for f in sorted(os.listdir(tr)) if re.match(r"t\d+\.ndjson$", f)]
        with ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(lambda t: self.validate(step["trace"], t, focus), jobs))
        bad = [(t, why, line) for t, (ok, why, line) in zip(jobs, res) if not ok]
        if bad:
            t, why, line = min(bad, key=lambda b: b[2])
            raise Violation(self.replay_trace(step["trace"], focus, t, line, why), why)
        with self.lock:
            self.traces += summary["histories"]
            self.events += summary["events"]
            self.runs.append({"driver": name, "flavour": step.get("flavour", "dev"), "histories": summary["histories"],
                              "events": summary["events"]})
            if len(self.samples) < 6:
                with open(jobs[0]) as f:
                    self.samples += [l.strip()[:600] for i, l in enumerate(f) if i in (1, 2)]
        shutil.rmtree(tr, ignore_errors=True)

    def validate(self, module, trace, focus):
        cfg = read(os.path.join(SPEC, module + ".cfg")) + "\nCONSTANT Focus = {%s}\n" % ", ".join('"%s"' % f for f in focus)
        code, out, gen, dist = tlc(module, cfg, trace + ".tlc", env={"TRACE": trace}, heap="3g", timeout=700)
        self.count(gen, dist)
        if code == 0:
            return True, "", 0
        rej = re.findall(r"REJECT property=(\S+) line=(\d+) : (.*?)\"?$", out, re.M)
        if rej:
            line = max(int(x[1]) for x in rej)
            why = "; ".join(sorted({"%s: %s" % (x[0], x[2]) for x in rej if int(x[1]) == line}))
            return False, why, line
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m and code in range(10, 15):
            return False, "no step of the specification explains this line", int(m.group(1)) + 1
        if code in (75, 76, 77):
            ls = re.findall(r"^/?\\?\s*l = (\d+)", out, re.M) or re.findall(r"l = (\d+)", out)
            return False, "the recorded values are outside of what the specification describes: " + out[-1200:], (int(ls[-1]) + 1 if ls else 1)
        raise ToolError("TLC failed (%d) on %s:\n%s" % (code, trace, out[-4000:]))

    def replay_text(self, text, cmd):
        p = os.path.join(self.dir, "replay.txt")
        with open(p, "w") as f:
            f.write(text + "\ncommand: " + " ".join(cmd) + "\n")
        return p

    def replay_trace(self, module, focus, trace, line, why):
        with open(trace) as f:
            lines = f.read().splitlines()
        start = 1
        for i in range(min(line, len(lines)) - 1, 0, -1):
            if '"new":true' in lines[i] or '"ev":"new"' in lines[i] or '"ev":"fsnew"' in lines[i] or '"ev":"hnew"' in lines[i]:
                start = i
                break
        p = os.path.join(self.dir, "replay.ndjson")
        with open(p, "w") as f:
            f.write("\n".join([lines[0]] + lines[start:line]) + "\n")
        with open(os.path.join(self.dir, "replay.txt"), "w") as f:
            f.write("%s\nrejected by %s (focus %s) at the last line of %s\nagain: ./check %s --replay %s %s\n"
                    % (why, module, focus, p, self.pid, module, p))
        return p

    def evidence(self, wall, level):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples,
                           "events_validated": self.events, "cases_generated_from_specification": self.cases,
                           "models": self.models, "runs": self.runs},
              "wall_s": round(wall, 1)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def decide(pid, tier, seed):
    from checks import CHECKS
    c = CHECKS[pid]
    t0 = time.time()
    run = Run(pid, tier, seed)
    i = 0 if tier == "quick" else 1
    steps = []
    for s in c["steps"]:
        if tier == "quick" and s.get("thorough_only"):
            # the optimised build, without overflow checks and debug assertions: fewer random histories
            s = dict(s, n=(max(10, s["n"][0] // 4), s["n"][1]))
            s.pop("gen", None)
        steps.append(s)
    pool = ThreadPoolExecutor(16)
    try:
        flavours = sorted({s.get("flavour", "dev") for s in steps})
        # cargo takes a lock per target directory; builds of different directories run in parallel
        builds = {f: pool.submit(build, f) for f in flavours}
        models = [pool.submit(run.model, m[0], m[1 + i]) for m in c["models"] if m[1 + i]]
        gens = {}
        for s in steps:
            if s.get("gen"):
                key = (s["gen"][0], s["gen"][1 + i])
                if key not in gens:
                    gens[key] = pool.submit(run.generate, key[0], key[1], "cases-%d" % len(gens))
        for k, s in enumerate(steps):
            binary = builds[s.get("flavour", "dev")].result()
            cases = gens[(s["gen"][0], s["gen"][1 + i])].result() if s.get("gen") else None
            run.drive(binary, s, cases, k)
        for m in models:
            m.result()
    except Violation as v:
        run.evidence(time.time() - t0, c.get("level", "model_checking"))
        log("violated: " + v.text[:1500])
        log("VIOLATION property=%s replay=%s" % (pid, v.replay))
        return 1
    except ToolError as e:
        log("ERROR " + str(e))
        return 2
    finally:
        pool.shutdown(wait=True)
    if run.traces == 0 or run.states == 0:
        log("ERROR nothing was explored")
        return 2
    run.evidence(time.time() - t0, c.get("level", "model_checking"))
    shutil.rmtree(run.work, ignore_errors=True)
    log("%s held: %d states, %d transitions, %d histories (%d events) of the real code, %.1f s"
        % (pid, run.states, run.transitions, run.traces, run.events, time.time() - t0))
    return 0


def main(args):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in args:
        i = args.index("--replay")
        run = Run(args[0] + "-replay", tier, seed)
        from checks import CHECKS
        focus = next((s.get("focus", [args[0]]) for s in CHECKS[args[0]]["steps"]), [args[0]])
        t = os.path.join(run.work, "t0.ndjson")
        shutil.copy(args[i + 2], t)
        ok, why, line = run.validate(args[i + 1], t, focus)
        log("accepted" if ok else "rejected at line %d: %s" % (line, why))
        return 0 if ok else 1
    rc = 0
    ids = args
    if args == ["all"]:
        from checks import CHECKS
        ids = sorted(CHECKS)
    for a in ids:
        rc = max(rc, decide(a, tier, seed))
    return rc
