"""Shared plumbing of the checks: building the harnesses, running TLC, evidence."""
import json, os, re, shutil, subprocess, sys, time, random, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTC_WRAPPER"] = ""
    e["RUST_BACKTRACE"] = "0"
    e.pop("CARGO_TARGET_DIR", None)
    return e


def workdir(name):
    d = os.path.join(VERIF, "work", "%s-%d" % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def run(cmd, timeout, cwd=None, stdin=None, extra_env=None, check=True):
    e = env()
    if extra_env:
        e.update(extra_env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        if check:
            raise ToolError("timeout after %ds: %s" % (timeout, " ".join(cmd)))
        return None, out, err
    if check and p.returncode != 0:
        raise ToolError("exit %s: %s\n%s\n%s" % (p.returncode, " ".join(cmd), out.decode(errors="replace")[-3000:],
                                                 err.decode(errors="replace")[-3000:]))
    return p.returncode, out, err


# packages whose sources are in /repo: always rebuilt, whatever the file times say
REPO_PACKAGES = {
    "lite": ["wasp-compiler", "wasm-merge"],
    "nest": ["nest-harness"],
    "cli": ["cli-harness", "wasm-merge", "wastrumentation", "wastrumentation-static-analysis", "wastrumentation-lang-rust"],
    "core": ["wasp-compiler", "wasm-merge", "wastrumentation", "wastrumentation-static-analysis",
             "wastrumentation-lang-webassembly", "wastrumentation-lang-rust", "wastrumentation-lang-assemblyscript"],
}


def build(name, timeout=800):
    """Builds /verif/harness/<name> against the current /repo tree; returns the bin dir."""
    src = os.path.join(VERIF, "harness", name)
    tgt = os.path.join(VERIF, "target", name)
    e = {"CARGO_TARGET_DIR": tgt}
    if os.path.isdir(os.path.join(tgt, "debug")):
        cmd = ["cargo", "clean", "--offline"]
        for p in REPO_PACKAGES[name]:
            cmd += ["-p", p]
        run(cmd, 120, cwd=src, extra_env=e, check=False)
    run(["cargo", "build", "--offline", "--locked"], timeout, cwd=src, extra_env=e)
    return os.path.join(tgt, "debug")


class Tlc:
    """Result of one TLC run."""

    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.transitions, self.states = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        m = re.search(r"Invariant (\S+) is violated", out)
        self.violated = m.group(1) if m else None
        if not self.violated:
            m = re.search(r"(?:Action property|Temporal propert\w+|Property) ?(\S*) (?:is|was|were) violated", out)
            if m:
                self.violated = m.group(1) or "property"
        if not self.violated and "Deadlock reached" in out:
            self.violated = "Deadlock"
        if not self.violated and "POSTCONDITION" in out and "violated" in out:
            self.violated = "postcondition"
        self.ok = rc == 0 and not self.violated

    def state(self, var):
        """Last printed value of a variable in the counterexample."""
        m = re.findall(r"^/\\ %s = (.*)$" % re.escape(var), self.out, re.M)
        return m[-1] if m else None

    def printed(self, tag):
        """JSON payloads printed by the spec as  "TAG " \\o ToJson(..)."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag + ' '):
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
        return res


def tlc(spec, cfg_text, work, extra_env=None, workers=None, timeout=600, heap="6g", args=(), name="run", trace=False):
    """Runs TLC on /verif/spec/<spec>.tla with a configuration written to the work directory."""
    cfg = os.path.join(work, "%s-%s.cfg" % (spec, name))
    with open(cfg, "w") as f:
        f.write(cfg_text)
    meta = os.path.join(work, "meta-%s-%s" % (spec, name))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Dfile.encoding=UTF-8", "-cp", TLA_CP, "tlc2.TLC",
           "-config", cfg, "-metadir", meta, "-workers", str(workers or CPUS), "-nowarning", "-noGenerateSpecTE"] + list(args) + \
          [os.path.join(VERIF, "spec", spec + ".tla")]
    e = {"JAVA_TOOL_OPTIONS": ""}
    e.update(extra_env or {})
    rc, out, err = run(cmd, timeout, cwd=work, extra_env=e, check=False)
    if rc is None:
        raise ToolError("TLC timed out after %ds on %s" % (timeout, spec))
    out = out.decode(errors="replace")
    r = Tlc(rc, out)
    if trace and rc in (75, 76) and not r.violated:
        r.violated = "Evaluable"  # what was recorded lies outside the domain of the specification
    shutil.rmtree(meta, ignore_errors=True)
    if rc != 0 and not r.violated:
        raise ToolError("TLC failed on %s (rc %s):\n%s\n%s" % (spec, rc, out[-6000:], err.decode(errors="replace")[-2000:]))
    return r


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.assumptions = []
        self.work = workdir(prop)
        self.rng = random.Random(SEED * 1000003 + int(prop[1:]))
        self.known = load_known(prop)
        self.known_seen = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add_tlc(self, r):
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, s, cap=3):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(s)

    def violation(self, what, data):
        """Records a violation with a replay file (kept in /verif/work/replay)."""
        for k in self.known:
            if known_matches(k, data):
                if k not in self.known_seen:
                    self.known_seen.append(k)
                return
        d = os.path.join(VERIF, "work", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": SEED, "case": data}, f, indent=1, default=str)
        self.violations.append((what, path))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  " + what[:2000])
        sys.stdout.flush()

    def finish(self):
        for k in self.known_seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %s, %d states, %d transitions, %d traces, %.1fs" % (
            self.prop, self.tier, "VIOLATED" if self.violations else "held", self.cov.get("states", 0),
            self.cov.get("transitions", 0), self.cov.get("traces_validated_against_impl", 0), time.time() - self.t0))
        return 1 if self.violations else 0


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == prop]


def known_matches(k, data):
    """A listed finding names the exact key of the failing case."""
    return isinstance(data, dict) and data.get("finding_key") is not None and data["finding_key"] == k.get("key")


def dump(path, obj):
    with open(path, "w") as f:
        json.dump(obj, f, separators=(",", ":"))
    return path
