"""P06-P08: the wasm-merge crate against spec/Merge.tla (MergeMC.tla, MergeTrace.tla)."""
import json, os, shutil, subprocess, hashlib
import common as C

OPTS = ["no_validation", "rename_export_conflicts", "sign_ext", "threads", "mutable_globals", "nontrapping_float_to_int",
        "simd", "bulk_memory", "bulk_memory_opt", "call_indirect_overlong", "exception_handling", "tail_call",
        "reference_types", "multivalue", "gc", "memory64", "relaxed_simd", "extended_const", "strings", "multimemory",
        "typed_continuations", "shared_everything", "fp16"]
INV = {"P06": "P06_Request", "P07": "P07_Outcome", "P08": "P08_Isolation"}
MC_INV = ["ToolGetsRequest", "InputsStable", "SuccessIsSuccess", "ErrorCarriesDiagnostic", "FailureIsError",
          "NothingLeft", "Exclusive", "Bystander", "OwnBytes"]
TEETH = {"P06": [("sharedpath", ["ToolGetsRequest", "InputsStable", "Exclusive"])],
         "P07": [("ignorestatus", ["SuccessIsSuccess", "FailureIsError"])],
         "P08": [("sharedpath", ["ToolGetsRequest", "InputsStable", "Exclusive"]), ("leak", ["NothingLeft"])]}
NAMES = ["env", "a", "WASTRUMENTATION_ANALYSIS", "wastrumented_input", "x-y", "a.b", "_", "0", "A1", "wasi_snapshot_preview1"]
ODD = ["", " ", "two words", "semi;colon", "dollar$HOME", "$(touch pwned)", "`touch pwned`", "quote'quote", 'dq"dq', "a'b'c",
       "back\\slash", "star*", "q?", "amp&", "pipe|x", "gt>pwned", "lt<x", "tilde~", "~", "new\nline", "tab\tx", "hash#x", "#",
       "paren(x)", "{a,b}", "[x]", "!x", "é", "\U0001F534", "a=b", "%s", "\\n", "''", "'",
       "-", "-o", "-n", "--", "--no-validation", "-x y", " lead", "trail ", "two  blanks", "\u00a0", "cr\rlf", "\r", "\r\n", "\x01", "*", "?", "~/x", "$1", "${HOME}",
       "\\", "\\'", "'\\''", "' '", '"', "end\\", "!!", "^", "\u2028", "e\u0301", "/", "/no/such/place", "../x", ".", "true", "|", "&&", ";", "\n", "a\n", "$", "x" * 255,
       "y" * 300, "z" * 5000, "é" * 1500]
TMPS = ["sp ace", "q'uote", "do$HOME", "new\nline", "uni é", "-dash", "semi;x", "st*r", "am&p", "back\\slash", 'd"q', "#hash", "l" * 200, "(p)", "`x`", " ", "a=b", "{a,b}", "[x]"]


def fnv(data):
    h = 0xcbf29ce484222325
    for b in data:
        h = (h ^ b) * 0x100000001b3 % 2 ** 64
    return "%016x-%d" % (h, len(data))


def fill(seed, n):
    x, out = seed * 0x9E3779B97F4A7C15 % 2 ** 64 | 1, []
    for _ in range(n):
        x ^= x << 13 & (2 ** 64 - 1)
        x ^= x >> 7
        x ^= x << 17 & (2 ** 64 - 1)
        out.append(x >> 24 & 255)
    return bytes(out)


def request_id(m):
    """What shared.rs identifies a request by."""
    text = b""
    for x in m["modules"]:
        c = x["content"]
        text += x["name"].encode() + b"\x1f" + fnv(fill(c["seed"], min(c["size"], 64))).encode() + b"+%d\x1e" % c["size"]
    return fnv(text)


def untangle(events, twins):
    """Equal requests made at once cannot be told apart: name their events in the order they happened."""
    for base in twins:
        own = [e for e in events if e.get("p", "").split("#")[0] == base]
        of = {}
        for k, e in enumerate(e for e in own if e["ev"] == "tool"):
            of[e["p"]] = "%s#%d" % (base, k + 1)
        exits = []
        calls = 0
        for e in own:
            if e["ev"] == "call":
                calls += 1
                e["p"] = "%s#%d" % (base, calls)
            elif e["ev"] in ("tool", "exit"):
                e["p"] = of.get(e["p"], e["p"])
                if e["ev"] == "exit":
                    exits.append(e["p"])
        rest = exits + ["%s#%d" % (base, k) for k in range(1, calls + 1) if "%s#%d" % (base, k) not in exits]
        for k, e in enumerate(e for e in own if e["ev"] == "return"):
            e["p"] = rest[k]


class Scene:
    """A scratch directory with the stand-in tool on a private PATH."""

    def __init__(self, chk, bindir, n, tmp="tmp"):
        self.root = os.path.join(chk.work, "s%d" % n)
        self.times = {}
        self.tmp = os.path.join(self.root, tmp)
        self.fake = os.path.join(self.root, "fake")
        self.cwd = os.path.join(self.root, "cwd")
        self.home = os.path.join(self.root, "home")
        self.bin = os.path.join(self.root, "bin")
        for d in (self.tmp, self.fake, self.cwd, self.home, self.bin):
            os.makedirs(d)
        os.symlink(os.path.join(bindir, "faketool"), os.path.join(self.bin, "wasm-merge"))
        self.driver = os.path.join(bindir, "merge")

    def bystanders(self, rng):
        """Files of others in every directory at hand, new and old, with names a merge might take for its own."""
        for top in (self.tmp, self.cwd, self.home):
            for sub in ("", "sub", ".tmpDDDDDD", "wasm-merge"):
                os.makedirs(os.path.join(top, sub), exist_ok=True)
            for n in (".tmpAAAAAA", ".tmpB1c2D3", "module.wasm", ".tmp", "out", "wasm-merge.lock", "wasm-merge-1.wasm", "merged.wasm",
                      "a.out.wasm", "sub/.tmpCCCCCC", "sub/x.wasm", ".tmpDDDDDD/y", "wasm-merge/input-0.wasm"):
                p = os.path.join(top, n)
                with open(p, "wb") as f:
                    f.write(bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 40]))))
                age = rng.choice([0, 0, 120, 4000, 90000, 40 * 86400, 10 * 365 * 86400])
                if age:
                    t = os.stat(p).st_mtime - age
                    os.utime(p, (t, t))

    def listing(self):
        res = []
        for top in (self.tmp, self.cwd, self.home):
            for d, ds, fs in os.walk(top):
                for x in ds:
                    res.append([os.path.join(d, x), "dir"])
                for x in fs:
                    p = os.path.join(d, x)
                    with open(p, "rb") as f:
                        res.append([p, "%o %s" % (os.fstat(f.fileno()).st_mode, hashlib.sha1(f.read()).hexdigest())])
        return sorted(res)

    def script(self, m):
        base = request_id(m)
        self.times[base] = self.times.get(base, 0) + 1
        ident = "%s#%d" % (base, self.times[base])
        with open(os.path.join(self.fake, ident + ".json"), "w") as f:
            json.dump(m.get("script", {}), f)
        return ident

    def run(self, plans, timeout=60, path=None, tmp=None, hold_stdin=True):
        """Runs the plans as concurrent processes; returns the event log (or None on a hang)."""
        ps = []
        for i, plan in enumerate(plans):
            pf = os.path.join(self.root, "plan%d.json" % i)
            with open(pf, "w") as f:
                json.dump(plan, f)
            e = C.env()
            e.update(FAKE_DIR=self.fake, TMPDIR=tmp or self.tmp, HOME=self.home,
                     PATH=path if path is not None else self.bin + ":/usr/bin:/bin")
            ps.append(subprocess.Popen([self.driver, pf], cwd=self.cwd, env=e, stdin=subprocess.PIPE,
                                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True))
        hang, codes = False, []
        for p in ps:
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                hang = True
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
            codes.append(p.returncode)
            for s in (p.stdin, p.stdout, p.stderr):
                s.close()
        log = []
        lp = os.path.join(self.fake, "log")
        if os.path.exists(lp):
            with open(lp) as f:
                log = [json.loads(x) for x in f.read().split("\n") if x.endswith("}")]
        return log, hang, codes

    def drop(self):
        shutil.rmtree(self.root, ignore_errors=True)


def module(rng, name, size=None):
    if size is None:
        size = rng.choice([0, 1, 8, 100, 1000, rng.randint(0, 5000)])
    return {"name": name, "content": {"seed": rng.getrandbits(30), "size": size}}


def observe(chk, bindir, n, plans, **kw):
    """One run of the real code as one case for MergeTrace."""
    sc = Scene(chk, bindir, n, kw.pop("tmpname", "tmp"))
    ids = []
    for plan in plans:
        for t in plan["threads"]:
            for m in t:
                ids.append(sc.script(m))
    if kw.pop("bystanders", True):
        sc.bystanders(chk.rng)
    post = kw.pop("before_run", None)
    if post:
        kw.update(post(sc))
    before = sc.listing()
    log, hang, codes = sc.run(plans, **kw)
    untangle(log, {request_id(m) for plan in plans for t in plan["threads"] for m in t if m.get("twin")})
    end = {"ev": "end", "p": "", "listing": sc.listing()}
    case = {"ids": ids, "before": before, "events": log + [end], "hang": hang,
            "codes": codes, "plan": plans}
    sc.drop()
    return case


def mc(chk):
    big = chk.thorough
    cfg = lambda mutant, n, k: "CONSTANTS Mutant = \"%s\"\n Count = %d\n MaxMods = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" % (mutant, n, k)
    inv = "".join("INVARIANT %s\n" % i for i in MC_INV)
    r = C.tlc("MergeMC", cfg("none", 2, 2 if big else 1) + inv, chk.work, name="mc", timeout=800)
    chk.add_tlc(r)
    if r.violated:
        raise C.ToolError("MergeMC violates " + r.violated)
    if big:
        r = C.tlc("MergeMC", cfg("none", 2, 1) + "PROPERTY EveryMergeReturns\n", chk.work, name="live", timeout=800)
        chk.add_tlc(r)
        if r.violated:
            raise C.ToolError("MergeMC violates liveness")
    for mutant, expect in TEETH[chk.prop]:
        r = C.tlc("MergeMC", cfg(mutant, 2, 1) + inv, chk.work, name=mutant, timeout=400)
        if r.violated not in expect:
            raise C.ToolError("spec mutant %s not caught as expected (%s)" % (mutant, r.violated))
        chk.count("spec_mutants_caught")


def judge(chk, cases):
    """All cases through TLC; every departure is reported once."""
    for i, k in enumerate(cases):
        if k["hang"]:
            chk.violation("a merge did not return", k)
            return
        if any(code != 0 for code in k["codes"]):
            chk.violation("the merging process died: exit codes %s" % k["codes"], k)
            return
    slim = [{a: k[a] for a in ("ids", "before", "events")} for k in cases]
    path = C.dump(os.path.join(chk.work, "cases.json"), slim)
    cfg = "CONSTANT Mutant = \"none\"\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT %s\nINVARIANT Explained\n" % INV[chk.prop]
    if chk.prop != "P08":
        cfg += "INVARIANT ErrorCarriesDiagnostic\n"
    r = C.tlc("MergeTrace", cfg, chk.work, {"CASES": path}, timeout=700, name="trace", trace=True)
    chk.add_tlc(r)
    chk.traces(len(cases))
    if r.violated:
        i = int(r.state("c") or 1) - 1
        l = int(r.state("l") or 1)
        ev = cases[i]["events"]
        # the log position is after the offending event for a noted departure, at it if unexplained
        at = ev[l - 1] if r.violated == "Explained" and l <= len(ev) else ev[max(0, l - 2)]
        chk.violation("recorded merge departs from the specification (%s, noted %s) at event %d: %s" % (
            r.violated, r.state("bad"), l, json.dumps(at)[:900]), cases[i])


def p06(chk, bindir):
    rng, cases, n = chk.rng, [], 0
    batches = []

    def add(names, opts, primary, sizes=None):
        ms = [module(rng, x, None if sizes is None else sizes[i]) for i, x in enumerate(names)]
        return {"modules": ms, "opts": opts, "primary": primary, "script": {"size": rng.randint(0, 200), "seed": rng.getrandbits(20)}}
    uid = [0]

    def u(x=""):
        uid[0] += 1
        return "n%d%s" % (uid[0], x)
    # every single option, every pair, all, all but one
    sets = [[o] for o in OPTS] + [[a, b] for i, a in enumerate(OPTS) for b in OPTS[i + 1:]] + \
           [OPTS] + [[o for o in OPTS if o != x] for x in OPTS]
    for _ in range(1500 if chk.thorough else 120):
        sets.append([o for o in OPTS if rng.random() < rng.choice([0.1, 0.5, 0.9])])
    for s in sets:
        k = rng.choice([1, 1, 2, 3])
        batches.append(add([u() for _ in range(k)], s, rng.random() < 0.5))
    # shapes: number of modules, primary or not, sizes, equal contents, equal names, odd names
    for k in list(range(1, 9)) + [20, 60]:
        for pr in (False, True):
            batches.append(add([u() for _ in range(k)], [], pr))
    for x in NAMES + ODD:
        batches.append(add([u(), x, u(), x], ["multimemory"], rng.random() < 0.5))
        batches.append(add([u() + x, x], [], True))
    for sz in [0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 200000, 1048577] + ([5000000] if chk.thorough else []):
        batches.append(add([u(), u()], [], rng.random() < 0.5, [sz, rng.choice([0, 1, sz])]))
    for _ in range(2500 if chk.thorough else 200):
        k = rng.randint(1, 7)
        batches.append(add([u(rng.choice(NAMES)) if i == 0 else rng.choice(NAMES + [u()]) for i in range(k)],
                           [o for o in OPTS if rng.random() < 0.3], rng.random() < 0.5))
    per = 40
    for i in range(0, len(batches), per):
        part = batches[i:i + per]
        cases.append(observe(chk, bindir, n, [{"threads": [part[j::4] for j in range(4) if part[j::4]]}]))
        n += 1
    # one request made again and again, alone and among others that share names and contents with it
    for _ in range(40 if chk.thorough else 6):
        ks = [u(), "env", rng.choice(NAMES)]
        one = add(ks, [rng.choice(OPTS)], rng.random() < 0.5)
        todo = []
        for _ in range(rng.randint(2, 5)):
            todo.append(dict(one, script={"size": rng.randint(0, 200), "seed": rng.getrandbits(20)}))
            near = add(ks, one["opts"], one["primary"])
            near["modules"][:2] = one["modules"][:2]
            near["modules"][2] = dict(near["modules"][2], content={"seed": rng.getrandbits(30), "size": rng.randint(20, 3000)})
            todo.append(near)
            todo.append(dict(one, opts=[rng.choice(OPTS)], script={"size": 5, "seed": rng.getrandbits(20)}))
        rng.shuffle(todo)
        cases.append(observe(chk, bindir, n, [{"threads": [todo]}]))
        n += 1
    # temporary directories of any name
    for x in TMPS:
        cases.append(observe(chk, bindir, n, [{"threads": [[add([u(), rng.choice(ODD)], ["threads"], rng.random() < 0.5) for _ in range(3)]]}], tmpname=x))
        n += 1
    chk.count("names", len(NAMES + ODD))
    chk.count("temporary_directories", len(TMPS))
    # no modules at all, and the empty name first (its script file is the one of no name)
    for names, pr in (([], False), ([""], True), (["", ""], False)):
        cases.append(observe(chk, bindir, n, [{"threads": [[add(names, [], pr)]]}]))
        n += 1
    chk.count("requests", len(batches) + 3)
    chk.count("option_sets", len(sets))
    chk.sample({k: batches[30][k] for k in ("modules", "opts", "primary")})
    return cases


def scripts(rng):
    """Tool behaviours: what is written, when, and how the tool ends."""
    S = []
    for write in ("full", "empty", "partial", "none"):
        for end in ({}, {"exit": 1}, {"exit": 255}, {"signal": 9}, {"signal": 15}, {"signal": 6}):
            for diag in ({}, {"stderr": "Fatal: boom\n"}, {"stderr": "warning: x", "stderr_first": True}):
                S.append(dict({"write": write, "size": rng.choice([0, 10, 5000])}, **end, **diag))
    for e in (2, 3, 100, 126, 127, 128, 130, 137):
        S.append({"exit": e, "size": 10})
    for d in ("\n", " ", "\t", "é\n", "x" * 300, "a\nb\nc\n", "%s {} \\", "'"):
        S.append({"stderr": d, "size": 10})
        S.append({"stderr": d, "exit": 1, "write": "none"})
    for n in (1, 65536, 300000):
        S.append({"stderr_size": n, "size": 50})
        S.append({"stderr_size": n, "exit": 1, "write": "none", "stderr_first": True})
        S.append({"stdout_size": n, "size": 50})
        S.append({"stdout_size": n, "stderr_size": n, "size": 70000, "exit": 1})
        S.append({"stdout_size": n, "stderr_size": n, "size": 70000, "stderr_first": True})
    for n in (1, 4095, 4096, 8192, 65536, 65537, 1000000, 3000000):
        S.append({"size": n})
    S.append({"read_stdin": True, "size": 10})
    S.append({"delay": 300, "size": 10})
    S.append({"delay2": 300, "size": 10, "exit": 1})
    S.append({"delay2": 200, "size": 10})
    return S


def p07(chk, bindir):
    rng, cases, n = chk.rng, [], 0
    uid = [0]

    def m(script, k=None, fault="none", sizes=None):
        uid[0] += 1
        k = rng.choice([1, 2, 3]) if k is None else k
        s = dict(script)
        s["seed"] = rng.getrandbits(20)
        return {"modules": [module(rng, "q%dx%d" % (uid[0], i), None if sizes is None else sizes[i]) for i in range(k)],
                "opts": [o for o in OPTS if rng.random() < 0.1],
                "primary": rng.random() < 0.5, "script": s, "fault": fault}
    S = []
    for _ in range(12 if chk.thorough else 2):
        S += scripts(rng)
    ms = [m(s) for s in S]
    for i in range(0, len(ms), 40):
        part = ms[i:i + 40]
        cases.append(observe(chk, bindir, n, [{"threads": [part[j::4] for j in range(4)]}]))
        n += 1
    faults = 0

    def fault(before, k=2, plan=None, sizes=None, script=None):
        nonlocal n, faults
        x = m(script or {"size": 10}, k, "any", sizes)
        pl = dict({"threads": [[x]]}, **(plan or {}))
        cases.append(observe(chk, bindir, n, [pl], before_run=before))
        n += 1
        faults += 1
    # no tool, no shell and no tool, an unusable tool, no temporary directory
    for k in (0, 1, 3):
        fault(lambda sc: (os.unlink(os.path.join(sc.bin, "wasm-merge")), {})[1], k)
        fault(lambda sc: {"path": sc.bin + "/nothing"}, k)
        fault(lambda sc: {"tmp": sc.root + "/absent"}, k)
        fault(lambda sc: {"tmp": sc.root + "/plan0.json"}, k)

    def noexec(sc):
        p = os.path.join(sc.bin, "wasm-merge")
        os.unlink(p)
        with open(p, "w") as f:
            f.write("#!/bin/sh\n")
        os.chmod(p, 0o644)
        return {}
    fault(noexec, 2)
    # a name no process can be given
    for x in ("\0", "a\0b", "\0\0", "nul\0"):
        uid[0] += 1
        k = m({"size": 10}, 2, "any")
        k["modules"][rng.choice([0, 1])]["name"] = "q%d%s" % (uid[0], x)
        cases.append(observe(chk, bindir, n, [{"threads": [[k]]}]))
        n += 1
        faults += 1
    # every point at which descriptors run out; every module that is the first too big to write
    for lim in range(3, 16):
        fault(lambda sc: {}, 6, {"nofile": lim})
    for pos in range(4):
        sz = [100, 100, 100, 100]
        sz[pos] = 90000
        fault(lambda sc: {}, 4, {"fsize": 40000}, sz)
    fault(lambda sc: {}, 1, {"fsize": 40000}, [10], {"size": 90000})
    # the order of the behaviours in time: a failing tool before and after a succeeding one
    for a in ({"exit": 1}, {"signal": 9}, {"stderr": "x"}):
        cases.append(observe(chk, bindir, n, [{"threads": [[m(a, 2), m({"size": 99}, 2), m(a, 1)]]}]))
        n += 1
    # the names and the contents stay, the tool changes its mind
    for _ in range(30 if chk.thorough else 6):
        todo, first = [], m({"size": 50}, 3)
        for _ in range(6):
            k = m(rng.choice(scripts(rng) + [{"write": "none"}, {"write": "none"}, {"size": 5}, {"size": 900}]), 3)
            for a, b in zip(k["modules"], first["modules"]):
                a["name"] = b["name"]
            if rng.random() < 0.6:
                k["modules"] = first["modules"]
            k["primary"] = first["primary"]
            todo.append(k)
        cases.append(observe(chk, bindir, n, [{"threads": [todo]}]))
        n += 1
    chk.count("tool_behaviours", len(S))
    chk.count("resource_faults", faults)
    chk.sample(S[7])
    return cases


def p08(chk, bindir):
    rng, cases, n = chk.rng, [], 0
    uid = [0]

    def m(**script):
        uid[0] += 1
        s = dict({"size": rng.choice([0, 10, 3000, 70000]), "seed": rng.getrandbits(20),
                  "delay": rng.choice([0, 0, 1, 5, 20]), "delay2": rng.choice([0, 0, 1, 5, 20])}, **script)
        k = rng.choice([1, 2, 3, 5])
        same = rng.random() < 0.3
        ms = [module(rng, "r%dx%d" % (uid[0], i) if i == 0 else rng.choice(["env", "r%dy" % uid[0]])) for i in range(k)]
        if rng.random() < 0.5:
            # the names every use of the crate in this repository gives, and contents in common with other merges
            for i, (x, y) in enumerate(zip(ms, ["wastrumented_input", "WASTRUMENTATION_STACK_LIBRARY", "WASTRUMENTATION_ANALYSIS"])):
                x["name"] = y
                if rng.random() < 0.5:
                    x["content"] = {"seed": i, "size": 500}
            ms[rng.randrange(len(ms))]["content"] = {"seed": rng.getrandbits(30), "size": rng.choice([30, 500, 40000])}
            same = False
        if same:  # modules of equal size in all merges: mixing them up would go unnoticed by size
            for x in ms:
                x["content"]["size"] = 64
        return {"modules": ms, "opts": [], "primary": rng.random() < 0.5, "script": s}
    endings = [{}, {}, {}, {}, {"exit": 1}, {"signal": 9}, {"stderr": "no"}, {"write": "none"}, {"write": "partial", "exit": 2}]
    rounds = 60 if chk.thorough else 8
    total = 0
    for r in range(rounds):
        procs = rng.choice([1, 1, 2, 3])
        plans = []
        for _ in range(procs):
            plans.append({"threads": [[m(**rng.choice(endings)) for _ in range(rng.randint(1, 6))]
                                      for _ in range(rng.choice([2, 4, 8]))]})
        total += sum(len(t) for p in plans for t in p["threads"])
        cases.append(observe(chk, bindir, n, plans))
        n += 1
    # one request made by many at once
    for r in range(20 if chk.thorough else 4):
        one = m(**rng.choice([{}, {}, {"exit": 1}, {"stderr": "no"}]))
        one["twin"] = True
        cases.append(observe(chk, bindir, n, [{"threads": [[one] * rng.randint(1, 4) for _ in range(rng.choice([2, 4, 6]))]} for _ in range(rng.choice([1, 1, 2]))]))
        total += sum(len(t) for p in cases[-1]["plan"] for t in p["threads"])
        n += 1
    # alone, each ending, and each resource fault: nothing left
    for e in endings[3:]:
        cases.append(observe(chk, bindir, n, [{"threads": [[m(**e), m(**e)]]}]))
        n += 1
    for lim in range(3, 16, 1 if chk.thorough else 2):
        x = m()
        x["modules"] = [module(rng, "l%dx%d" % (n, i)) for i in range(6)]
        x["fault"] = "any"
        cases.append(observe(chk, bindir, n, [{"threads": [[x]], "nofile": lim}]))
        n += 1
    for pos in range(3):
        x = m(size=10)
        x["modules"] = [module(rng, "k%dx%d" % (n, i), 90000 if i == pos else 50) for i in range(3)]
        x["fault"] = "any"
        cases.append(observe(chk, bindir, n, [{"threads": [[x]], "fsize": 40000}]))
        n += 1
    x = m()
    x["fault"] = "any"
    cases.append(observe(chk, bindir, n, [{"threads": [[x]]}],
                         before_run=lambda sc: (os.unlink(os.path.join(sc.bin, "wasm-merge")), {})[1]))
    chk.count("concurrent_merges", total)
    chk.sample({"events": [{k: v for k, v in e.items() if k in ("ev", "p", "kind")} for e in cases[0]["events"][:12]]})
    return cases


def main(prop, tier):
    chk = C.Check(prop, tier)
    bindir = C.build("lite")
    mc(chk)
    cases = {"P06": p06, "P07": p07, "P08": p08}[prop](chk, bindir)
    judge(chk, cases)
    chk.assumptions += ["the external tool is a stand-in that records its invocation and behaves as scripted",
                        "the tool writes its output in place (as the real tool does), not by renaming another file over it"]
    return chk.finish()
