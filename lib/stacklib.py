"""P18: the generated buffer libraries, against spec/StackLib.tla."""
import copy, itertools, os, random, struct
import ascript, core, wasmbuild
from common import *
from corecheck import Reporter
from opcodes import operands
from wasmgen import SIZE, le

T = ["i32", "i64", "f32", "f64"]
CODE = {"i32": 0, "f32": 1, "i64": 2, "f64": 3}
MC_SIGS = [{"r": [], "a": []}, {"r": ["i32"], "a": ["i64", "f32"]}, {"r": ["f64", "f32"], "a": []}]


def value(rng, t):
    n = SIZE[t]
    x = rng.random()
    if x < 0.3:
        return rng.choice(operands(t))
    if x < 0.4:
        return [255] * n
    if x < 0.5:  # a NaN with a payload, for floating point
        return [rng.getrandbits(8) for _ in range(n - 2)] + [0xa0 | rng.getrandbits(4), 0x7f | rng.choice([0, 128])]
    return [rng.getrandbits(8) for _ in range(n)]


def signatures(rng, lang, thorough):
    res = list(MC_SIGS)
    one = [[]] + [[t] for t in T]
    res += [{"r": r, "a": a} for r in one for a in one]
    res += [{"r": [], "a": list(a)} for a in itertools.product(T, repeat=2)]
    res += [{"r": list(a), "a": []} for a in itertools.product(T, repeat=2)]
    res += [{"r": ["i32", "f64"], "a": ["f64", "i32"]}, {"r": ["f64", "i32"], "a": ["i32", "f64"]}, {"r": T, "a": T[::-1]}, {"r": T[::-1], "a": T}]
    res += [{"r": ["i32"], "a": ["i32"] * 2}, {"r": ["i32"] * 2, "a": ["i32"]}, {"r": [], "a": ["i32"] * 3}, {"r": ["i32"] * 3, "a": []}]
    for _ in range(24 if thorough else 12):
        res.append({"r": [rng.choice(T) for _ in range(rng.randrange(5))], "a": [rng.choice(T) for _ in range(rng.randrange(9))]})
    res.append({"r": [rng.choice(T) for _ in range(13)], "a": [rng.choice(T) for _ in range(27)]})
    big = 120 if lang != "rust" else 60
    res.append({"r": [T[i % 4] for i in range(big // 3)], "a": [T[(i * 3 + i // 7) % 4] for i in range(big)]})
    return res


def shuffled(rng, sigs):
    """The same signatures in another order, some of them twice."""
    order = list(sigs) + rng.sample(sigs, len(sigs) // 3)
    rng.shuffle(order)
    return order


class Script:
    def __init__(self, rng, sigs):
        self.rng, self.sigs, self.live, self.ops = rng, sigs, [], []

    def sig(self, s):
        return self.sigs[s - 1]

    def alloc(self, s):
        self.ops.append({"op": "alloc", "s": s, "v": [value(self.rng, t) for t in self.sig(s)["a"]]})
        self.live.append(("values", s))

    def talloc(self, s):
        self.ops.append({"op": "talloc", "s": s})
        self.live.append(("types", s))

    def free(self):
        k, s = self.live.pop()
        self.ops.append({"op": "free" if k == "values" else "tfree", "s": s})

    def slots(self, b):
        g = self.sig(self.live[b - 1][1])
        return g["r"] + g["a"]

    def store(self, b, i, generic=None):
        s = self.live[b - 1][1]
        g = self.sig(s)
        t = self.slots(b)[i]
        generic = self.rng.random() < 0.4 if generic is None else generic
        if generic:
            t = t if self.rng.random() < 0.8 else self.rng.choice(T)
            self.ops.append({"op": "gstore", "b": b, "i": i, "t": t, "v": value(self.rng, t)})
        else:
            n = len(g["r"])
            self.ops.append({"op": "store", "s": s, "b": b, "side": "ret" if i < n else "arg", "i": i if i < n else i - n, "t": t, "v": value(self.rng, t)})

    def rets(self, b):
        s = self.live[b - 1][1]
        self.ops.append({"op": "rets", "s": s, "b": b, "v": [value(self.rng, t) for t in self.sig(s)["r"]]})

    def read(self, b, i):
        k, s = self.live[b - 1]
        if k == "types":
            self.ops.append({"op": "type", "b": b, "i": i})
            return
        g = self.sig(s)
        t = self.slots(b)[i]
        if self.rng.random() < 0.5:
            self.ops.append({"op": "gload", "b": b, "i": i, "t": t if self.rng.random() < 0.9 else self.rng.choice(T)})
        else:
            n = len(g["r"])
            self.ops.append({"op": "load", "s": s, "b": b, "side": "ret" if i < n else "arg", "i": i if i < n else i - n, "t": t})

    def look(self, share=1.0):
        for b in range(1, len(self.live) + 1):
            for i in range(len(self.slots(b))):
                if self.rng.random() < share:
                    self.read(b, i)

    def churn(self, s, n):
        self.ops.append({"op": "churn", "s": s, "n": n, "v": [value(self.rng, t) for t in self.sig(s)["a"]]})

    def unwind(self, share=0.3):
        while self.live:
            self.free()
            self.look(share)


def from_model(rng, sigs, hist):
    """A history enumerated by TLC."""
    x = Script(rng, sigs)
    for h in hist:
        if h["o"] == "alloc":
            x.alloc(h["s"])
        elif h["o"] == "talloc":
            x.talloc(h["s"])
        elif h["o"] == "store":
            x.store(h["b"], h["i"] - 1)
        elif h["o"] == "rets":
            x.rets(h["b"])
        else:
            x.free()
        x.look(0.3)
    x.look()
    x.unwind()
    return x.ops


def random_history(rng, sigs, length):
    x = Script(rng, sigs)
    few = [rng.randrange(1, len(sigs) + 1) for _ in range(rng.randrange(1, 6))]
    depth = rng.choice([3, 6, 12])
    for _ in range(length):
        r = rng.random()
        if x.live and (r < 0.2 or len(x.live) > depth):
            x.free()
        elif r < 0.5 or not x.live:
            s = rng.choice(few)
            (x.alloc if rng.random() < 0.7 else x.talloc)(s)
        else:
            b = rng.randrange(1, len(x.live) + 1)
            if x.live[b - 1][0] == "values" and x.slots(b):
                if rng.random() < 0.25:
                    x.rets(b)
                else:
                    x.store(b, rng.randrange(len(x.slots(b))))
        x.look(rng.choice([0, 0.2]) if len(x.live) < 8 else 0.05)
    x.look()
    x.unwind()
    return x.ops


def deep_history(rng, sigs, pages):
    """Buffers beyond several pages, and back."""
    x = Script(rng, sigs)
    total = 0
    big = sorted(range(1, len(sigs) + 1), key=lambda s: -len(sigs[s - 1]["a"]) - len(sigs[s - 1]["r"]))[:3]
    while total < pages * 65536:
        s = rng.choice(big[:1] * 6 + big)
        x.alloc(s)
        total += 8 * (len(sigs[s - 1]["a"]) + len(sigs[s - 1]["r"]))
        if rng.random() < 0.3:
            x.talloc(rng.randrange(1, len(sigs) + 1))
        if rng.random() < 0.3:
            x.alloc(rng.randrange(1, len(sigs) + 1))
    x.look(0.2)
    for _ in range(60):
        b = rng.randrange(1, len(x.live) + 1)
        if x.live[b - 1][0] == "values" and x.slots(b):
            x.store(b, rng.randrange(len(x.slots(b))))
    x.look(0.1)
    while x.live:
        x.free()
        if rng.random() < 0.05:
            x.look(0.01)
    return x.ops


def churn_history(rng, sigs, n):
    x = Script(rng, sigs)
    for s in range(1, len(sigs) + 1):
        if rng.random() < 0.5:
            x.alloc(rng.randrange(1, len(sigs) + 1))
        x.churn(s, n if len(sigs[s - 1]["a"]) < 10 else n // 10)
        x.look(0.3)
        if x.live and rng.random() < 0.5:
            x.free()
    x.unwind()
    return x.ops


def enumerate_histories(check, limit):
    r = tlc("StackLibMC", "SPECIFICATION Spec\nINVARIANTS Found Exact\nPROPERTY Restores\nCHECK_DEADLOCK FALSE\n", check.work, extra_env={"LIMIT": str(limit)}, timeout=800, heap="12g")
    if r.violated:
        raise ToolError("StackLibMC broke its own property " + r.violated)
    check.add_tlc(r)
    res = [h for h in r.printed("HIST")]
    res.sort(key=lambda h: json.dumps(h))
    check.count("histories_enumerated", len(res))
    return res


def libraries(check, rng):
    """(language, signatures, case for the harness) for each library that could be made ready to run."""
    binary, tool = check.harness
    rep = check.reporter
    res = []
    for lang in ("wat", "as", "rust"):
        for round_ in range(1 if lang == "rust" else (3 if check.thorough else 2)):
            sigs = signatures(rng, lang, check.thorough)
            order = shuffled(rng, sigs)
            g = core.run_cases(binary, tool, [{"lang": lang, "sigs": order}], check.work, command="libgen")[0]
            if "error" in g:
                rep.report("no %s buffer library is generated: %s" % (lang, g["error"][:400]), {"signatures": order})
                continue
            case = {"names": g["names"]}
            try:
                if lang == "wat":
                    t = g["text"].rstrip()
                    case["text"] = t[:-1] + '\n(export "vp_memory" (memory 0)))' if t.endswith(")") else t
                elif lang == "as":
                    case["text"] = ascript.compile_text(g["text"])
                else:
                    case["wasm"] = os.path.join(check.work, "lib%d.wasm" % round_)
                    with open(case["wasm"], "wb") as f:
                        f.write(rust_library(g))
            except ascript.Unsupported as e:
                print("the AssemblyScript library uses what this check's compiler does not know and is not checked: %s" % e)
                continue
            except (ToolError, OSError) as e:
                if rust_works(check):
                    rep.report("the Rust buffer library does not compile: " + str(e)[-600:], {"signatures": order, "text": g["text"]})
                else:
                    print("no Rust code could be compiled; the Rust library is not checked")
                continue
            res.append((lang, order, case))
            check.count("libraries_" + lang)
    return res


def rust_library(g):
    m = re.search(r'package\.name\s*=\s*"([^"]+)"|name\s*=\s*"([^"]+)"', g["manifest"])
    name = m.group(1) or m.group(2)

    def populate(src):
        d = os.path.join(src, name)
        os.makedirs(os.path.join(d, "src"))
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(g["manifest"])
        with open(os.path.join(d, "src", "lib.rs"), "w") as f:
            f.write(g["text"])
    return wasmbuild.compile_crate(name, populate)


def rust_works(check):
    try:
        wasmbuild.analysis("forward")
        return True
    except (ToolError, OSError):
        return False


def judge(check, cases, name="l"):
    f = dump(os.path.join(check.work, name + "-lib.json"), cases)
    r = tlc("StackLibTrace", "SPECIFICATION Spec\nINVARIANTS Shape RoomLeft\nVIEW View\nCHECK_DEADLOCK FALSE\n", check.work, extra_env={"CASES": f}, timeout=800, heap="14g", name=name)
    if r.violated:
        raise ToolError("StackLibTrace: " + r.violated)
    res = {x["case"]: x for x in r.printed("LIB")}
    if len(res) != len(cases):
        raise ToolError("TLC judged %d of %d histories" % (len(res), len(cases)))
    check.add_tlc(r)
    os.remove(f)
    return [res[i + 1] for i in range(len(cases))]


def self_test(check, good):
    """Histories with one wrong answer must be refused."""
    rng, bad = check.rng, []
    for c in good:
        c = copy.deepcopy(c)
        live, reads = [], []
        for k, e in enumerate(c["log"]):
            if e["op"] in ("alloc", "talloc"):
                g = c["sigs"][e["s"] - 1]
                live.append({i + len(g["r"]): t for i, t in enumerate(g["a"])} if e["op"] == "alloc" else {i: 0 for i in range(len(g["r"]) + len(g["a"]))})
            elif e["op"] in ("free", "tfree"):
                live.pop()
            elif e["op"] in ("store", "gstore", "load", "gload", "type"):
                i = e["i"]
                if e["op"] in ("store", "load") and e["side"] == "arg":
                    i += len(c["sigs"][e["s"] - 1]["r"])
                if e["op"] in ("store", "gstore"):
                    live[e["b"] - 1][i] = e["t"]
                elif e["op"] == "type" or live[e["b"] - 1].get(i) == e["t"]:
                    reads.append(k)
            elif e["op"] == "rets":
                for i, t in enumerate(c["sigs"][e["s"] - 1]["r"]):
                    live[e["b"] - 1][i] = t
        if not reads:
            continue
        e = c["log"][rng.choice(reads)]
        if e["op"] == "type":
            e["r"] = (e["r"] + 1) % 4
        else:
            k = rng.randrange(len(e["r"][1]))
            e["r"][1][k] ^= 1 << rng.randrange(8)
        bad.append(c)
    v = judge(check, bad, "self")
    if any(not x["bad"] for x in v):
        raise ToolError("a corrupted history was accepted")
    check.count("corrupted_histories_rejected", len(v))


def p18(check):
    rng, rep = check.rng, check.reporter
    binary, tool = check.harness
    hists = enumerate_histories(check, 6 if check.thorough else 5)
    libs = libraries(check, rng)
    items = []
    for lang, sigs, case in libs:
        index = [sigs.index(s) + 1 for s in MC_SIGS]
        pick = rng.sample(hists, min(len(hists), 4500 if check.thorough else 1500))
        runs = [from_model(rng, sigs, [dict(h, s=index[h["s"] - 1]) for h in q]) for q in pick]
        runs += [random_history(rng, sigs, rng.choice([10, 40, 120])) for _ in range(450 if check.thorough else 150)]
        runs += [deep_history(rng, sigs, rng.choice([1.2, 2.5, 4])) for _ in range(8 if check.thorough else 4)]
        runs += [churn_history(rng, sigs, 40000 if check.thorough else 20000)]
        rng.shuffle(runs)
        for at in range(0, len(runs), 250):
            items.append((lang, sigs, dict(case, runs=runs[at:at + 250])))
    results = core.run_cases(binary, tool, [c for _, _, c in items], check.work, command="librun")
    records = []
    for (lang, sigs, case), r in zip(items, results):
        if "error" in r:
            rep.report("the %s buffer library %s" % (lang, r["error"][:400]), {"signatures": sigs})
            continue
        for x in r["logs"]:
            records.append({"lang": lang, "sigs": sigs, "log": x["log"], "pages": x["pages"]})
    check.count("calls_into_libraries", sum(len(r["log"]) for r in records))
    for at in range(0, len(records), 4000):
        part = records[at:at + 4000]
        verdicts = judge(check, part)
        for v, c in zip(verdicts, part):
            check.count("histories_" + c["lang"])
            if v["bad"] == "script":
                raise ToolError("a script broke the discipline: %s" % c["log"][v["at"] - 1])
            if v["bad"]:
                e = c["log"][v["at"] - 1]
                rep.report("%s library: %s %s (%s)" % (c["lang"], describe(e, c["sigs"]), v["bad"], e.get("error", "")[:300]),
                           {"lang": c["lang"], "signatures": c["sigs"], "history": c["log"][:v["at"]]})
            else:
                check.traces(1)
        if at == 0:
            good = [c for v, c in zip(verdicts, part) if not v["bad"] and len(c["log"]) < 300]
            if good:
                self_test(check, good[:200])
                check.sample({"history": good[0]["log"][:8]})


def describe(e, sigs):
    s = ""
    if "s" in e:
        g = sigs[e["s"] - 1]
        s = " of (%s)->(%s)" % (" ".join(g["a"]), " ".join(g["r"]))
    return "%s%s%s" % (e["op"], (" %s %d" % (e.get("side", "slot"), e["i"])) if "i" in e else "", s[:200])


def main(prop, tier):
    check = Check(prop, tier)
    check.assumptions = ["buffers are given back in reverse order of allocation",
                         "the AssemblyScript library is translated by lib/ascript.py, not by the AssemblyScript compiler; wee_alloc is replaced by a stand-in that checks layouts",
                         "signatures hold no references: functions with references in their signature are never intercepted"]
    check.harness = core.harness()
    check.reporter = Reporter(check)
    p18(check)
    return check.finish()
