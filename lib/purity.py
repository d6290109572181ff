"""P19: functions reported immutable, against spec/Purity.tla."""
import copy, random
import core
from common import *
from corecheck import Reporter
from wasmgen import OPS, le

NEUTRAL = ["nop", "i32.const 3 local.set 0", "local.get 0 i32.const 5 i32.add local.set 0", "local.get 0 drop", "i64.const -1 local.tee 1 drop",
           "local.get 0 i32.const 2 local.get 0 select local.set 0", "ref.null func ref.is_null drop", "ref.func 0 drop", "f64.const 2.5 f64.sqrt drop",
           "ref.null func ref.null func local.get 0 select (result funcref) drop", "local.get 0 i32.const 3 i32.mul local.set 0", "f32.const nan i32.reinterpret_f32 local.set 0",
           "block local.get 0 br_if 0 i32.const 4 local.set 0 end", "block block local.get 0 br_table 0 1 0 end i32.const 9 local.set 0 end", "i32.const 1 (if (result i32) (then i32.const 2) (else i32.const 3)) drop",
           "loop local.get 0 i32.const 1 i32.shr_u local.tee 0 br_if 0 end", "i32.const 0 if unreachable end", "i32.const 0 if i32.const 8 return end", "i64.const 77 i32.wrap_i64 drop"]
SHARED = {
    "global.get": ["global.get 0 drop", "global.get 0 local.set 0", "global.get 1 drop", "global.get 2 drop"],
    "global.set": ["local.get 0 global.set 0", "f64.const 1 global.set 2"],
    "load": ["i32.const 0 %s drop" % o[0] for o in OPS["LoadOps"]] + ["local.get 0 i32.load8_u local.set 0"],
    "store": ["i32.const 8 %s.const 5 %s" % (o[1], o[0]) for o in OPS["StoreOps"]],
    "memory.size": ["memory.size drop"], "memory.grow": ["i32.const 1 memory.grow drop", "i32.const 0 memory.grow local.set 0"],
    "memory.fill": ["i32.const 3 local.get 0 i32.const 2 memory.fill"], "memory.copy": ["i32.const 3 i32.const 0 i32.const 2 memory.copy"],
    "memory.init": ["i32.const 0 i32.const 0 i32.const 1 memory.init 1"], "data.drop": ["data.drop 1"],
    "table.get": ["i32.const 1 table.get 0 drop"], "table.set": ["i32.const 1 ref.null func table.set 0"], "table.size": ["table.size 0 drop"],
    "table.grow": ["ref.null func i32.const 1 table.grow 0 drop"], "table.fill": ["i32.const 0 ref.null func i32.const 1 table.fill 0"],
    "table.copy": ["i32.const 0 i32.const 1 i32.const 1 table.copy 0 0"], "table.init": ["i32.const 0 i32.const 0 i32.const 1 table.init 0 1"], "elem.drop": ["elem.drop 1"],
    "call_indirect": ["local.get 0 i32.const 0 call_indirect (type 0) drop", "local.get 0 i32.const 0 call_indirect (type 0) local.set 0"]}
WRAP = ["block %s end", "loop %s end", "i32.const 1 if %s end", "local.get 0 if %s end", "local.get 0 if %s else nop end", "local.get 0 if nop else %s end", "i32.const 0 if %s else nop end",
        "block (result i32) %s i32.const 1 end drop", "local.get 0 if (result i32) i32.const 2 else %s i32.const 1 end local.set 0", "block br 0 %s end", "block (param) block %s end end"]


def nest(rng, parts):
    """The snippets in order, some of them inside blocks, loops and branches."""
    parts = list(parts)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        if not parts:
            break
        i = rng.randrange(len(parts))
        j = min(len(parts), i + rng.choice([1, 1, 2, 4]))
        parts[i:j] = [rng.choice(WRAP) % " ".join(parts[i:j])]
    return " ".join(parts)


def build(rng, fns, exhaustive_kind=None):
    """Text of a module with these functions (imported ones first), and what it is made of."""
    out = ["(module (type (func (param i32) (result i32)))"]
    for i, f in enumerate(fns):
        if f["imp"]:
            out.append('(import "env" "h%d" (func (type 0)))' % i)
    summary = []
    for i, f in enumerate(fns):
        if f["imp"]:
            summary.append({"imp": 1, "ks": [], "cs": []})
            continue
        items = []
        ks = []
        for k in f["ks"]:
            k = rng.choice(sorted(SHARED)) if k == "load" and exhaustive_kind is None else (exhaustive_kind or k)
            ks.append(k)
            items.append(rng.choice(SHARED[k]))
        for c in f["cs"]:
            items.append(rng.choice(["local.get 0 call %d local.set 0", "local.get 0 call %d drop", "i32.const 2 call %d drop"]) % c)
            if rng.random() < 0.2:
                items.append(items[-1])
        items += [rng.choice(NEUTRAL) for _ in range(rng.choice([0, 0, 1, 3]))]
        rng.shuffle(items)
        tail = rng.choice(["local.get 0", "i32.const 6", "local.get 0 i32.const 13 i32.xor", "local.get 0 return", "unreachable"] if rng.random() < 0.5 else ["local.get 0"])
        if f["cs"] and rng.random() < 0.15:  # the last call is what the function answers
            tail = "local.get 0 call %d" % f["cs"][-1]
        guard = "local.get 0 i32.eqz if i32.const 7 return end local.get 0 i32.const 3 i32.and i32.const 1 i32.sub local.set 0" if rng.random() < 0.8 else ""
        out.append("(func (type 0) (local i64) %s %s %s)" % (guard, nest(rng, items), tail))
        summary.append({"imp": 0, "ks": ks, "cs": list(f["cs"])})
    out.append('(memory (export "mem") 1 4) (table 6 funcref) (global (export "g0") (mut i32) (i32.const 1)) (global (export "g1") i32 (i32.const 4)) (global (export "g2") (mut f64) (f64.const 2))')
    out.append('(data (i32.const 0) "\\05\\06") (data "abc") (elem (i32.const 0) func %s) (elem func 0)' % " ".join(str(i) for i in range(min(3, len(fns)))))
    for i in range(len(fns)):
        out.append('(export "f%d" (func %d))' % (i, i))
    return "\n".join(out + [")"]), summary


def first_function(text, body):
    """The module with this body for its first function."""
    lines = text.split("\n")
    i = next(i for i, l in enumerate(lines) if l.startswith("(func "))
    lines[i] = "(func (type 0) (local i64) %s local.get 0)" % body
    return "\n".join(lines)


def random_graph(rng):
    n = rng.choice([2, 5, 10, 25, 60])
    imports = rng.choice([0, 0, 1, 2]) if n > 2 else 0
    fns = [{"imp": 1 if i < imports else 0, "ks": [], "cs": []} for i in range(n)]
    own = list(range(imports, n))
    order = list(own)
    shape = rng.choice(["up", "down", "any", "cyclic", "chain", "chain-reversed", "star"])
    if shape in ("down", "chain-reversed"):
        order.reverse()
    elif shape in ("any", "cyclic", "star"):
        rng.shuffle(order)
    for p, i in enumerate(order):
        before = order[:p]
        if shape.startswith("chain"):
            fns[i]["cs"] = before[-1:]
        elif shape == "star":
            fns[i]["cs"] = before[:1] + ([rng.choice(before)] if before and rng.random() < 0.2 else [])
        else:
            fns[i]["cs"] = rng.sample(before, min(len(before), rng.choice([0, 1, 1, 2, 3])))
        if shape == "cyclic" and rng.random() < 0.15:
            fns[i]["cs"].append(rng.choice(own))
        if rng.random() < 0.1:
            fns[i]["cs"].append(i)
        if imports and rng.random() < 0.06:
            fns[i]["cs"].append(rng.randrange(imports))
        fns[i]["cs"] = sorted(set(fns[i]["cs"]))
        rng.shuffle(fns[i]["cs"])
    for i in rng.sample(own, rng.choice([0, 1, 1, 2, len(own) // 4])):
        fns[i]["ks"] = ["load"]
    return fns


def calls(rng, n):
    one = [{"f": f, "a": [le(a, 4)]} for f in range(n) for a in (0, 1, 3)]
    one = rng.sample(one, min(len(one), 16))
    two = one + one
    rng.shuffle(two)
    return two


def judge(check, cases, name="p"):
    f = dump(os.path.join(check.work, name + "-pure.json"), cases)
    r = tlc("PurityTrace", "SPECIFICATION Spec\nINVARIANT Consistent\nCHECK_DEADLOCK FALSE\n", check.work, extra_env={"CASES": f}, timeout=800, heap="14g", name=name)
    if r.violated:
        raise ToolError("PurityTrace: " + r.violated)
    res = {x["case"]: x for x in r.printed("PURE")}
    if len(res) != len(cases):
        raise ToolError("TLC judged %d of %d modules" % (len(res), len(cases)))
    check.add_tlc(r)
    os.remove(f)
    return [res[i + 1] for i in range(len(cases))]


def self_test(check, good):
    bad, rng = [], check.rng
    for c in good:
        c = copy.deepcopy(c)
        certain = set(c["reported"])
        others = [i for i in range(len(c["fns"])) if i not in certain]
        rets = [e for e in c["log"] if e["k"] == "ret"]
        k = rng.randrange(3)
        if k == 0 and others:
            i = next((i for i in others if c["fns"][i]["imp"] or c["fns"][i]["ks"]), None)
            if i is None:
                continue
            c["reported"].append(i)
        elif k == 1:
            i = next((i for i in certain if not set(c["fns"][i]["cs"]) - {i}), None)
            if i is None:
                continue
            c["reported"].remove(i)
        else:
            own = [j for j, e in enumerate(c["log"]) if e["k"] == "call" and e["f"] in certain and 0 < j and j + 2 < len(c["log"]) and c["log"][j + 2]["k"] == "state"]
            if not own:
                continue
            c["log"][rng.choice(own) + 2]["pages"] += 1
        bad.append(c)
    v = judge(check, bad, "self")
    if not bad or any(not x["bad"] for x in v):
        raise ToolError("a corrupted report was accepted")
    check.count("corrupted_reports_rejected", len(v))


def p19(check):
    rng, rep = check.rng, check.reporter
    binary, tool = check.harness
    r = tlc("PurityMC", "SPECIFICATION Spec\nINVARIANTS Sound Answer Between\nCHECK_DEADLOCK FALSE\n", check.work, extra_env={"SIZE": "3"}, timeout=800, heap="12g")
    if r.violated:
        raise ToolError("PurityMC broke its own invariant " + r.violated)
    check.add_tlc(r)
    graphs = sorted((g for g in r.printed("GRAPH")), key=lambda g: (len(g), json.dumps(g)))
    check.count("call_graphs_enumerated", len(graphs))
    progs = []
    for g in graphs if check.thorough else [x for x in graphs if len(x) < 3] + rng.sample([x for x in graphs if len(x) == 3], 2500):
        progs.append(build(rng, g))
    # every instruction of every kind, alone, in every kind of construct
    for kind in sorted(SHARED):
        for s in SHARED[kind]:
            for w in ["%s"] + WRAP:
                t, _ = build(rng, [{"imp": 0, "ks": [], "cs": []}, {"imp": 0, "ks": [], "cs": [0]}])
                t = first_function(t, w % s)
                progs.append((t, [{"imp": 0, "ks": [kind], "cs": []}, {"imp": 0, "ks": [], "cs": [0]}]))
    for s in NEUTRAL:
        for w in ["%s"] + WRAP:
            t, summary = build(rng, [{"imp": 0, "ks": [], "cs": []}])
            progs.append((first_function(t, w % s), summary))
    for _ in range(8000 if check.thorough else 1200):
        progs.append(build(rng, random_graph(rng)))
    cases = [{"wat": t} for t, _ in progs]
    reports = core.run_cases(binary, tool, cases, check.work, command="purity")
    runs = [{"id": i, "wat": t, "globals": [0, 0, 0], "start": -1, "mem": {"has": 1}, "calls": calls(rng, len(s))} for i, (t, s) in enumerate(progs)]
    logs = core.run_cases(binary, tool, runs, check.work)
    records = []
    for (t, s), rp, lg in zip(progs, reports, logs):
        if "bad_wat" in rp or "log" not in lg["orig"]:
            raise ToolError("generated module refused: %s %s\n%s" % (rp, str(lg)[:300], t))
        records.append({"fns": s, "reported": rp["reported"], "status": rp["status"], "log": lg["orig"]["log"]})
        check.count("functions", len(s))
        check.count("reported_immutable", len(rp["reported"]))
    verdicts = []
    for at in range(0, len(records), 6000):
        verdicts += judge(check, records[at:at + 6000], "p%d" % at)
    for v, c, (t, _) in zip(verdicts, records, progs):
        if v["bad"]:
            rep.report("the analysis of immutable functions %s (reported %s)" % (v["bad"], c["reported"]), {"wat": t, "record": c})
        else:
            check.traces(1)
    good = [c for v, c in zip(verdicts, records) if not v["bad"] and c["reported"]]
    if good:
        self_test(check, rng.sample(good, min(300, len(good))))
        check.sample({"functions": good[0]["fns"][:5], "reported": good[0]["reported"]})


def main(prop, tier):
    check = Check(prop, tier)
    check.assumptions = ["wasabi_wasm's reading of modules is replaced by /verif/shims/wasabi_wasm", "functions in mutual recursion may or may not be reported"]
    check.harness = core.harness()
    check.reporter = Reporter(check)
    p19(check)
    return check.finish()
