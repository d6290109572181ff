"""P20: the pipeline's requests and results, against spec/Pipeline.tla."""
import copy, random
import core, wasmgen
from common import *
from corecheck import Reporter, PLAIN_HOOKS, random_cases

REASONS = ["no such type", "line 3: expected ';'", "", "%d {} \\n \"quoted\"", "über ☃", "a\nb"]
DATA = "the wasm-merge tool is the stand-in in harness/core, which keeps what it is given"


def truncated(rng, wat_bytes):
    """Bytes that are no module."""
    return rng.choice(["", "00", "0061736d", "0061736d02000000", "0061736d0100000001", "0061736d010000000105", "7f454c46", "0061736d01000000010401600001ff"])


def reason(rng, what):
    return "%s failed because %s #%d" % (what, rng.choice(REASONS), rng.randrange(10 ** 6))


def concrete(rng, use, p):
    hooks = []
    if use["hooks"] in ("apply", "both"):
        hooks.append("GenericApply")
    if use["hooks"] in ("others", "both"):
        hooks += rng.sample(PLAIN_HOOKS, rng.choice([1, 2, 5, len(PLAIN_HOOKS)]))
    n = len(p["fn"])
    imported = [i for i, f in enumerate(p["fn"]) if f["imp"]]
    k = use["targets"]
    targets = None if k == "all" else [] if k == "nothing" else imported if k == "imports" else [n, n + 7, 4000000000] + rng.sample(range(n), rng.randrange(n)) if k == "beyond" \
        else [rng.randrange(n) for _ in range(rng.randint(1, n))]
    c = {"hooks": hooks, "targets": targets, "primary": use["primary"], "src": "analysis %d \u2603 \r\n\t%s" % (rng.randrange(10 ** 6), rng.choice(["", "}", "\\", "\0"]))}
    for s in ("analysis", "library", "merge"):
        c[s + "_fault"] = reason(rng, s) if s in use["faults"] else ""
    if "merge" in use["faults"]:
        c["merge_fault"] = c["merge_fault"].replace("\n", " ").strip()
    if "instrument" in use["faults"]:
        c["input"] = truncated(rng, None)
    return c


def judge(check, records, name="p"):
    f = dump(os.path.join(check.work, name + "-pipe.json"), records)
    r = tlc("PipelineTrace", "SPECIFICATION Spec\nINVARIANT InOrder\nCHECK_DEADLOCK FALSE\n", check.work, extra_env={"CASES": f}, timeout=800, heap="14g", name=name, trace=True)
    if r.violated:
        return None
    res = {x["case"]: x for x in r.printed("PIPE")}
    if len(res) != len(records):
        raise ToolError("TLC judged %d of %d pipelines" % (len(res), len(records)))
    check.add_tlc(r)
    os.remove(f)
    return [res[i + 1] for i in range(len(records))]


def spoil(rng, c):
    c = copy.deepcopy(c)
    m = next((e for e in c["log"] if e["k"] == "merge"), None)
    g = next((e for e in c["log"] if e["k"] == "generate"), None)
    k = rng.randrange(8)
    if k == 0 and m:
        i = rng.randrange(len(m["names"]))
        m["names"][i] += "x"
    elif k == 1 and m:
        m["parts"] = m["parts"][1:] + m["parts"][:1]
        m["names"] = m["names"][1:] + m["names"][:1]
    elif k == 2 and m:
        m["opts"] = m["opts"][1:]
    elif k == 3 and g and g["sigs"]:
        g["sigs"] = rng.choice([g["sigs"][1:], g["sigs"] + [g["sigs"][0]], g["sigs"] + ["(i32)->(never)"]])
    elif k == 4:
        c["log"].append({"k": "analysis", "src": c["src"]})
    elif k == 5:
        c["log"].pop()
    elif k == 6 and c["result"]["k"] != "instrument":
        c["result"]["text"] += "."
    elif k == 7 and m and any(i["m"] == "WASTRUMENTATION_ANALYSIS" for i in m["target"]["imports"]):
        m["target"]["imports"].remove(rng.choice([i for i in m["target"]["imports"] if i["m"] == "WASTRUMENTATION_ANALYSIS"]))
    else:
        return None
    return c


def p20(check):
    rng, rep = check.rng, check.reporter
    binary, tool = check.harness
    r = tlc("PipelineMC", "SPECIFICATION Spec\nINVARIANTS Agrees Stops Complete\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n", check.work, timeout=600)
    if r.violated:
        raise ToolError("PipelineMC broke its own " + r.violated)
    check.add_tlc(r)
    uses = sorted(r.printed("USE"), key=lambda u: json.dumps(u, sort_keys=True))
    check.count("kinds_of_use_enumerated", len(uses))
    rounds = 12 if check.thorough else 1
    todo = []
    for _ in range(rounds):
        order = list(uses)
        rng.shuffle(order)
        todo += order + [u for u in order if not u["faults"]] * 4
    programs = random_cases(check, len(todo) // 5 + 1)
    cases, at = [], 0
    for p, _ in programs:
        part = todo[at:at + 5]
        at += 5
        if part:
            cases.append(({"id": len(cases), "wat": wasmgen.to_wat(p), "uses": [concrete(rng, u, p) for u in part]}, p, part))
    for lo in range(0, len(cases), 400):
        chunk = cases[lo:lo + 400]
        res = core.run_cases(binary, tool, [c for c, _, _ in chunk], check.work, command="pipeline")
        records, src = [], []
        for (c, p, part), r in zip(chunk, res):
            if "bad_wat" in r or "invalid" in r["orig"]:
                raise ToolError("generated module refused: %s" % str(r)[:300])
            for i, (u, use, run_) in enumerate(zip(c["uses"], part, r["runs"])):
                x = {"ft": p["ft"], "fn": [f["ty"] for f in p["fn"]], "hooks": u["hooks"], "orig": r["orig"], "primary": u["primary"], "src": u["src"],
                     "faults": use["faults"], "reasons": {s: u[s + "_fault"] for s in ("analysis", "library", "merge")}, "out": "merged %d/%d" % (c["id"], i),
                     "log": run_["log"], "result": run_["result"]}
                x["all"], x["targets"] = (1, []) if u["targets"] is None else (0, u["targets"] if all(t < 2 ** 31 for t in u["targets"]) else [t for t in u["targets"] if t < 2 ** 31])
                records.append(x)
                src.append((c, u, use))
                check.count("results_" + run_["result"]["k"])
        verdicts = judge(check, records, "p%d" % lo)
        if verdicts is None:
            raise ToolError("a record outside the specification's domain")
        for v, x, (c, u, use) in zip(verdicts, records, src):
            if v["bad"]:
                rep.report("pipeline: %s (result %s)" % (v["bad"], json.dumps(x["result"])[:200]), {"wat": c["wat"], "use": u, "history": c["uses"], "log": x["log"], "result": x["result"]})
            else:
                check.traces(1)
        if lo == 0:
            good = [x for v, x in zip(verdicts, records) if not v["bad"]]
            bad = [y for y in (spoil(rng, x) for x in good) if y is not None]
            if bad:
                vs = judge(check, bad, "self")
                kept = [v for v in vs if not v["bad"]]
                check.count("corrupted_records_rejected", len(vs) - len(kept))
                if kept:
                    raise ToolError("%d corrupted records were accepted, e.g. %s" % (len(kept), json.dumps(bad[kept[0]["case"] - 1])[:800]))
                check.sample({k: good[0][k] for k in ("hooks", "primary", "faults", "result")})
        if rep.full():
            break


def main(prop, tier):
    check = Check(prop, tier)
    check.assumptions = [DATA, "wasabi_wasm is replaced by /verif/shims/wasabi_wasm; which inputs it refuses is taken from there"]
    check.harness = core.harness()
    check.reporter = Reporter(check)
    p20(check)
    return check.finish()
