"""P25: the shipped analyses, against spec/Reports.tla and spec/Machine.tla."""
import copy, random
import core, wasmbuild, wasmgen
from common import *
from corecheck import Reporter, case_of, describe, failed, many_calls, operator_cases, random_cases, strat, targets_of
from wasmgen import le

ALL = ["IfThen", "IfThenPost", "IfThenElse", "IfThenElsePost", "Branch", "BranchIf", "BranchTable", "Select", "CallPre", "CallPost", "CallIndirectPre",
       "CallIndirectPost", "Unary", "Binary", "Drop", "Return", "Const", "Local", "Global", "Store", "Load", "MemorySize", "MemoryGrow", "BlockPre",
       "BlockPost", "LoopPre", "LoopPost"]


def needs(work, check):
    """The hooks every analysis needs and the sizes of the exhaustive exploration, from the specification."""
    cfg = "SPECIFICATION Spec\nINVARIANTS Agree Bytes Depths\nCHECK_DEADLOCK FALSE\n"
    r = tlc("ReportsMC", cfg, work, extra_env={"SIZE": "5" if check.thorough else "3"}, timeout=800, heap="12g")
    if r.violated:
        raise ToolError("ReportsMC broke its own invariant " + r.violated)
    check.add_tlc(r)
    found = {x["an"]: sorted(x["hooks"]) for x in r.printed("NEEDS")}
    if set(found) != set(wasmbuild.SHIPPED_NAMES):
        raise ToolError("the specification knows the analyses " + str(sorted(found)))
    return found


def questions(an, p, rng):
    """Everything an analysis can be asked about this program: (name, types, values)."""
    spots = [(f, i) for f, x in enumerate(p["fn"]) if not x["imp"] for i in range(len(x["body"]))] + [(len(p["fn"]), 0), (0, 250)]
    spots = spots if len(spots) < 90 else rng.sample(spots, 90)
    two = ["i64", "i64"]
    if an in ("branches", "coverage-branch", "coverage-instruction"):
        return [("get_coverage", two, s) for s in spots]
    if an == "block-profiling":
        return [("get_count", two + ["i32"], (f, i, t)) for f, i in spots for t in (0, 1, rng.choice([2, 3, 7, -1]))]
    if an == "call-graph":
        return [("get_total_edges", [], ())] + [(n, ["i32"], (k,)) for k in range(12) for n in ("get_from_at", "get_to_at")]
    if an == "call-stack-eq-wasabi":
        return [(n, [], ()) for n in ("get_number_of_calls", "get_max_call_depth", "get_call_stack")]
    if an == "call-stack-wastrumentation":
        return [(n, [], ()) for n in ("get_number_of_calls", "get_max_call_depth", "get_number_of_applies", "get_max_apply_depth")]
    if an == "cryptominer-detection":
        return [("get_signature", ["i32"], (i,)) for i in range(5)]
    if an == "globals":
        return [("get_inc", ["i64", "i32"], (g, k)) for g in range(len(p["gl"]) + 1) for k in (0, 1, 2)]
    if an == "icount":
        return [("total_instrs", [], ()), ("total_counted_fs", [], ())] + [("get_count_for", ["i64", "i32"], (f, k)) for f in range(len(p["fn"]) + 1) for k in range(28)]
    if an == "opcodes":
        return [("total_instrs", [], ())] + [("get_count_instr", ["i32"], (k,)) for k in range(28)]
    if an == "loops":
        return [("total_counted_loops", [], ())] + [("get_count_for", two, s) for s in spots]
    if an == "memory-tracing":
        return [("total_accesses", [], ()), ("get_total_accesses_from_buffer", [], ())] + \
               [(n, ["i32"], (k,)) for k in range(rng.choice([10, 30])) for n in ("get_nth_funct_index", "get_nth_instr_index", "get_nth_address", "get_nth_operation")]
    if an == "memstats":
        at = sorted(set(list(range(40)) + [rng.randrange(70000) for _ in range(20)] + list(range(65528, 65540))))
        return [(n, ["i32"], (b,)) for b in at for n in ("get_read_at", "get_write_at")]
    return []


def in_reach(log):
    """No access is so far outside of the memory that an analysis that keeps something per byte runs out of its own."""
    for e in log:
        if e["k"] == "ev" and e["n"].startswith("trap_") and (e["n"].endswith("_load") or e["n"].endswith("_store")):
            if e["a"][0][3] or any(e["a"][-4][3:]):
                return False
    return True


def judge(cases, work, name="r"):
    f = dump(os.path.join(work, name + "-reports.json"), cases)
    r = tlc("ReportsTrace", "SPECIFICATION Spec\nINVARIANT Fits\nCHECK_DEADLOCK FALSE\n", work, extra_env={"CASES": f}, timeout=800, heap="10g", name=name)
    if r.violated:
        raise ToolError("the tallies of a recorded history do not fit together\n" + r.out[-2000:])
    res = {x["case"]: x for x in r.printed("REPORT")}
    if len(res) != len(cases):
        raise ToolError("TLC judged %d of %d reports" % (len(res), len(cases)))
    os.remove(f)
    return [res[i + 1] for i in range(len(cases))], r


def self_test(check, good):
    """A wrong answer must be noticed, and so must a lost notification where it matters."""
    rng, bad = check.rng, []
    for c in rng.sample(good, min(40, len(good))):
        c = copy.deepcopy(c)
        own = [q for q in c["qs"] if not q["t"] and not q["q"].endswith("_at")] if c["an"] == "call-graph" else [q for q in c["qs"] if not q["t"]]
        if not own:
            continue
        q = rng.choice(own)
        q["r"][0] = (q["r"][0] + 1) % 256
        bad.append(c)
    if not bad:
        return
    v, t = judge(bad, check.work, "self")
    if any(not x["bad"] or not x["exchanged"] for x in v):
        raise ToolError("a corrupted answer of an analysis was accepted")
    check.count("corrupted_answers_rejected", len(v))


def programs(check, n):
    rng = check.rng
    res = random_cases(check, n, refs=0, size=rng.choice([14, 20]))
    # all operators in one run if only they (or only accesses) are reported, and a few at a time
    return res + many_calls(check, max(2, n // 12)) + operator_cases(check, 10 if check.thorough else 2, 1000) + operator_cases(check, 6 if check.thorough else 1, rng.choice([15, 30]))


def small_memory(p):
    for f in p["fn"]:
        for ins in f["body"]:
            if "off" in ins:
                ins["off"][3] &= 127  # the compiled library cannot take larger offsets
    return p


def p25(check):
    rng, rep = check.rng, check.reporter
    binary, tool = check.harness
    want = needs(check.work, check)
    built, why = wasmbuild.shipped()
    todo = []
    for an in sorted(want):
        if an not in built:
            if os.path.isdir(os.path.join(REPO, wasmbuild.SHIPPED, an)):
                print("the analysis %s could not be compiled and is not checked" % an)
                check.count("analyses_not_compiled")
            continue
        path = os.path.join(check.work, an + ".wasm")
        with open(path, "wb") as f:
            f.write(built[an])
        for p, calls in programs(check, 500 if check.thorough else 48):
            small_memory(p)
            qs = questions(an, p, rng)
            cfg = {"hooks": want[an], "targets": targets_of(rng, p, 0.7), "strategy": strat(rng), "analysis": path,
                   "questions": [{"q": q, "a": list(v)} for q, t, v in qs]}
            todo.append((an, p, calls * rng.choice([1, 1, 2, 3]), cfg, qs))
        check.count("analyses")
    if not built:
        print("the shipped analyses could not be compiled: " + why)
    exchanged = []
    for at in range(0, len(todo), 1500):
        part = todo[at:at + 1500]
        cases = [case_of(i, p, calls, [cfg]) for i, (_, p, calls, cfg, _) in enumerate(part)]
        res = core.run_cases(binary, tool, cases, check.work)
        runs, asked, pairs = [], [], []
        for (an, p, calls, cfg, qs), case, r in zip(part, cases, res):
            if "bad_wat" in r:
                raise ToolError("generated module refused: %s\n%s" % (r["bad_wat"], case["wat"]))
            x = r["runs"][0]
            case["configs"] = []
            if failed(x):
                rep.report("%s: a valid module could not be analysed (%s)" % (an, failed(x)[:300]), describe(p, case, cfg, {"failure": failed(x)}))
                continue
            if an in ("memstats", "taint") and not in_reach(x["log"]):
                check.count("runs_out_of_reach")
                continue
            unsafe = an == "safe-heap" and any(e.get("t") == "unreachable" and e["k"] == "ev" for e in x["log"])
            if an != "safe-heap":
                runs.append((an, p, case, cfg, x, core.tla_case(p, x["log"], cfg["hooks"], cfg["targets"], 0 if an == "denan" else 1)))
            if an != "denan" and not unsafe:
                pairs.append((an, p, case, cfg, x, r["orig"]))
            if not x["cut"]:
                told = [{"q": q["q"], "a": [le(v % 2 ** 64 if t == "i64" else v % 2 ** 32, 8 if t == "i64" else 4) for t, v in zip(ts, vs)], "r": q["r"][0] if q["r"] else [], "t": q["t"]}
                        for q, (_, ts, vs) in zip(x.get("reports", []), qs)]
                asked.append((an, p, case, cfg, x, {"an": an, "log": x["log"], "qs": told}))
        verdicts, t = core.judge([c for *_, c in runs], check.work)
        check.add_tlc(t)
        for v, (an, p, case, cfg, x, c) in zip(verdicts, runs):
            check.count("runs_" + v["st"])
            if v["st"] == "mismatch":
                got = c["log"][v["pos"] - 1] if v["pos"] <= len(c["log"]) else {"k": "none"}
                if v["info"]["class"] in ("loc",):
                    check.count("mismatches_of_other_properties")
                    continue
                rep.report("%s: the program does not run as specified under the analysis at entry %d (%s); specified %s; got %s"
                           % (an, v["pos"], v["info"]["class"], json.dumps(v["info"]["want"]), json.dumps(got)), describe(p, case, cfg, {"log": c["log"], "info": v["info"]}))
        verdicts, t = core.judge_agree([core.agree_case(x, o, [], None) for _, _, _, _, x, o in pairs], check.work)
        check.add_tlc(t)
        for v, (an, p, case, cfg, x, o) in zip(verdicts, pairs):
            check.count("pairs_" + v["st"])
            if v["st"] == "differ":
                rep.report("%s: the program behaves otherwise than without the analysis: %s instead of %s"
                           % (an, str(x["log"][v["i"] - 1:v["i"]])[:300], str(o["log"][v["j"] - 1:v["j"]])[:300]), describe(p, case, cfg, {"analysed": x["log"], "original": o["log"]}))
            else:
                check.traces(1)
        verdicts, t = judge([c for *_, c in asked], check.work)
        check.add_tlc(t)
        good = []
        for v, (an, p, case, cfg, x, c) in zip(verdicts, asked):
            check.count("answers_checked", len(c["qs"]))
            if v["bad"] and not v["exchanged"]:
                exchanged.append(describe(p, case, cfg, {"log": x["log"], "wrong": v["bad"], "finding_key": "locations-exchanged"}))
                check.traces(1)
                check.count("reports_of_" + an)
                if any(not q["t"] and any(q["r"]) for q in c["qs"]):
                    good.append(c)
                continue
            if v["bad"]:
                v = v["bad"]
                rep.report("%s answers %s; specified %s" % (an, json.dumps(v[0]["q"])[:300], json.dumps(v[0]["want"])[:200]), describe(p, case, cfg, {"log": x["log"], "wrong": v}))
            else:
                check.traces(1)
                check.count("reports_of_" + an)
                if any(not q["t"] and any(q["r"]) for q in c["qs"]):
                    good.append(c)
        if at == 0 and good:
            self_test(check, good)
            check.sample({"analysis": good[0]["an"], "log": good[0]["log"][:4], "answers": good[0]["qs"][:4]})
        if rep.full():
            break
    check.count("reports_with_exchanged_locations", len(exchanged))
    if exchanged:
        rep.report("the analysis library takes the function of a location for its instruction and the other way round", exchanged[0])


def main(prop, tier):
    check = Check(prop, tier)
    check.assumptions = ["the allocator, and crates that cannot be fetched (strum, enum-collections, circular-buffer, wee_alloc), are replaced by stand-ins (lib/wasmbuild.py)",
                         "the analyses are built in one workspace, with the features of the analysis library that any of them asks for",
                         "memories far larger than those of the programs explored are not: analyses that keep something per byte run out of memory"]
    check.harness = core.harness()
    check.reporter = Reporter(check)
    p25(check)
    return check.finish()
