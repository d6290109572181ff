"""P16: flat bodies and nested form, against spec/Nesting.tla."""
import copy, json, os, random
import core, wasmgen
from common import *
from corecheck import Reporter

EVERYTHING = r"""(module
 (type (func (param i32) (result i32)))
 (import "m" "f" (func (type 0)))
 (memory 1 3) (table 4 9 funcref) (table 2 5 externref)
 (global (mut i32) (i32.const 1)) (global (mut f64) (f64.const 2))
 (data "abc") (data "def") (elem func 0 1) (elem func 1)
 (func (type 0) (local i64 f32 f64 funcref externref)
  nop
  block (result i32) i32.const 1 br 0 end drop
  loop (param) i32.const 0 br_if 0 end
  local.get 0 if local.get 0 return else nop end
  local.get 0 if (result i32) i32.const 5 else i32.const 6 end drop
  block block block local.get 0 br_table 0 1 2 1 end end end
  local.get 0 call 0 drop
  local.get 0 local.get 0 call_indirect (type 0) drop
  ref.null func local.set 4 ref.null extern local.set 5 ref.func 1 ref.is_null drop
  i32.const 1 i32.const 2 local.get 0 select drop
  ref.null func ref.func 0 local.get 0 select (result funcref) drop
  local.get 1 local.tee 1 drop i64.const 9 local.set 1
  global.get 1 global.set 1
  i32.const 0 table.get 0 drop i32.const 0 ref.null func table.set 0 table.size 0 drop table.size 1 drop
  ref.null func i32.const 1 table.grow 0 drop
  i32.const 0 ref.null extern i32.const 1 table.fill 1
  i32.const 0 i32.const 0 i32.const 1 table.copy 0 0
  i32.const 0 i32.const 0 i32.const 1 table.init 0 1 elem.drop 1 elem.drop 0
  i32.const 0 i64.load32_s offset=3 align=2 drop i32.const 0 f64.load offset=9 drop
  i32.const 0 i64.const 3 i64.store16 offset=7 align=1
  memory.size drop i32.const 1 memory.grow drop
  i32.const 0 i32.const 0 i32.const 1 memory.fill
  i32.const 0 i32.const 0 i32.const 1 memory.copy
  i32.const 0 i32.const 0 i32.const 1 memory.init 1 data.drop 1 data.drop 0
  f32.const 1.5 f32.neg drop f64.const nan f64.const 1 f64.copysign drop i64.const 1 i64.const 2 i64.rotl drop
  i32.const 7 i32.extend8_s drop f64.const 3 i64.trunc_sat_f64_u drop
  unreachable)
)"""
LETTERS = ["block", "loop", "if", "else", "end", "plain", "br", "unreachable"]


def enumerate_sequences(check, limit):
    r = tlc("NestingMC", "SPECIFICATION Spec\nINVARIANTS ExactlyTheWellFormed RoundTrip Positions\nPROPERTY Final\nCHECK_DEADLOCK FALSE\n",
            check.work, extra_env={"LIMIT": str(limit)}, timeout=800, heap="12g")
    if r.violated:
        raise ToolError("Nesting broke its own invariant " + r.violated)
    check.add_tlc(r)
    res = sorted(((x["q"], x["ok"]) for x in r.printed("SEQ")), key=lambda x: (len(x[0]), x[0]))
    check.count("sequences_enumerated", len(res))
    return res


def random_edits(rng):
    es = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        op = rng.choice(["del", "ins", "ins", "swap", "cut"])
        es.append({"op": op, "at": rng.randrange(400), "k": rng.choice(LETTERS[:5])})
    return es


def judge(check, cases, name="n"):
    f = dump(os.path.join(check.work, name + "-nest.json"), cases)
    r = tlc("NestingTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", check.work, extra_env={"CASES": f}, timeout=800, heap="14g", name=name)
    res = {x["case"]: x for x in r.printed("NEST")}
    if len(res) != len(cases):
        raise ToolError("TLC judged %d of %d conversions" % (len(res), len(cases)))
    check.add_tlc(r)
    os.remove(f)
    return [res[i + 1] for i in range(len(cases))]


def self_test(check, good):
    bad = []
    rng = check.rng
    for c in good:
        c = copy.deepcopy(c)
        g = c["got"]
        r = rng.randrange(5)
        if r == 0:
            i = rng.randrange(len(g["back"]))
            g["back"].insert(i, g["back"][i])
        elif r == 1 and len(g["back"]) > 1:
            g["back"].pop(rng.randrange(len(g["back"])))
        elif r == 2 and c["typed"] and any("i" in w for w in g["walk"]):
            rng.choice([w for w in g["walk"] if "i" in w])["i"] += 1
        elif r == 3 and g["walk"]:
            g["walk"].pop(rng.randrange(len(g["walk"])))
        else:
            c["got"] = {"st": "panic", "e": ""}
        bad.append(c)
    v = judge(check, bad, "self")
    if any(not x["bad"] for x in v):
        raise ToolError("a corrupted conversion was accepted")
    check.count("corrupted_conversions_rejected", len(v))


def p16(check):
    rng, rep = check.rng, check.reporter
    typed, tool = check.harness
    try:
        untyped = os.path.join(build("nest"), "nest")
    except ToolError as e:  # the untyped conversion is private to the crate; it may legitimately move
        print("the untyped conversion could not be reached and is not checked: " + str(e)[-300:])
        untyped = None
    cases = []
    seqs = enumerate_sequences(check, 7 if check.thorough else 6)
    whole = 6 if check.thorough else 5
    pick = [q for q, ok in seqs if len(q) <= whole or ok]
    rest = [q for q, ok in seqs if len(q) > whole and not ok]
    pick += rng.sample(rest, min(len(rest), 40000 if check.thorough else 4000))
    pick.append([])
    for _ in range(4000 if check.thorough else 600):
        pick.append([rng.choice(LETTERS) for _ in range(rng.randrange(1, 30))])
    for i in range(0, len(pick), 400):
        cases.append({"seqs": pick[i:i + 400]})
    cases.append({"wat": EVERYTHING, "edits": [random_edits(rng) for _ in range(60)]})
    for _ in range(1500 if check.thorough else 200):
        g = wasmgen.Gen(random.Random(rng.getrandbits(60)), refs=0.3)
        cases.append({"wat": wasmgen.to_wat(g.program()), "edits": [random_edits(rng) for _ in range(4)]})
    for d in ([1, 7, 60, 300, 900] if check.thorough else [1, 7, 60, 300]):
        cases.append({"deep": d})
    records = []
    for binary in filter(None, (typed, untyped)):
        check.count("conversions_observed", 1)
        for c, r in zip(cases, core.run_cases(binary, tool, cases, check.work, command="nest")):
            if isinstance(r, dict):
                raise ToolError("generated module refused: %s\n%s" % (r, c["wat"]))
            records += r
    rng.shuffle(records)
    for at in range(0, len(records), 30000):
        part = records[at:at + 30000]
        verdicts = judge(check, part)
        good = []
        for v, c in zip(verdicts, part):
            check.count("accepted" if c["got"]["st"] == "ok" else "refused")
            if v["bad"]:
                rep.report("a body %s%s: %s" % (v["bad"], " (untyped conversion)" if not c["typed"] else "", " ".join(e["s"] for e in c["seq"])[:600]), c)
            else:
                check.traces(1)
                if v["ok"] and c["got"]["st"] == "ok":
                    good.append(c)
        if at == 0 and good:
            self_test(check, good[:200])
            check.sample({"body": [e["s"] for e in good[0]["seq"]][:20], "walk": good[0]["got"]["walk"][:5]})


def main(prop, tier):
    check = Check(prop, tier)
    check.assumptions = ["wasabi_wasm's instruction and type-checking interface is replaced by /verif/shims/wasabi_wasm; a construct's inferred type is not compared, only that of plain instructions",
                         "bodies nested deeper than 900 constructs are not converted"]
    check.harness = core.harness()
    check.reporter = Reporter(check)
    p16(check)
    return check.finish()
