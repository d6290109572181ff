"""P24: what advice in the aspect language sees and does, against spec/Aspect.tla."""
import copy, os, random, struct
import core
from common import *
from corecheck import Reporter

EXPORT = {"apply": "generic_apply", "call_pre": "specialized_call_pre", "call_post": "specialized_call_post", "block_pre": "trap_block_pre", "block_post": "trap_block_post",
          "loop_pre": "trap_loop_pre", "loop_post": "trap_loop_post", "select": "specialized_select", "call_indirect_pre": "specialized_call_indirect_pre",
          "call_indirect_post": "specialized_call_indirect_post", "if_then": "specialized_if_then_k", "if_then_else": "specialized_if_then_else_k",
          "br_if": "specialized_br_if", "br_table": "specialized_br_table"}
HEAD = {"apply": "apply", "call_pre": "call pre", "call_post": "call post", "block_pre": "block pre", "block_post": "block post", "loop_pre": "loop pre",
        "loop_post": "loop post", "select": "select", "call_indirect_pre": "call_indirect pre", "call_indirect_post": "call_indirect post",
        "if_then": "if_then", "if_then_else": "if_then_else", "br_if": "br_if", "br_table": "br_table"}
# the formals of each kind of advice, and the field each thing shown is read from
FORMALS = {"apply": [], "call_pre": ["FunctionIndex"], "call_post": ["FunctionIndex"], "select": ["Condition"], "call_indirect_pre": ["FunctionTable", "FunctionTableIndex"],
           "call_indirect_post": ["FunctionTable"], "if_then": ["Condition"], "if_then_else": ["Condition"], "br_if": ["Condition", "Label"], "br_table": ["Target", "Default"]}
FIELDS = {"call_pre": {"index": (0, "index")}, "call_post": {"index": (0, "index")}, "call_indirect_pre": {"table": (0, "index"), "index": (1, "index")},
          "call_indirect_post": {"table": (0, "index")}, "br_table": {"target": (0, "target"), "default": (1, "deflt")}}
FIELDS["if_then"] = {x: (0, x) for x in ("is_then", "is_skip", "continue_then", "continue_skip")}
FIELDS["if_then_else"] = FIELDS["select"] = {x: (0, x) for x in ("is_then", "is_else", "continue_then", "continue_else")}
FIELDS["br_if"] = dict({x: (0, x) for x in ("is_branch", "is_skip", "continue_branch", "continue_skip")}, label=(1, "label"))
CONDITIONAL = {"if_then", "if_then_else", "select", "br_if"}
DECIDING = CONDITIONAL | {"br_table", "call_indirect_pre"}
TRUTHS = {"is_then", "is_skip", "is_else", "is_branch", "continue_then", "continue_skip", "continue_else", "continue_branch"}
TYPES = ["i32", "f32", "i64", "f64"]
PROBES = "".join(['@external("probe", "%s") declare function %s(%s): %s;\n' % (n, n, p, r) for n, p, r in
                  [("which", "n: i32", "i32"), ("say", "n: i32", "void"), ("see_truth", "v: i32", "void")]
                  + [("see_" + t, "v: " + t, "void") for t in TYPES] + [("want_" + t, "n: i32", t) for t in TYPES]])
DATA = "generated guest code is run by translating it to JavaScript; no AssemblyScript compiler is at hand, and advice uses only what the translation covers"



def value(rng, t):
    if t == "i32":
        return str(rng.choice([0, 1, -1, 2**31 - 1, -2**31, rng.randint(-2**31, 2**31 - 1)]))
    if t == "i64":
        return str(rng.choice([0, 1, -1, 2**63 - 1, -2**63, 2**32, 2**31, rng.randint(-2**63, 2**63 - 1)]))
    x = rng.choice([0.0, -0.0, 1.5, -2.0, float("inf"), float("-inf"), rng.uniform(-1e30, 1e30), 1e-40])
    return "x%x" % (struct.unpack(">I", struct.pack(">f", x))[0] if t == "f32" else struct.unpack(">Q", struct.pack(">d", x))[0])


def blank(kind):
    return {"op": "", "on": "", "i": 0, "v": "", "f": "", "n": 0, "t": "i32"}


def o(kind, **kw):
    return dict(blank(kind), **kw)


def statement(kind, op, formals, wants, mut):
    n = op["op"]
    if n == "say":
        return "say(%d);" % op["n"]
    if n == "see":
        at, field = FIELDS[kind][op["f"]]
        return "see_%s(%s.%s);" % ("truth" if op["f"] in TRUTHS else "i32", formals[at], field)
    if n == "answer":
        if op["f"] == "":
            return "return %d;" % op["n"]
        at, field = FIELDS[kind][op["f"]]
        return "return %s.%s;" % (formals[at], field)
    fn, a, r = formals
    on = a if op["on"] == "args" else r
    if n == "get":
        return "see_%s(%s.get<%s>(%d));" % (op["t"], on, op["t"], op["i"])
    if n == "set":
        wants.append({"t": op["t"], "v": op["v"]})
        return "%s.set<%s>(%d, want_%s(%d));" % (on, op["t"], op["i"], op["t"], len(wants) - 1)
    if n == "type":
        return "see_i32(%s.getType(%d));" % (on, op["i"])
    if n == "length":
        return "see_i32(%s.length);" % on
    if n == "func":
        return "see_i32(%s.instr_f_idx);" % fn
    assert n == "apply"
    return "%s.apply();" % fn


def names(rng, n):
    s = []
    while len(s) < n:
        x = "v" + rng.choice("ABCDEFGHXYZ") + "".join(rng.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(rng.randint(0, 3)))
        if x not in s:
            s.append(x)
    return s


def program(rng, variants):
    """An aspect program whose advice does, in turn, what the variants of its kind say; and the values it writes."""
    defs, wants = ["(global >>>GUEST>>>\n" + PROBES + "<<<GUEST<<<)"], []
    kinds = list(variants)
    rng.shuffle(kinds)
    for k in kinds:
        body = []
        if k == "apply":
            fs = names(rng, 3)
            ta, tr = "MutDynArgs", "MutDynResults"
            if not any(x["op"] == "set" for ops in variants[k] for x in ops):
                ta, tr = rng.choice([("DynArgs", "DynResults"), ("MutDynArgs", "MutDynResults")])
            heads = "(%s WasmFunction) (%s %s) (%s %s)" % (fs[0], fs[1], ta, fs[2], tr)
        else:
            formals = FORMALS.get(k, [])
            fs = names(rng, len(formals))
            heads = " ".join("(%s %s)" % x for x in zip(fs, formals))
        for i, ops in enumerate(variants[k]):
            st = [statement(k, x, fs, wants, True) for x in ops]
            body.append("if (which(%d)) {\n%s\n}" % (i, "\n".join(st)) if st else "if (which(%d)) {}" % i)
        defs.append("(advice %s %s >>>GUEST>>>\n%s\n<<<GUEST<<<)" % (HEAD[k], heads, "\n".join(body)))
    at = rng.randrange(len(defs))
    defs[0], defs[at] = defs[at], defs[0]
    return "(aspect\n" + "\n".join(defs) + ")", wants


def slots(rng, n):
    return [{"t": t, "v": value(rng, t)} for t in (rng.choice(TYPES) for _ in range(n))]


NOTHING = {"target": 0, "table": 0, "index": 0, "cond": 0, "label": 0, "default": 0, "effective": 0, "inputs": 0, "arity": 0, "args": [], "ress": [], "base": [], "apply": 0, "func": 0, "buffer": 0, "types": 0}


def i32(rng):
    return rng.choice([0, 1, 2, 3, 7, 255, 65536, 2**31 - 1, -1, -2**31, rng.randint(-2**31, 2**31 - 1), rng.randint(0, 20)])


def event(rng, kind, args=None, ress=None, applies=0):
    e = dict(NOTHING)
    if kind == "apply":
        e["args"] = slots(rng, rng.choice([0, 1, 2, 3, 6])) if args is None else args
        e["ress"] = slots(rng, rng.choice([0, 1, 1, 2, 4])) if ress is None else ress
        e["base"] = [[value(rng, s["t"]) for s in e["ress"]] for _ in range(applies + 1)]
        e["buffer"], e["types"] = rng.sample([0, 4, 100, 65536, 2**31 - 8, -8, -2**31, rng.randint(8, 10**6) * 4], 2)
        e["apply"], e["func"] = rng.sample(range(0, 3000), 2)
        return e
    for f in ("target", "table", "index", "cond", "label", "default", "effective", "inputs", "arity"):
        e[f] = i32(rng)
    return e


def passed(kind, e):
    """As instrumented programs put it: what the trap is called with, by position."""
    return {"call_pre": lambda: [e["target"]], "call_post": lambda: [e["target"]], "call_indirect_pre": lambda: [e["index"], e["table"]],
            "call_indirect_post": lambda: [e["table"]], "if_then": lambda: [e["cond"], e["inputs"], e["arity"]], "if_then_else": lambda: [e["cond"], e["inputs"], e["arity"]],
            "select": lambda: [e["cond"]], "br_if": lambda: [e["cond"], e["label"]], "br_table": lambda: [e["target"], e["effective"], e["default"]],
            "block_pre": lambda: [e["inputs"], e["arity"]], "loop_pre": lambda: [e["inputs"], e["arity"]],
            "apply": lambda: [e["apply"], e["func"], len(e["args"]), len(e["ress"]), e["buffer"], e["types"], 0]}.get(kind, lambda: [])()


def random_ops(rng, kind, e, n):
    res = []
    for _ in range(n):
        if kind == "apply":
            w = rng.choice(["args", "ress"])
            q = e[w]
            i = rng.randrange(len(q)) if q and rng.random() < 0.93 else rng.choice([-1, len(q), len(q) + 1, 2**31 - 1, -2**31])
            t = q[i]["t"] if 0 <= i < len(q) else rng.choice(TYPES)
            k = rng.choice(["get", "get", "set", "set", "type", "length", "func", "apply"])
            res.append(o(kind, op=k, on=w, i=i, t=t, v=value(rng, t) if k == "set" else ""))
        elif kind in FIELDS and rng.random() < 0.8:
            res.append(o(kind, op="see", f=rng.choice(sorted(FIELDS[kind]))))
        else:
            res.append(o(kind, op="say", n=i32(rng)))
    if kind in DECIDING and rng.random() < 0.7:
        f = rng.choice(sorted(FIELDS[kind])) if rng.random() < 0.7 else ""
        res.append(o(kind, op="answer", f=f, n=0 if f else i32(rng)))
    return res


def concrete(rng, hist):
    """A history of the specification with values of the types at hand."""
    n, m = hist["shape"]
    e = event(rng, "apply", slots(rng, n), slots(rng, m), sum(x["op"] == "apply" for x in hist["ops"]))
    ops = []
    for x in hist["ops"]:
        y = o("apply", **{k: v for k, v in x.items() if k != "v"})
        if y["on"]:
            q = e[y["on"]]
            y["t"] = q[y["i"]]["t"] if 0 <= y["i"] < len(q) else rng.choice(TYPES)
        if y["op"] == "set":
            y["v"] = value(rng, y["t"])
        ops.append(y)
    return "apply", e, ops


def cases(check):
    """Aspect programs with the events put to them: (source, wants, events)."""
    rng, items = check.rng, []
    r = tlc("AspectMC", "SPECIFICATION Spec\nINVARIANTS Agrees Shaped Same Applies Printed\nPROPERTY Reads\nCHECK_DEADLOCK FALSE\n", check.work,
            extra_env={"DEPTH": "4" if check.thorough else "3"}, timeout=800, heap="10g")
    if r.violated:
        raise ToolError("AspectMC broke its own " + r.violated)
    check.add_tlc(r)
    hists = r.printed("HIST")
    check.count("specified_histories", len(hists))
    hists.sort(key=lambda h: json.dumps(h, sort_keys=True))
    rng.shuffle(hists)
    hists = hists[:40000 if check.thorough else 6000]
    everything = [concrete(rng, h) for h in hists]
    kinds = sorted(EXPORT)
    for k in kinds:
        # every field by itself, answered by itself, for events of every sort
        if k in FIELDS:
            for f in sorted(FIELDS[k]):
                for c in [0, 1, 2, -1, 2**31 - 1, -2**31]:
                    e = event(rng, k)
                    e["cond"] = c
                    everything.append((k, e, [o(k, op="see", f=f)] + ([o(k, op="answer", f=f)] if k in DECIDING else [])))
        for _ in range(30):
            everything.append((k, event(rng, k, applies=3), []))
    for _ in range(40000 if check.thorough else 5000):
        k = rng.choice(kinds + ["apply"] * 6)
        n = rng.choice([1, 2, 4, 8, 16, 40])
        e = event(rng, k, applies=n)
        everything.append((k, e, random_ops(rng, k, e, n)))
    rng.shuffle(everything)
    by = {}
    for x in everything:
        by.setdefault(x[0], []).append(x)
    # programs with one kind of advice only, with few, with all
    groups = [[k] for k in kinds] * 2 + [kinds] * 3
    while any(by.values()):
        groups.append(rng.sample(kinds, rng.choice([1, 2, 2, 3, 5, 14])) if len(groups) < 120 or not by.get("apply") else ["apply"])
        g = groups.pop(0)
        part = []
        for k in g:
            take = rng.choice([1, 3, 10, 20]) if k != "apply" else rng.choice([1, 10, 60])
            part += by.get(k, [])[:take]
            by[k] = by.get(k, [])[take:]
        if part:
            items.append(assemble(rng, g, part))
    return items


def assemble(rng, kinds, part):
    variants = {k: [ops for kk, _, ops in part if kk == k] for k in kinds}
    src, wants = program(rng, variants)
    seen, events = {}, []
    for k, e, ops in part:
        which = seen.get(k, 0)
        seen[k] = which + 1
        events.append({"kind": k, "e": e, "ops": ops, "which": which})
    rng.shuffle(events)
    # some again
    events += [dict(x) for x in rng.sample(events, min(3, len(events)))]
    return src, wants, events


def judge(check, records, name):
    f = dump(os.path.join(check.work, name + "-asp.json"), records)
    r = tlc("AspectTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", check.work, extra_env={"CASES": f}, timeout=800, heap="10g", name=name)
    res = {x["case"]: x for x in r.printed("ASP")}
    if len(res) != len(records):
        raise ToolError("TLC judged %d of %d programs" % (len(res), len(records)))
    check.add_tlc(r)
    os.remove(f)
    return [res[i + 1] for i in range(len(records))]


def spoil(rng, c):
    c = copy.deepcopy(c)
    ev = [e for e in c["events"] if e["log"]]
    if not ev:
        return None
    e = rng.choice(ev)
    log = e["log"]
    x = rng.choice(log)
    k = rng.randrange(5)
    if k == 0:
        log.remove(x)
    elif k == 1:
        log.insert(rng.randrange(len(log) + 1), {"k": "see", "t": "i32", "v": "12345"})
    elif k == 2 and x["k"] == "see":
        x["v"] += "1"
    elif k == 2 and x["k"] == "answer":
        x["v"] = x["v"] ^ 1
    elif k == 3 and x["k"] in ("base", "left") and x["a"] + x["r"]:
        q = x["a"] if x["a"] and (rng.random() < 0.5 or not x["r"]) else x["r"]
        q[rng.randrange(len(q))] += "0"
    elif k == 4 and len(log) > 1:
        i = rng.randrange(len(log) - 1)
        if log[i] == log[i + 1]:
            return None
        log[i], log[i + 1] = log[i + 1], log[i]
    else:
        return None
    return c


def p24(check):
    rng, rep = check.rng, check.reporter
    binary, tool = check.harness
    items = cases(check)
    check.count("aspect_programs", len(items))
    check.count("events", sum(len(x[2]) for x in items))
    res = core.run_cases(binary, tool, [{"id": i, "src": x[0]} for i, x in enumerate(items)], check.work, command="guest")
    f = os.path.join(check.work, "aspect.in")
    logs = {}
    with open(f, "w") as out:
        for i, ((src, wants, events), x) in enumerate(zip(items, res)):
            if x["status"] != "ok":
                continue
            put = [dict(e["e"], kind=e["kind"], name=EXPORT[e["kind"]], which=e["which"], cond=e["kind"] in CONDITIONAL, decides=e["kind"] in DECIDING,
                        passed=passed(e["kind"], e["e"]), fidx=str(i), iidx="0") for e in events]
            for p in put:
                p["fidx"], p["iidx"] = i, 0
            out.write(json.dumps({"id": i, "text": x["text"], "wants": wants, "events": put}) + "\n")
    run(["node", os.path.join(VERIF, "lib", "aspect.js"), f, f + ".out"], 600, cwd=check.work)
    for line in open(f + ".out"):
        if line.strip():
            x = json.loads(line)
            logs[x["id"]] = x
    records, sources, unread = [], [], 0
    for i, ((src, wants, events), x) in enumerate(zip(items, res)):
        y = logs[i] if x["status"] == "ok" else {"status": "%s the program (%s)" % (x["status"], x.get("why")), "logs": []}
        if y["status"].startswith("unsupported"):
            unread += 1
            if unread <= 3:
                print("not read: " + y["status"][:400])
            continue
        records.append({"status": y["status"], "events": [{"kind": e["kind"], "e": e["e"], "ops": e["ops"], "passed": passed(e["kind"], e["e"]), "log": l}
                                                            for e, l in zip(events, y["logs"] if y["status"] == "ok" else [])]})
        sources.append(src)
    check.count("programs_not_read", unread)
    for lo in range(0, len(records), 150):
        part = records[lo:lo + 150]
        verdicts = judge(check, part, "a%d" % lo)
        for v, c, s in zip(verdicts, part, sources[lo:]):
            if v["bad"]:
                ev = c["events"][v["at"] - 1] if v["at"] <= len(c["events"]) else None
                rep.report("advice %s: %s" % (ev["kind"] if ev else "", v["bad"]), {"src": s, "event": ev, "status": c["status"]})
            else:
                check.traces(len(c["events"]))
        if lo == 0:
            good = [{"status": "ok", "events": c["events"][:12]} for v, c in zip(verdicts, part) if not v["bad"]]
            bad = [y for y in (spoil(rng, x) for x in good) if y is not None]
            if bad:
                vs = judge(check, bad, "self")
                kept = [c for v, c in zip(vs, bad) if not v["bad"]]
                check.count("corrupted_records_rejected", len(vs) - len(kept))
                if kept:
                    raise ToolError("%d corrupted records were accepted, e.g. %s" % (len(kept), json.dumps(kept[0])[:1500]))
        if rep.full():
            break
    check.sample({"program": items[0][0][:3000], "event": items[0][2][:1]})


def generated_local(check, binary, tool):
    """The one name whose use as a formal is a listed finding."""
    srcs = ["(aspect (advice apply (%s WasmFunction) (%s %s) (%s %s) >>>GUEST>>>;<<<GUEST<<<))" % (f, a, ta, r, tr)
            for f, a, r in (("argsResults", "a", "r"), ("f", "argsResults", "r"), ("f", "a", "argsResults")) for ta, tr in (("Args", "Results"), ("MutDynArgs", "MutDynResults"))]
    res = core.run_cases(binary, tool, [{"id": i, "src": s} for i, s in enumerate(srcs)], check.work, command="guest")
    f = os.path.join(check.work, "local.in")
    with open(f, "w") as out:
        for i, x in enumerate(res):
            if x["status"] == "ok":
                out.write(json.dumps({"id": i, "text": x["text"], "wants": [], "events": []}) + "\n")
    run(["node", os.path.join(VERIF, "lib", "aspect.js"), f, f + ".out"], 60, cwd=check.work)
    bad = [x for x in (json.loads(l) for l in open(f + ".out") if l.strip()) if "argsResults" in x["status"] and "already been declared" in x["status"]]
    if bad:
        check.reporter.report("advice apply with a formal named argsResults: guest code " + bad[0]["status"], {"src": srcs[bad[0]["id"]], "finding_key": "formal-named-as-generated-local"})


def main(prop, tier):
    check = Check(prop, tier)
    check.assumptions = [DATA]
    check.harness = core.harness()
    check.reporter = Reporter(check)
    p24(check)
    generated_local(check, *check.harness)
    return check.finish()
