"""P21: interfaces demanded from analyses and generated guest code, against spec/Interface.tla."""
import copy, itertools, os, random, re
import core, wasp
from common import *
from corecheck import Reporter

ENTRY = re.compile(r'(\w+): Some\(\(?WasmExport \{ name: "((?:[^"\\]|\\.)*)", args: \[([^\]]*)\], results: \[([^\]]*)\] \}(?:, WasmImport \{ namespace: "[^"]*", name: "([^"]*)", args: \[([^\]]*)\], results: \[([^\]]*)\] \})?')
HEADS = {"apply": "apply", "call_pre": "call pre", "call_post": "call post", "block_pre": "block pre", "block_post": "block post", "loop_pre": "loop pre",
         "loop_post": "loop post", "select": "select", "call_indirect_pre": "call_indirect pre", "call_indirect_post": "call_indirect post",
         "if_then": "if_then", "if_then_else": "if_then_else", "br_if": "br_if", "br_table": "br_table"}
HOOK = {"apply": "GenericApply", "call_pre": "CallPre", "call_post": "CallPost", "block_pre": "BlockPre", "block_post": "BlockPost", "loop_pre": "LoopPre",
        "loop_post": "LoopPost", "select": "Select", "call_indirect_pre": "CallIndirectPre", "call_indirect_post": "CallIndirectPost", "if_then": "IfThen",
        "if_then_else": "IfThenElse", "br_if": "BranchIf", "br_table": "BranchTable"}
SPECIAL = "(aspect (advice apply (f WasmFunction) ((a I32)) ((r I32)) >>>GUEST>>>;<<<GUEST<<<))"
DATA = "guest code is read with the TypeScript parser; no AssemblyScript compiler is at hand"


def interface(text):
    """What an interface in text form demands."""
    if "AnalysisInterface {" not in text:
        raise ToolError("no interface: " + text[:200])
    tys = lambda s: [t.strip().lower() for t in s.split(",") if t.strip()]
    entries, base = [], []
    for f, n, p, r, bn, bp, br in ENTRY.findall(text):
        entries.append({"f": f, "n": n, "p": tys(p), "r": tys(r)})
        if bn:
            base.append({"n": bn, "p": tys(bp), "r": tys(br)})
    if len(entries) != text.count(": Some("):
        raise ToolError("an interface this check cannot read: " + text[:2000])
    return {"entries": entries, "base": base}


def source(rng, advice, bodies):
    """An aspect program with one definition for each kind of advice."""
    g = wasp.Gen(rng)
    toks = ["(", "aspect"]
    for k, b in zip(advice, bodies):
        guest = ">>>GUEST>>>" + b + "<<<GUEST<<<"
        if k == "global":
            toks += ["(", "global", guest, ")"]
            continue
        toks += ["(", "advice"] + HEADS[k].split()
        formals = wasp.FORMALS.get("advice " + HEADS[k], [])
        if k == "apply":
            formals = ["WasmFunction"] + list(rng.choice(wasp.PAIRS))
        for n, t in zip(g.distinct(len(formals)), formals):
            toks += ["(", "v" + n, t, ")"]  # no reserved word
        toks += [guest, ")"]
    return g.render(toks + [")"], rng.choice(["one", "lines", "mixed"]))


def body(rng):
    g = wasp.Gen(rng)
    b = "".join(g.body(True) for _ in range(rng.choice([1, 1, 3])))
    while (b + "<<<GUEST<<<").find("<<<GUEST<<<") != len(b):
        b = b[:-1]
    return b


TAILS = [";", ";", ";\n", "", " ", "\n", " // the last line", "; //", " /* done */", "//*", "\r\n\t"]  # what a marker ends with; a guest text is at liberty to end so


def frames(text, tail, n):
    """The text around the markers, if each is there once and in order."""
    parts = re.split(r"GUEST_(\d+)" + re.escape(tail), text)
    return parts[::2] if parts[1::2] == [str(i + 1) for i in range(n)] else []


def judge(check, records, name):
    f = dump(os.path.join(check.work, name + "-if.json"), records)
    r = tlc("InterfaceTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", check.work, extra_env={"CASES": f}, timeout=800, heap="10g", name=name)
    res = {x["case"]: x["bad"] for x in r.printed("IFC")}
    if len(res) != len(records):
        raise ToolError("TLC judged %d of %d interfaces" % (len(res), len(records)))
    check.add_tlc(r)
    os.remove(f)
    return [res[i + 1] for i in range(len(records))]


def spoil(rng, c):
    """A record that is wrong in one place."""
    c = copy.deepcopy(c)
    if c["kind"] == "hooks":
        i = c[rng.choice(["wasm", "rust"])]
        k = rng.randrange(5)
        if not i["entries"]:
            c["kept"] = False
            return c
        e = rng.choice(i["entries"])
        if k == 0:
            i["entries"].remove(e)
        elif k == 1:
            e["n"] += "_"
        elif k == 2:
            e["p"] = e["p"][1:] if e["p"] else ["i32"]
        elif k == 3:
            e["f"] = "elsewhere"
        else:
            c["known"] = c["known"][1:]
        return c
    k = rng.randrange(6)
    ex = [x for x in c["items"] if x["k"] == "export"]
    if k == 0 and ex:
        c["items"].remove(rng.choice(ex))
    elif k == 1 and ex:
        x = rng.choice(ex)
        x["p"] = x["p"] + ["i32"]
    elif k == 2 and ex:
        x = rng.choice(ex)
        x["r"] = "i32" if x["r"] == "void" else "void"
    elif k == 3:
        c["text"] += " "
    elif k == 4 and len(c["bodies"]) and any(c["bodies"]):
        i = rng.choice([i for i, b in enumerate(c["bodies"]) if b])
        c["bodies"][i] = c["bodies"][i][1:] + "~"
    elif k == 5:
        c["items"].append({"k": "import", "ns": "env", "x": "abort", "n": "abort", "p": [], "r": "void", "g": []})
    else:
        return None
    return c


def special_apply(check, binary, tool):
    """The one program whose crash is a listed finding."""
    rng = check.rng
    g = wasp.Gen(rng)
    srcs = [SPECIAL]
    for _ in range(30 if check.thorough else 8):
        n = rng.randint(1, 3)
        names = g.distinct(n + 2)
        mut = rng.choice(["", "Mut "])
        one = "(advice apply (%s WasmFunction) (%s%s) (%s(%s %s)) >>>GUEST>>>%s<<<GUEST<<<)" % (
            g.name(), mut, " ".join("(%s %s)" % (x, rng.choice(wasp.TYS)) for x in names[:n]), mut, names[n], rng.choice(wasp.TYS), g.body(False))
        srcs.append("(aspect %s%s)" % (one, rng.choice(["", " (advice block pre >>>GUEST>>><<<GUEST<<<)"])))
    res = core.run_cases(binary, tool, [{"id": i, "src": s} for i, s in enumerate(srcs)], check.work, command="guest")
    crashed = [s for s, r in zip(srcs, res) if r["status"] == "crashes" and "not yet implemented" in r["why"]]
    for s, r in zip(srcs, res):
        if r["status"] == "refuses" or r["status"] == "crashes" and "not yet implemented" not in r["why"]:
            check.reporter.report("aspect program: %s (%s)" % (r["status"], r.get("why")), {"src": s, "result": r})
    if crashed:
        check.reporter.report("aspect program: crashes a well-formed program with a specialised apply", {"src": crashed[0], "finding_key": "specialised-apply-not-implemented"})


def p21(check):
    rng, rep = check.rng, check.reporter
    binary, tool = check.harness
    r = tlc("InterfaceMC", "SPECIFICATION Spec\nINVARIANTS Exact Fits Separate Printed\nPROPERTY Grows\nCHECK_DEADLOCK FALSE\n", check.work,
            extra_env={"LIMIT": "3" if check.thorough else "2"}, timeout=600)
    if r.violated:
        raise ToolError("InterfaceMC broke its own " + r.violated)
    check.add_tlc(r)
    asks = sorted(r.printed("ASK"), key=lambda a: json.dumps(a, sort_keys=True))
    sets = {tuple(sorted(a["hooks"])) for a in asks if not a["advice"]}
    seqs = [a["advice"] for a in asks if not a["hooks"]]
    names = sorted({h for s in sets for h in s})
    full = set(names)
    sets |= {tuple(sorted(full - set(s))) for s in sets}
    for _ in range(3000 if check.thorough else 300):
        sets.add(tuple(sorted(rng.sample(names, rng.randint(3, len(names) - 3)))))
    kinds = sorted(HEADS)
    for _ in range(3000 if check.thorough else 200):
        q = rng.sample(kinds, rng.randint(2, len(kinds)))
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            q.insert(rng.randrange(len(q) + 1), "global")
        seqs.append(q)
    check.count("hook_sets", len(sets))
    check.count("aspect_programs", len(seqs))
    # the demanded interfaces; hooks in any order
    order = []
    for s in sorted(sets):
        s = list(s)
        rng.shuffle(s)
        order.append(s)
    res = core.run_cases(binary, tool, [{"id": i, "hooks": s} for i, s in enumerate(order)], check.work, command="demanded")
    records = [{"kind": "hooks", "hooks": s, "wasm": interface(x["wasm"]), "rust": interface(x["rust"]), "kept": x["kept"], "known": x["all"]} for s, x in zip(order, res)]
    sources = [{"hooks": s} for s in order]
    # guest code, for markers and for arbitrary texts
    seeds = [rng.random() for _ in seqs]
    bodies = [[body(rng) for _ in q] for q in seqs]
    # the same program twice
    tails = [rng.choice(TAILS) for _ in seqs]
    marks = [source(random.Random(k), q, ["GUEST_%d%s" % (i + 1, t) for i in range(len(q))]) for q, k, t in zip(seqs, seeds, tails)]
    texts = [source(random.Random(k), q, b) for q, k, b in zip(seqs, seeds, bodies)]
    a = core.run_cases(binary, tool, [{"id": i, "src": s} for i, s in enumerate(marks)], check.work, command="guest")
    b = core.run_cases(binary, tool, [{"id": i, "src": s} for i, s in enumerate(texts)], check.work, command="guest")
    w = core.run_cases(binary, tool, [{"id": i, "hooks": [HOOK[k] for k in q if k != "global"]} for i, q in enumerate(seqs)], check.work, command="demanded")
    f = os.path.join(check.work, "guest.in")
    with open(f, "w") as out:
        for i, x in enumerate(a):
            if x["status"] == "ok":
                out.write(json.dumps({"id": i, "text": x["text"]}) + "\n")
    run(["node", os.path.join(VERIF, "lib", "guest.js"), f, f + ".out"], 300, cwd=check.work)
    shown = {}
    for line in open(f + ".out"):
        if line.strip():
            x = json.loads(line)
            shown[x["id"]] = x
    for i, (q, m, x, y, d) in enumerate(zip(seqs, marks, a, b, w)):
        c = {"kind": "aspect", "advice": q, "status": x["status"] if x["status"] != "ok" else y["status"], "bodies": bodies[i], "items": [], "errors": [], "frames": [], "text": "",
             "as": {"entries": [], "base": []}, "wasm": interface(d["wasm"])}
        if c["status"] == "ok":
            c["as"], c["items"], c["text"] = interface(x["interface"]), shown[i]["items"], y["text"]
            c["errors"] = shown[i]["errors"]
            c["frames"] = frames(x["text"], tails[i], len(q))
            if x["interface"] != y["interface"]:
                c["status"] = "demands another interface for"
        records.append(c)
        sources.append({"marked": m, "program": texts[i]})
    judged = 0
    for lo in range(0, len(records), 2000):
        part = records[lo:lo + 2000]
        for v, c, s in zip(judge(check, part, "i%d" % lo), part, sources[lo:]):
            judged += 1
            if v:
                rep.report("%s: %s" % ("hooks " + ",".join(c["hooks"]) if c["kind"] == "hooks" else "advice " + ",".join(c["advice"]), v), {"case": s, "record": c})
            else:
                check.traces(1)
        if lo == 0 or lo + 2000 >= len(records):
            good = [c for v, c in zip(judge(check, part[-150:], "g"), part[-150:]) if not v]
            bad = [y for y in (spoil(rng, x) for x in good) if y is not None]
            if bad:
                vs = judge(check, bad, "self")
                kept = [c for v, c in zip(vs, bad) if not v]
                check.count("corrupted_records_rejected", len(vs) - len(kept))
                if kept:
                    raise ToolError("%d corrupted records were accepted, e.g. %s" % (len(kept), json.dumps(kept[0])[:1500]))
        if rep.full():
            break
    check.sample({"hooks": order[0], "advice": seqs[-1]})
    special_apply(check, binary, tool)


def main(prop, tier):
    check = Check(prop, tier)
    check.assumptions = [DATA]
    check.harness = core.harness()
    check.reporter = Reporter(check)
    p21(check)
    return check.finish()
