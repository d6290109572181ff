"""P09-P15 and P22: instrumented programs, checked against spec/Machine.tla, Agree.tla and Iface.tla."""
import copy, json, os, random
import core, wasmgen
from common import *
from wasmgen import ALL_HOOKS

PLAIN_HOOKS = [h for h in ALL_HOOKS if h != "GenericApply"]
ASSUME = ["the crate's git dependencies are not available offline: wasabi_wasm (module representation, encoder), the AssemblyScript and Rust compilers and the merge tool are stand-ins in /verif/shims and harness/core; a defect inside them is out of scope",
          "the engine (wasmtime) executes WebAssembly as specified; its runs of the original modules are themselves checked against the specification"]
BODIES = {  # alphabet -> length (quick, thorough)
    "vcj": (5, 6), "vpj": (5, 6), "vct": (5, 7), "vlo": (4, 6), "vm": (5, 7), "vf": (5, 7), "vco": (4, 7), "vcf": (4, 6), "vlm": (4, 5),
}
APPLY_KINDS = {"ap", "aset", "rset", "cb", "cbr", "apd"}


# ------------------------------------------------------------- what is run
def body_program(body):
    one = [1, 0, 0, 0]
    return {"ft": [{"p": ["i32"], "r": ["i32"]}, {"p": [], "r": []}],
            "fn": [{"imp": "h0", "ty": 1, "loc": [], "body": []},
                   {"imp": "", "ty": 1, "loc": ["i64"], "body": body},
                   {"imp": "", "ty": 1, "loc": [], "body": [{"k": "local.get", "i": 0, "t": "i32"}, {"k": "const", "t": "i32", "v": one},
                                                            {"k": "bin", "o": "i32.add"}, {"k": "end"}]},
                   {"imp": "", "ty": 2, "loc": [], "body": [{"k": "nop"}, {"k": "end"}]}],
            "gt": [{"t": "i32", "m": 1}], "gl": [[5, 0, 0, 0]],
            "mem": {"has": 1, "pages": 1, "limit": 2, "data": [[0, 7], [1, 200], [2, 1]]},
            "tabs": [{"t": "funcref", "e": [[9, 2], [9, 1], []], "max": 3}], "start": -1}


def bodies(check, alphabet, limit):
    r = tlc("Bodies", "SPECIFICATION Spec\nINVARIANT Shape\nCHECK_DEADLOCK FALSE\n", check.work,
            extra_env={"ALPHABET": alphabet, "LIMIT": str(limit)}, timeout=600, heap="12g", name=alphabet + str(limit))
    if r.violated:
        raise ToolError("Bodies broke its own invariant " + r.violated)
    check.add_tlc(r)
    res = r.printed("BODY")
    res.sort(key=lambda b: json.dumps(b, sort_keys=True))
    check.count("bodies_enumerated", len(res))
    return res


ARGS = [[[0, 0, 0, 0]], [[1, 0, 0, 0]], [[2, 0, 0, 0]], [[255, 255, 255, 255]]]


def body_cases(check, alphabets, cap=None):
    """Programs around every enumerated body (a random part when there are more than cap)."""
    res = []
    for a in alphabets:
        bs = bodies(check, a, BODIES[a][1 if check.thorough else 0])
        if cap and len(bs) > cap:
            bs = check.rng.sample(bs, cap)
            check.count("bodies_sampled_from_alphabet_" + a, len(bs))
        for b in bs:
            res.append((body_program(b), [{"f": 1, "a": x} for x in ARGS]))
    return res


def random_cases(check, n, **kw):
    res = []
    for _ in range(n):
        g = wasmgen.Gen(random.Random(check.rng.getrandbits(60)), **kw)
        res.append((g.program(), g.call_list()))
    return res


def many_calls(check, n):
    """Programs that call one function, of any type, many times: nothing may be left behind."""
    rng, res = check.rng, []
    for _ in range(n):
        p = [wasmgen.num(rng) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        r = [wasmgen.num(rng) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
        const = lambda t: {"k": "const", "t": t, "v": wasmgen.value(rng, t)}
        how = rng.choice(["call", "call", "call_indirect", "host"])
        body = []
        for _ in range(rng.randrange(18, 24)):
            body += [const(t) for t in p]
            if how == "call_indirect":
                body += [{"k": "const", "t": "i32", "v": [0, 0, 0, 0]}, {"k": "call_indirect", "ty": 1, "tb": 0}]
            else:
                body.append({"k": "call", "f": 0 if how == "host" else 1})
            body += [{"k": "drop"} for _ in r]
        g = [const(t) for t in r]
        if g and rng.random() < 0.3:
            g.append({"k": "return"})
        prog = {"ft": [{"p": p, "r": r}, {"p": [], "r": []}],
                "fn": [{"imp": "h0", "ty": 1, "loc": [], "body": []}, {"imp": "", "ty": 1, "loc": [], "body": g + [{"k": "end"}]},
                       {"imp": "", "ty": 2, "loc": [], "body": body + [{"k": "end"}]}],
                "gt": [], "gl": [], "mem": {"has": 0, "pages": 0, "limit": 0, "data": []},
                "tabs": [{"t": "funcref", "e": [[9, 1]], "max": 1}], "start": -1}
        res.append((prog, [{"f": 2, "a": []}, {"f": 2, "a": []}]))
    return res


def operator_cases(check, rounds, size=20):
    """Every operator and every access, each in a function of its own (so that a trap hides nothing), size of them to a program."""
    rng, res = check.rng, []
    const = lambda t: {"k": "const", "t": t, "v": wasmgen.value(rng, t)}
    for _ in range(rounds):
        todo = []
        for t in wasmgen.UN:
            todo += [([], t, [const(p), {"k": "un", "o": n}]) for n, p in wasmgen.UN[t]]
        for t in wasmgen.BIN:
            todo += [([], t, [const(p), const(p), {"k": "bin", "o": n}]) for n, p in wasmgen.BIN[t]]
        for t in wasmgen.LOADS:
            todo += [([], t, [address(rng, w), {"k": "load", "o": n, "off": offset(rng)}]) for n, w in wasmgen.LOADS[t]]
        for t in wasmgen.STORES:
            for n, w in wasmgen.STORES[t]:
                at, off = address(rng, w), offset(rng)
                todo.append(([], "i64", [at, const(t), {"k": "store", "o": n, "off": off}, at, {"k": "load", "o": "i64.load", "off": off}]))
        for t in wasmgen.BIN:
            todo += [([t], t, [{"k": "local.get", "i": 0, "t": t}, const(t), {"k": "local.tee", "i": 0, "t": t}, const("i32"), {"k": "select", "typed": rng.choice(["", t])}])]
        rng.shuffle(todo)
        for at in range(0, len(todo), size):
            part = todo[at:at + size]
            types, fns, calls = [], [], []
            for p, r, body in part:
                ft = {"p": p, "r": [r]}
                if ft not in types:
                    types.append(ft)
                calls.append({"f": len(fns), "a": [wasmgen.value(rng, t) for t in p]})
                fns.append({"imp": "", "ty": 1 + types.index(ft), "loc": [], "body": body + [{"k": "end"}]})
            prog = {"ft": types, "fn": fns, "gt": [], "gl": [], "tabs": [], "start": -1,
                    "mem": {"has": 1, "pages": 1, "limit": 2, "data": [[a, rng.randrange(1, 256)] for a in sorted(rng.sample(range(40), 30))]}}
            res.append((prog, calls))
    return res


def address(rng, w):
    return {"k": "const", "t": "i32", "v": wasmgen.le(rng.choice([0, 1, rng.randrange(32), rng.randrange(4) * w, 65536 - w, 65536 - w + rng.choice([0, 1, -1])]), 4)}


def offset(rng):
    return wasmgen.le(rng.choice([0, 0, 0, 1, 7, w if (w := rng.randrange(20)) else 0]), 4)


def wide(rng):
    """A program with large indices: functions, locals, globals, table slots, labels, instructions beyond 127 and 255."""
    c = lambda n, t="i32": {"k": "const", "t": t, "v": wasmgen.le(n, wasmgen.SIZE[t])}
    nf, nl, ng, depth = rng.choice([131, 200, 261]), rng.choice([130, 258]), rng.choice([129, 260]), rng.choice([4, 130, 140])
    fns = [{"imp": "h0", "ty": 1, "loc": [], "body": []}]
    for i in range(1, nf):
        b = [{"k": "local.get", "i": 0, "t": "i32"}, c(i % 7), {"k": "bin", "o": "i32.add"}]
        fns.append({"imp": "", "ty": 1, "loc": [], "body": b + [{"k": "end"}]})
    far = lambda n: rng.choice([n - 1, n - 2, 127, 128])
    many = rng.choice([7, 9, 17])
    wide_p = [wasmgen.num(rng) for _ in range(many)]
    wide_r = [wasmgen.num(rng) for _ in range(rng.choice([1, 6, 12]))]
    body = []
    body += [{"k": "nop"}] * rng.choice([0, 30, 125, 250])
    for _ in range(3):
        l, g = 1 + far(nl), far(ng)
        body += [c(rng.randrange(-3, 90)), {"k": "local.set", "i": l, "t": "i32"}, {"k": "local.get", "i": l, "t": "i32"}, {"k": "local.tee", "i": 1 + far(nl), "t": "i32"},
                 {"k": "global.set", "i": g, "t": "i32"}, {"k": "global.get", "i": g, "t": "i32"}, {"k": "call", "f": rng.choice([0, nf - 1, far(nf), 128])}, {"k": "drop"}]
    body += [c(rng.randrange(50)), c(far(nf)), {"k": "call_indirect", "ty": 1, "tb": 0}, {"k": "drop"}]
    body += [c(rng.randrange(5), t) if t in ("i32", "i64") else {"k": "const", "t": t, "v": wasmgen.value(rng, t)} for t in wide_p]
    body += [{"k": "call", "f": nf}] + [{"k": "drop"} for _ in wide_r]
    body += [{"k": "block", "p": [], "r": []}] * depth
    label = rng.randrange(depth)
    how = rng.choice(["br", "br_if", "br_table"])
    if how == "br":
        body += [{"k": "br", "l": label}]
    elif how == "br_if":
        body += [{"k": "local.get", "i": 0, "t": "i32"}, {"k": "br_if", "l": label}]
    else:
        body += [{"k": "local.get", "i": 0, "t": "i32"}, {"k": "br_table", "ls": [rng.randrange(depth) for _ in range(rng.choice([3, 129, 257]))], "d": depth - 1}]
    for i in range(depth):
        body += [{"k": "end"}] + ([c(i), {"k": "drop"}] if i == label + 1 else [])
    body += [{"k": "local.get", "i": 0, "t": "i32"}, {"k": "un", "o": "i32.eqz"}, {"k": "end"}]
    inner = [{"k": "local.get", "i": many - 1, "t": wide_p[-1]}, {"k": "drop"}]
    inner += [{"k": "const", "t": t, "v": wasmgen.value(rng, t)} for t in wide_r] + [{"k": "end"}]
    fns.append({"imp": "", "ty": 2, "loc": [], "body": inner})
    fns.append({"imp": "", "ty": 1, "loc": ["i32"] * nl, "body": body})
    p = {"ft": [{"p": ["i32"], "r": ["i32"]}, {"p": wide_p, "r": wide_r}], "fn": fns, "gt": [{"t": "i32", "m": 1}] * ng, "gl": [[5, 0, 0, 0]] * ng,
         "mem": {"has": 1, "pages": 1, "limit": 2, "data": []}, "tabs": [{"t": "funcref", "e": [[9, i] for i in range(nf)], "max": nf}], "start": -1}
    return p, [{"f": nf + 1, "a": [wasmgen.le(x, 4)]} for x in rng.sample([0, 1, 2, 100, 128, 256, -1], 2)] + [{"f": rng.choice([nf - 1, 128]), "a": [[4, 0, 0, 0]]}]


def wide_cases(check, n):
    return [wide(random.Random(check.rng.getrandbits(60))) for _ in range(n * (8 if check.thorough else 1))]


def targets_of(rng, p, all_prob=0.5):
    """A selection of functions: everything, or a random part (sometimes nothing)."""
    if rng.random() < all_prob:
        return None
    q = rng.random()
    chosen = [i for i in range(len(p["fn"])) if rng.random() < q]
    rng.shuffle(chosen)  # a set, in whatever order it is written
    if chosen and rng.random() < 0.1:
        chosen.append(rng.choice(chosen))
    return chosen


def case_of(i, p, calls, configs):
    return {"id": i, "wat": wasmgen.to_wat(p), "globals": p["gl"], "start": p["start"], "mem": {"has": p["mem"]["has"]}, "tables": len(p["tabs"]), "calls": calls, "configs": configs}


def failed(run):
    for k in ("refused", "invalid", "unlinkable"):
        if k in run:
            return "%s: %s" % (k, run[k])
    return None


class Reporter:
    def __init__(self, check, cap=3):
        self.check, self.cap, self.n = check, cap, 0

    def full(self):
        return self.n >= self.cap

    def report(self, what, data):
        self.n += 1
        if self.n <= self.cap:
            self.check.violation(what, data)


def describe(p, case, config, extra):
    d = {"wat": case["wat"], "calls": case["calls"], "config": config}
    d.update(extra)
    return d


# ------------------------------------------------------------- judging runs
CHUNK = 1500


def runs_against_machine(check, items, wanted, what, fwd=1, corrupt=None):
    """items: (program, calls, [config]); every run is checked against the machine.
    wanted(info, got): whether the mismatch concerns this property."""
    binary, tool = check.harness
    rep = check.reporter
    for at in range(0, len(items), CHUNK):
        part = items[at:at + CHUNK]
        cases = [case_of(i, p, calls, cfgs) for i, (p, calls, cfgs) in enumerate(part)]
        res = core.run_cases(binary, tool, cases, check.work)
        todo, src = [], []
        for (p, calls, cfgs), case, r in zip(part, cases, res):
            if "bad_wat" in r:
                raise ToolError("generated module refused: %s\n%s" % (r["bad_wat"], case["wat"]))
            for cfg, run_ in zip(cfgs, r["runs"]):
                f = failed(run_)
                if f:
                    rep.report("a valid module could not be instrumented or run (%s)" % f[:300], describe(p, case, cfg, {"failure": f}))
                    continue
                todo.append(core.tla_case(p, run_["log"], cfg["hooks"], cfg["targets"], fwd))
                src.append((p, case, cfg, run_))
        if not todo:
            continue
        verdicts, t = core.judge(todo, check.work)
        check.add_tlc(t)
        good = []
        for v, (p, case, cfg, run_), c in zip(verdicts, src, todo):
            check.count("runs_" + v["st"])
            check.count("entries_checked", v["pos"] - 1)
            if v["st"] == "ok":
                good.append(c)
            if v["st"] != "mismatch":
                check.traces(1)
                continue
            got = c["log"][v["pos"] - 1] if v["pos"] <= len(c["log"]) else {"k": "none"}
            if wanted(v["info"], got):
                rep.report("%s: the history differs from the specification at entry %d (%s); specified %s; got %s"
                           % (what, v["pos"], v["info"]["class"], json.dumps(v["info"]["want"]), json.dumps(got)),
                           describe(p, case, cfg, {"entry": v["pos"], "info": v["info"], "got": got, "log": c["log"]}))
            else:
                check.count("mismatches_of_other_properties")
        if corrupt and at == 0:
            self_test(check, good, corrupt)
        if good and at == 0:
            g = good[len(good) // 2]
            check.sample({"hooks": g["hooks"], "log": g["log"][:6]})
        if rep.full():
            break


def self_test(check, good, corrupt, need=0.3, n=60):
    """Corrupted histories must be rejected: the binding is not vacuous."""
    bad = []
    for c in good:
        k = corrupt(check.rng, copy.deepcopy(c))
        if k is not None:
            bad.append(k)
        if len(bad) >= n:
            break
    if not bad:
        return
    verdicts, t = core.judge(bad, check.work, name="self")
    rejected = sum(1 for v in verdicts if v["st"] == "mismatch")
    check.count("corrupted_histories", len(bad))
    check.count("corrupted_histories_rejected", rejected)
    if len(bad) >= 20 and rejected < need * len(bad):
        raise ToolError("only %d of %d corrupted histories were rejected" % (rejected, len(bad)))


def flip(b, i=0):
    b[i] = (b[i] + 1) % 256


def events(c):
    return [e for e in c["log"] if e["k"] == "ev"]


def corrupt_event(rng, c):
    """An operand changed, or a notification lost, repeated or moved."""
    at = [i for i, e in enumerate(c["log"]) if e["k"] == "ev"]
    if not at:
        return None
    i = rng.choice(at)
    r = rng.random()
    e = c["log"][i]
    if r < 0.4 and len(e["a"]) > 2 and e["a"][0]:
        flip(e["a"][0])
    elif r < 0.7:
        del c["log"][i]
    else:
        c["log"].insert(i, copy.deepcopy(e))
    return c


def corrupt_location(rng, c):
    ev = events(c)
    if not ev:
        return None
    flip(rng.choice(ev)["a"][-1 - rng.randrange(2)])
    return c


def corrupt_answer(rng, c):
    """An answer in the record that the program did not get."""
    ev = [e for e in events(c) if e["r"] and e["n"] not in ("specialized_select",)]
    if not ev:
        return None
    e = rng.choice(ev)
    if e["n"] in ("specialized_if_then_k", "specialized_if_then_else_k", "specialized_br_if"):
        e["r"] = [0, 0, 0, 0] if any(e["r"]) else [1, 0, 0, 0]
    else:
        flip(e["r"], 0)
    return c


def corrupt_outcome(rng, c):
    xs = [e for e in c["log"] if e["k"] in ("ret", "trap", "host", "state")]
    e = rng.choice(xs) if xs else None
    if e is None:
        return None
    if e["k"] == "ret":
        if not e["r"] or not e["r"][0]:
            return None
        flip(e["r"][0])
    elif e["k"] == "trap":
        e["t"] = "null" if e["t"] != "null" else "oob"
    elif e["k"] == "host":
        if not e["a"]:
            return None
        flip(e["a"][0])
    else:
        e["m"].append([50000, 1])
    return c


def corrupt_apply(rng, c):
    xs = [i for i, e in enumerate(c["log"]) if e["k"] in ("ap", "cb", "cbr")]
    if not xs:
        return None
    i = rng.choice(xs)
    e = c["log"][i]
    if e["k"] == "cb":
        del c["log"][i]
    elif e["v"] and e["v"][0]:
        flip(e["v"][0])
    else:
        e["k"] = "apd"
    return c


def plain(log):
    return [e for e in log if e["k"] != "ev" and e["k"] not in APPLY_KINDS]


# ------------------------------------------------------------- the properties
def is_event(info, got):
    return info["class"] in ("event", "args", "answer") or got["k"] == "ev"


def strat(rng, percent=0):
    return {"seed": rng.randrange(1, 1 << 30), "percent": percent}


def p09(check):
    binary, tool = check.harness
    rng, rep = check.rng, check.reporter
    items = body_cases(check, ["vcj", "vpj", "vct", "vlo", "vm", "vf", "vlm"], None if check.thorough else 700)
    items += random_cases(check, 14000 if check.thorough else 1300)
    items += many_calls(check, 400 if check.thorough else 60) + wide_cases(check, 12) + operator_cases(check, 20 if check.thorough else 2)
    rng.shuffle(items)
    for at in range(0, len(items), CHUNK):
        part, cases = items[at:at + CHUNK], []
        for i, (p, calls) in enumerate(part):
            cfgs = [{"hooks": ["GenericApply"] if (len(p["fn"]) == 3 and not p["gt"]) or (len(p["fn"]) > 100 and rng.random() < 0.5) else wasmgen.hook_set(rng, 0.25), "targets": targets_of(rng, p, 0.7), "strategy": strat(rng)}]
            if rng.random() < 0.3:
                cfgs.append({"hooks": ALL_HOOKS, "targets": None, "strategy": strat(rng)})
            cases.append(case_of(i, p, calls, cfgs))
        res = core.run_cases(binary, tool, cases, check.work)
        pairs, plainly, src = [], [], []
        for (p, calls), case, r in zip(part, cases, res):
            if "bad_wat" in r or "log" not in r["orig"]:
                raise ToolError("generated module refused: %s\n%s" % (r, case["wat"]))
            for cfg, run_ in zip(case["configs"], r["runs"]):
                f = failed(run_)
                if f:
                    rep.report("a valid module could not be instrumented or run (%s)" % f[:300], describe(p, case, cfg, {"failure": f}))
                    continue
                pairs.append(core.agree_case(run_, r["orig"], [], None))
                plainly.append(core.tla_case(p, plain(run_["log"]), cutok=1, steps=1500))
                src.append((p, case, cfg, run_, r["orig"]))
        verdicts, t = core.judge_agree(pairs, check.work)
        check.add_tlc(t)
        verdicts2, t = core.judge(plainly, check.work)
        check.add_tlc(t)
        good = []
        for v, w, c, (p, case, cfg, run_, orig) in zip(verdicts, verdicts2, plainly, src):
            check.count("pairs_" + v["st"])
            check.count("runs_" + w["st"])
            if v["st"] == "differ":
                a = run_["log"][v["i"] - 1] if v["i"] <= len(run_["log"]) else "nothing"
                b = orig["log"][v["j"] - 1] if v["j"] <= len(orig["log"]) else "nothing"
                rep.report("the instrumented program behaves differently from the original: %s where the original has %s" % (json.dumps(a)[:800], json.dumps(b)[:800]),
                           describe(p, case, cfg, {"instrumented": run_["log"], "original": orig["log"]}))
            elif w["st"] == "mismatch":
                rep.report("the instrumented program does not behave as the original does by the specification: %s" % json.dumps(w["info"]),
                           describe(p, case, cfg, {"log": c["log"], "pos": w["pos"]}))
            else:
                check.traces(1)
                if w["st"] == "ok":
                    good.append(c)
        if at == 0:
            self_test(check, good, corrupt_outcome, 0.7)
            if good:
                check.sample(good[0]["log"][:4])
        if rep.full():
            break


def p10(check):
    rng = check.rng
    items = []
    for p, calls in body_cases(check, list(BODIES), None if check.thorough else 800) + random_cases(check, 15000 if check.thorough else 1400) + wide_cases(check, 25) + operator_cases(check, 40 if check.thorough else 4):
        h = PLAIN_HOOKS if rng.random() < 0.4 else wasmgen.hook_set(rng, 0.1)
        items.append((p, calls, [{"hooks": h, "targets": None, "strategy": strat(rng)}]))
    rng.shuffle(items)
    runs_against_machine(check, items, is_event, "notifications", corrupt=corrupt_event)


def p11(check):
    rng = check.rng
    items = []
    for p, calls in body_cases(check, ["vcj", "vpj", "vct", "vlo", "vf", "vm"], None if check.thorough else 500) + random_cases(check, 9000 if check.thorough else 1100, imports=None) + wide_cases(check, 25):
        cfgs = [{"hooks": PLAIN_HOOKS, "targets": None, "strategy": strat(rng)},
                {"hooks": wasmgen.hook_set(rng, 0.2), "targets": targets_of(rng, p), "strategy": strat(rng)}]
        items.append((p, calls, cfgs))
    rng.shuffle(items)
    runs_against_machine(check, items, lambda info, got: info["class"] == "loc", "locations", corrupt=corrupt_location)


def p12(check):
    rng = check.rng
    items = []
    for p, calls in body_cases(check, ["vcj", "vpj", "vct", "vlo", "vm", "vf", "vco"], None if check.thorough else 600) + random_cases(check, 15000 if check.thorough else 1500) + wide_cases(check, 15) + operator_cases(check, 60 if check.thorough else 6):
        h = PLAIN_HOOKS if rng.random() < 0.3 else wasmgen.hook_set(rng, 0.1)
        items.append((p, calls, [{"hooks": h, "targets": targets_of(rng, p, 0.8), "strategy": strat(rng, rng.choice([10, 30, 60, 100]))}]))
    rng.shuffle(items)
    # a wrong location or argument of the notification itself is not about answers
    runs_against_machine(check, items, lambda info, got: info["class"] not in ("loc", "buffers"), "answers", fwd=0, corrupt=corrupt_answer)


def p13(check):
    binary, tool = check.harness
    rng, rep = check.rng, check.reporter
    items = random_cases(check, 9000 if check.thorough else 1100) + wide_cases(check, 15)
    items += body_cases(check, ["vcj", "vf", "vlo", "vcf"], None if check.thorough else 300)
    rng.shuffle(items)
    for at in range(0, len(items), CHUNK):
        part, cases = items[at:at + CHUNK], []
        for i, (p, calls) in enumerate(part):
            cases.append(case_of(i, p, calls, [
                {"hooks": PLAIN_HOOKS, "targets": None, "strategy": strat(rng)},
                {"hooks": wasmgen.hook_set(rng, 0), "targets": targets_of(rng, p, 0.1), "strategy": strat(rng)}]))
        res = core.run_cases(binary, tool, cases, check.work)
        shapes = core.run_cases(binary, tool, [dict(c, configs=c["configs"][1:]) for c in cases], check.work, command="iface")
        pairs, todo, ifs, src = [], [], [], []
        for (p, calls), case, r, sh in zip(part, cases, res, shapes):
            cfg = case["configs"][1]
            f = failed(r["runs"][0]) or failed(r["runs"][1]) or failed(sh["runs"][0])
            if f:
                rep.report("a valid module could not be instrumented or run (%s)" % f[:300], describe(p, case, cfg, {"failure": f}))
                continue
            # calls are not intercepted in the full run: interception itself is set aside
            part_run = dict(r["runs"][1], log=[e for e in r["runs"][1]["log"] if e["k"] not in APPLY_KINDS])
            pairs.append(core.agree_case(r["runs"][0], part_run, [h for h in cfg["hooks"] if h != "GenericApply"], cfg["targets"]))
            todo.append(core.tla_case(p, r["runs"][1]["log"], cfg["hooks"], cfg["targets"], 1))
            ifs.append(core.iface_case(p, sh["orig"], sh["runs"][0], cfg["hooks"], cfg["targets"]))
            src.append((p, case, cfg, r))
        va, t = core.judge_agree(pairs, check.work)
        check.add_tlc(t)
        vm, t = core.judge(todo, check.work)
        check.add_tlc(t)
        vi, t = core.judge_iface(ifs, check.work)
        check.add_tlc(t)
        good = []
        for a, m, s, c, (p, case, cfg, r) in zip(va, vm, vi, todo, src):
            check.count("pairs_" + a["st"])
            check.count("runs_" + m["st"])
            if a["st"] == "differ":
                fl, pl = r["runs"][0]["log"], r["runs"][1]["log"]
                rep.report("with fewer hooks or functions the rest is reported differently: %s, with everything %s"
                           % (json.dumps(pl[a["j"] - 1] if a["j"] <= len(pl) else None), json.dumps(fl[a["i"] - 1] if a["i"] <= len(fl) else None)),
                           describe(p, case, cfg, {"part": pl, "full": fl}))
            elif m["st"] == "mismatch" and m["info"]["class"] not in ("loc", "buffers"):
                got = c["log"][m["pos"] - 1] if m["pos"] <= len(c["log"]) else None
                rep.report("selected hooks and functions: entry %d differs (%s); specified %s; got %s" % (m["pos"], m["info"]["class"], json.dumps(m["info"]["want"]), json.dumps(got)),
                           describe(p, case, cfg, {"log": c["log"]}))
            elif "a function that was not selected changed" in s:
                rep.report("a function that was not selected has other code", describe(p, case, cfg, {}))
            else:
                check.traces(1)
                if m["st"] == "ok":
                    good.append(c)
        if at == 0:
            self_test(check, good, corrupt_event)
        if rep.full():
            break


def p14(check):
    rng = check.rng
    fwd, mut = [], []
    progs = random_cases(check, 6000 if check.thorough else 700) + random_cases(check, 6000 if check.thorough else 700, imports=2)
    progs += wide_cases(check, 25)
    progs += body_cases(check, ["vf", "vcf"], None if check.thorough else 400)
    for p, calls in progs:
        h = ["GenericApply"] if rng.random() < 0.5 else ["GenericApply"] + [x for x in PLAIN_HOOKS if rng.random() < 0.2]
        if rng.random() < 0.35:
            fwd.append((p, calls, [{"hooks": h, "targets": targets_of(rng, p, 0.6), "strategy": strat(rng)}]))
        else:
            mut.append((p, calls, [{"hooks": h, "targets": targets_of(rng, p, 0.6), "strategy": strat(rng, rng.choice([20, 50, 90]))}]))
    for p, calls in many_calls(check, 600 if check.thorough else 80):
        fwd.append((p, calls, [{"hooks": ["GenericApply"], "targets": rng.choice([None, [1], [0, 1]]), "strategy": strat(rng)}]))
    rng.shuffle(fwd)
    ok = lambda info, got: info["class"] != "loc"
    runs_against_machine(check, fwd, ok, "interception", 1, corrupt=corrupt_apply)
    if not check.reporter.full():
        runs_against_machine(check, mut, ok, "interception", 0)


def p22(check):
    rng = check.rng
    fwd, mut = [], []
    progs = random_cases(check, 7000 if check.thorough else 900, focus=["brt"] * 8 + ["exit"] * 4, refs=0)
    progs += body_cases(check, ["vct"], None if check.thorough else 1500)
    progs += wide_cases(check, 20)
    progs += table_cases(check, 4000 if check.thorough else 400)
    for p, calls in progs:
        h = ["BranchTable"] + [x for x in PLAIN_HOOKS if x != "BranchTable" and rng.random() < rng.choice([0, 0.2, 1])]
        if rng.random() < 0.5:
            fwd.append((p, calls, [{"hooks": h, "targets": None, "strategy": strat(rng)}]))
        else:
            mut.append((p, calls, [{"hooks": h, "targets": None, "strategy": strat(rng, rng.choice([30, 100]))}]))

    def about_tables(info, got):
        if info["class"] == "loc":
            return False
        names = [got.get("n"), (info["want"] or {}).get("n") if isinstance(info["want"], dict) else None]
        return "specialized_br_table" in names or info["class"] in ("event", "result", "globals", "memory", "state")
    runs_against_machine(check, fwd, about_tables, "branch tables", 1, corrupt=corrupt_table)
    if not check.reporter.full():
        runs_against_machine(check, mut, about_tables, "branch tables", 0)


def corrupt_table(rng, c):
    ev = [e for e in events(c) if e["n"] == "specialized_br_table"]
    if not ev:
        return None
    flip(rng.choice(ev)["a"][rng.choice([0, 1, 2])])
    return c


def table_cases(check, n):
    """Tables of every size over nested blocks, indexed by the argument at and around every boundary."""
    rng, res = check.rng, []
    for _ in range(n):
        depth = rng.choice([1, 2, 3, 4, 6])
        size = rng.choice([0, 1, 2, 3, 4, 7, 8, 16, 33])
        carry = rng.random() < 0.3
        r = ["i32"] if carry else []
        body = [{"k": "block", "p": [], "r": r} for _ in range(depth)]
        ls = [rng.randrange(depth) for _ in range(size)]
        if carry:
            body.append({"k": "const", "t": "i32", "v": [9, 0, 0, 0]})
        body.append({"k": "local.get", "i": 0, "t": "i32"})
        body.append({"k": "br_table", "ls": ls, "d": rng.randrange(depth)})
        for i in range(depth):
            body.append({"k": "end"})
            if carry:
                body += [{"k": "drop"}]
            body += [{"k": "const", "t": "i32", "v": [100 + i, 0, 0, 0]}, {"k": "return"}] if rng.random() < 0.8 else [{"k": "nop"}]
            if carry and i < depth - 1:
                body.append({"k": "const", "t": "i32", "v": [1, 0, 0, 0]})
        body += [{"k": "const", "t": "i32", "v": [77, 0, 0, 0]}, {"k": "end"}]
        p = body_program(body)
        idx = [0, 1, size - 1, size, size + 1, -1, -2, 0x7fffffff, -0x80000000, 1 << 16, 1 << 24, rng.getrandbits(32)]
        calls = [{"f": 1, "a": [wasmgen.le(x, 4)]} for x in idx]
        res.append((p, calls))
    return res


def p15(check):
    binary, tool = check.harness
    rng, rep = check.rng, check.reporter
    items = random_cases(check, 12000 if check.thorough else 1200, refs=0.4) + wide_cases(check, 20)
    items += body_cases(check, ["vcj", "vpj", "vct", "vlo", "vf"], None if check.thorough else 500)
    reserved_names(check)
    for at in range(0, len(items), CHUNK):
        part, cases = items[at:at + CHUNK], []
        for i, (p, calls) in enumerate(part):
            c = case_of(i, p, calls, [{"hooks": rng.choice([wasmgen.hook_set(rng, 0.4), ["GenericApply"], ALL_HOOKS, []]), "targets": targets_of(rng, p), "strategy": strat(rng)}])
            c["wat"] = decorate(rng, c["wat"], p)
            cases.append(c)
        res = core.run_cases(binary, tool, cases, check.work, command="iface")
        todo, src = [], []
        for (p, calls), case, r in zip(part, cases, res):
            if "bad_wat" in r or "invalid" in r["orig"]:
                raise ToolError("generated module refused: %s\n%s" % (r.get("bad_wat") or r["orig"], case["wat"]))
            x, cfg = r["runs"][0], case["configs"][0]
            f = failed(x)
            if f:
                rep.report("a valid module is instrumented into an invalid one or refused (%s)" % f[:300], describe(p, case, cfg, {"failure": f}))
                continue
            todo.append(core.iface_case(p, r["orig"], x, cfg["hooks"], cfg["targets"]))
            src.append((p, case, cfg, r))
        verdicts, t = core.judge_iface(todo, check.work)
        check.add_tlc(t)
        good = []
        for v, (p, case, cfg, r), c in zip(verdicts, src, todo):
            v = [x for x in v if x != "a function that was not selected changed"]
            if v:
                rep.report("the instrumented module's interface is wrong: %s" % ", ".join(v),
                           describe(p, case, cfg, {"orig": {k: r["orig"][k] for k in ("imports", "exports", "memories", "tables", "globals", "data", "elements", "start")},
                                                   "inst": {k: r["runs"][0][k] for k in ("imports", "exports", "memories", "tables", "globals", "data", "elements", "start")}}))
            else:
                check.traces(1)
                good.append(c)
        # and they can be loaded and started
        res = core.run_cases(binary, tool, [dict(c, calls=c["calls"][:1]) for c in cases], check.work)
        for (p, calls), case, r in zip(part, cases, res):
            f = failed(r["runs"][0])
            if f and not failed(r["orig"]):
                rep.report("the instrumented module cannot be instantiated (%s)" % f[:300], describe(p, case, case["configs"][0], {"failure": f}))
        if at == 0 and good:
            iface_self_test(check, good)
            check.sample({"imports": good[0]["inst"]["imports"][:4], "exports": good[0]["inst"]["exports"][:4]})
        if rep.full():
            break


def reserved_names(check):
    """Programs that already export what instrumentation adds (as an instrumented program does)."""
    binary, tool = check.harness
    wat = '(module (memory 1) (func (export "%s") (result i32) (i32.const 1)) (func (export "f") (drop (i32.load (i32.const 0))) (f64.store (i32.const 0) (f64.const 1))))'
    names = ["instrumented_memory_size", "instrumented_memory_grow", "instrumented_base_load_i32_8U", "instrumented_base_store_f64", "call_base"]
    cases = [{"id": i, "wat": wat % n, "globals": [], "start": -1, "mem": {"has": 1}, "tables": 0, "calls": [],
              "configs": [{"hooks": ["GenericApply", "Load", "Store"], "targets": None, "strategy": strat(check.rng)}]} for i, n in enumerate(names)]
    for n, r in zip(names, core.run_cases(binary, tool, cases, check.work, command="iface")):
        f = failed(r["runs"][0])
        if f:
            check.violation("a program that exports %s is instrumented into an invalid module or refused (%s)" % (n, f[:200]),
                                  {"export": n, "failure": f, "finding_key": "reserved-export-name" if "duplicate export name" in f else None})
    check.count("programs_exporting_reserved_names", len(names))


def iface_self_test(check, good):
    bad = []
    for c in good[:80]:
        c = copy.deepcopy(c)
        n, r = c["inst"], check.rng.randrange(5)
        if r == 0 and n["imports"]:
            # (which buffer functions are used is left open)
            x = check.rng.choice(n["imports"])
            if x["m"] == "wastrumentation_stack":
                continue
            n["imports"].remove(x)
        elif r == 1:
            n["exports"].pop(check.rng.randrange(len(n["exports"])))
        elif r == 2:
            n["memories"].append("1")
        elif r == 3:
            n["imports"].append({"m": "env", "n": "extra", "k": "func", "t": "()->()"})
        else:
            n["exports"][0]["t"] += "!"
        if n != c["orig"]:
            bad.append(c)
    v, t = core.judge_iface(bad, check.work, name="self")
    if any(not x for x in v):
        raise ToolError("%d of %d corrupted interfaces were accepted" % (sum(1 for x in v if not x), len(v)))
    check.count("corrupted_interfaces_rejected", len(v))


def decorate(rng, wat, p):
    """Things a module may have besides what the machine runs."""
    extra = []
    if rng.random() < 0.3:
        extra.append(' (export "again \\u{263a}" (func %d))' % rng.randrange(len(p["fn"])))
    if rng.random() < 0.2:
        extra.append(' (export "" (func %d))' % rng.randrange(len(p["fn"])))
    if rng.random() < 0.2 and p["mem"]["has"]:
        extra.append(' (export "memory" (memory 0))')
    if rng.random() < 0.2 and p["mem"]["has"] and p["mem"]["pages"]:
        extra.append(' (data (i32.const %d) "\\00\\ff\\22")' % rng.randrange(60))
    if rng.random() < 0.2 and p["fn"]:
        extra.append(" (global (mut i64) (i64.const %d))" % rng.randrange(100))
    if rng.random() < 0.15:
        extra.append(' (table (export "more") 3 9 %s)' % rng.choice(["funcref", "externref"]))
    if rng.random() < 0.15:
        extra.append(' (import "env" "unused" (func (param f64) (result i64)))')
        # imports come first: only when nothing refers to function indices after it
        extra.pop()
    return wat.rstrip()[:-1] + "\n".join(extra) + ")"


PROPS = {"P09": p09, "P10": p10, "P11": p11, "P12": p12, "P13": p13, "P14": p14, "P15": p15, "P22": p22}


def main(prop, tier):
    check = Check(prop, tier)
    check.assumptions = list(ASSUME)
    check.harness = core.harness()
    check.reporter = Reporter(check)
    PROPS[prop](check)
    if check.reporter.n > check.reporter.cap:
        print("  (and %d more)" % (check.reporter.n - check.reporter.cap))
    return check.finish()
