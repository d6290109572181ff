"""P17: operator and access codes, from the instrumentation to the analysis libraries."""
import os, random, struct
import core, wasmgen, wasmbuild
from common import *
from corecheck import (ASSUME, PLAIN_HOOKS, Reporter, case_of, describe, events, failed, flip, runs_against_machine, self_test, strat)
from wasmgen import OPS, SIZE, le

INTS = {n: [le(x, n) for x in (0, 1, 2, 3, -1, -2, 7, 31, 32, 33, 63, 64, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0x80000001,
                               0xffffffff, (1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1, 0x0123456789abcdef, 0xf0f0f0f0f0f0f0f0, 10, -10, 100, -100)] for n in (4, 8)}


def floats(t):
    f = "<f" if t == "f32" else "<d"
    xs = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 3.7, -3.7, 127.0, 128.0, 255.0, 2147483520.0, 2147483648.0, -2147483648.0, 4294967040.0,
          4294967296.0, 9.2e18, -9.3e18, 1.9e19, float("inf"), float("-inf"), 1e-40, 16777217.0, 4.0, 9.0, 10.0, -7.0]
    res = [list(struct.pack(f, x)) for x in xs]
    res.append([0, 0, 0xc0, 0x7f] if t == "f32" else [0, 0, 0, 0, 0, 0, 0xf8, 0x7f])
    res.append([1, 0, 0xc0, 0xff] if t == "f32" else [1, 0, 0, 0, 0, 0, 0xf8, 0xff])
    return res


def operands(t):
    return INTS[SIZE[t]] if t in ("i32", "i64") else floats(t)


def arrange(names, ops, offset=0):
    """Body of a function with the parameters as operands of one instruction."""
    body = [{"k": "local.get", "i": i, "t": t} for i, t in enumerate(names)]
    return body + ops + [{"k": "end"}]


def program(p, r, body, mem=False):
    return {"ft": [{"p": p, "r": r}], "fn": [{"imp": "", "ty": 1, "loc": [], "body": body}], "gt": [], "gl": [],
            "mem": {"has": 1, "pages": 1, "limit": 1, "data": [[i, (i * 37 + 129) % 256] for i in range(24)]} if mem else {"has": 0, "pages": 0, "limit": 0, "data": []},
            "tabs": [], "start": -1}


def op_programs(check):
    """Every operator and access alone, with operand lists."""
    rng = check.rng
    res = []
    per = 40
    for name, p, r in OPS["UnaryOps"]:
        xs = operands(p)
        prog = program([p], [r], arrange([p], [{"k": "un", "o": name}]))
        res.append((prog, [{"f": 0, "a": [x]} for x in xs], "Unary"))
        more = [[rng.getrandbits(8) for _ in range(SIZE[p])] for _ in range(per * (10 if check.thorough else 1))]
        for at in range(0, len(more), per):
            res.append((prog, [{"f": 0, "a": [x]} for x in more[at:at + per]], "Unary"))
    for name, p, r in OPS["BinaryOps"]:
        xs = operands(p)
        pairs = [(a, b) for a in xs for b in xs]
        if not check.thorough:
            pairs = rng.sample(pairs, 4 * per)
        # operands that tell the operator from its neighbours, in both orders
        pairs += [(xs[1], xs[4]), (xs[4], xs[1]), (xs[8], xs[2]), (xs[2], xs[8]), (xs[3], xs[3])]
        prog = program([p, p], [r], arrange([p, p], [{"k": "bin", "o": name}]))
        for at in range(0, len(pairs), per):
            res.append((prog, [{"f": 0, "a": list(x)} for x in pairs[at:at + per]], "Binary"))
    page = 65536
    for name, t, w, s in OPS["LoadOps"]:
        w = int(w)
        for off in [0, 1, 5, 255, 256, 65535 - w, 65536, 0x12345, 0x7fffffff]:
            prog = program(["i32"], [t], arrange(["i32"], [{"k": "load", "o": name, "off": le(off, 4)}]), True)
            ptrs = [0, 1, 2, 7, 23, page - w - off, page - w - off + 1, page - off, -1, -off, 1 - off, 0x7fffffff, rng.randrange(page)]
            res.append((prog, [{"f": 0, "a": [le(x, 4)]} for x in ptrs], "Load"))
    for name, t, w in OPS["StoreOps"]:
        w = int(w)
        for off in [0, 1, 5, 256, 65535 - w, 65536, 0x7fffffff]:
            prog = program(["i32", t], [], arrange(["i32", t], [{"k": "store", "o": name, "off": le(off, 4)}]), True)
            ptrs = [0, 1, 7, page - w - off, page - w - off + 1, -1, -off, rng.randrange(page)]
            vals = [[(0x81 + 0x11 * i) % 256 for i in range(SIZE[t])], [255] * SIZE[t]]
            res.append((prog, [{"f": 0, "a": [le(x, 4), v]} for x in ptrs for v in vals], "Store"))
    check.count("operators_and_accesses", len({(p["fn"][0]["body"][-2]["o"]) for p, _, _ in res}))
    return res


def corrupt_code(rng, c):
    """Another code of the same family, or the answer of another operator."""
    ev = [e for e in events(c) if len(e["a"]) > 3]
    if not ev:
        return None
    e = rng.choice(ev)
    if rng.random() < 0.5 or not e["r"] or e["x"]:
        e["a"][-3] = le(e["a"][-3][0] + 1, 4)
    else:
        flip(e["r"])
    return c


def wanted(info, got):
    return info["class"] != "loc"


def compiled(check):
    """The repository's own forwarding analysis and library, as WebAssembly."""
    try:
        path = os.path.join(check.work, "forward.wasm")
        with open(path, "wb") as f:
            f.write(wasmbuild.analysis("forward"))
        return path
    except (ToolError, OSError) as e:
        print("the Rust analysis could not be compiled and is not checked: " + str(e)[-600:])
        return None


def p17(check):
    rng, rep = check.rng, check.reporter
    path = compiled(check)
    items, analysed = [], []
    for p, calls, hook in op_programs(check):
        for at in range(0, len(calls), 45):
            part = calls[at:at + 45]
            h = [hook] if rng.random() < 0.7 else PLAIN_HOOKS
            if h is PLAIN_HOOKS:
                part = part[:20]
            items.append((p, part, [{"hooks": h, "targets": None, "strategy": strat(rng)}]))
            analysed.append((p, part, [{"hooks": h, "targets": None, "strategy": strat(rng), "analysis": path}]))
    # the operators in the middle of other code
    for _ in range(6000 if check.thorough else 500):
        g = wasmgen.Gen(random.Random(rng.getrandbits(60)), refs=0, size=20)
        prog = g.program()
        for f in prog["fn"]:
            for ins in f["body"]:
                if "off" in ins:
                    ins["off"][3] &= 127  # the compiled library cannot take larger offsets
        x = (prog, g.call_list(), [{"hooks": ["Unary", "Binary", "Load", "Store"], "targets": None, "strategy": strat(rng)}])
        items.append(x)
        analysed.append((x[0], x[1], [dict(x[2][0], analysis=path)]))
    runs_against_machine(check, items, wanted, "codes", corrupt=corrupt_code)
    check.count("runs_with_scripted_analysis", len(items))
    if path and not rep.full():
        runs_against_machine(check, analysed, wanted, "codes as decoded by the Rust analysis library")
        agreement(check, analysed)
        check.count("runs_with_compiled_rust_analysis", len(analysed))


def agreement(check, items):
    """Where the specification leaves a floating-point result open, the original run gives it."""
    binary, tool = check.harness
    rep = check.reporter
    cases = [case_of(i, p, calls, cfgs) for i, (p, calls, cfgs) in enumerate(items)]
    res = core.run_cases(binary, tool, cases, check.work)
    pairs, src = [], []
    for case, r, (p, calls, cfgs) in zip(cases, res, items):
        if failed(r["runs"][0]):
            continue
        pairs.append(core.agree_case(r["runs"][0], r["orig"], [], None))
        src.append((p, case, cfgs[0], r))
    verdicts, t = core.judge_agree(pairs, check.work)
    check.add_tlc(t)
    for v, (p, case, cfg, r) in zip(verdicts, src):
        check.count("pairs_" + v["st"])
        if v["st"] == "differ":
            a, b = r["runs"][0]["log"], r["orig"]["log"]
            rep.report("operators as decoded by the Rust analysis library give other results: %s instead of %s"
                       % (str(a[v["i"] - 1:v["i"]])[:400], str(b[v["j"] - 1:v["j"]])[:400]), describe(p, case, cfg, {"instrumented": a, "original": b}))
        else:
            check.traces(1)


def main(prop, tier):
    check = Check(prop, tier)
    check.assumptions = ASSUME + ["static offsets of 2^31 and more are not used with the compiled Rust analysis: its library takes offsets as signed 32-bit numbers"]
    check.harness = core.harness()
    check.reporter = Reporter(check)
    p17(check)
    return check.finish()
