"""Runs the real instrumentation and a WebAssembly engine, and checks the histories against spec/Machine.tla."""
import concurrent.futures as cf
import json, os, shutil, sys
import common
from common import *
import wasmgen

MACHINE_CFG = "SPECIFICATION Spec\nINVARIANTS WellFormed Bytes Limits\nPROPERTY Advances\nCHECK_DEADLOCK FALSE\n"


def harness():
    """Builds the harness; returns (binary, directory with the stand-in merge tool)."""
    d = build("core")
    tool = os.path.join(VERIF, "target", "core", "tool")
    os.makedirs(tool, exist_ok=True)
    dst = os.path.join(tool, "wasm-merge")
    tmp = dst + ".%d" % os.getpid()
    shutil.copy(os.path.join(d, "mergetool"), tmp)
    os.replace(tmp, dst)
    return os.path.join(d, "core"), tool


def tool_env(tool):
    return {"PATH": tool + ":" + env()["PATH"]}


def run_cases(binary, tool, cases, work, name="cases", timeout=600, command="run"):
    """Runs harness cases in parallel; returns results in order."""
    n = max(1, min(CPUS, len(cases)))
    parts = [cases[i::n] for i in range(n)]

    def one(i):
        src = os.path.join(work, "%s-%d.in" % (name, i))
        dst = os.path.join(work, "%s-%d.out" % (name, i))
        with open(src, "w") as f:
            for c in parts[i]:
                f.write(json.dumps(c) + "\n")
        run([binary, command, src, dst], timeout, cwd=work, extra_env=tool_env(tool))
        res = [json.loads(x) for x in open(dst)]
        os.remove(src)
        os.remove(dst)
        return res
    with cf.ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(one, range(n)))
    res = [None] * len(cases)
    for i, part in enumerate(outs):
        for j, r in enumerate(part):
            res[i + j * n] = r
    return res


def tla_case(program, log, hooks=(), targets=None, fwd=1, cutok=0, steps=6000):
    c = {k: program[k] for k in ("ft", "fn", "gl", "mem")}
    c["tabs"], c["tabmax"] = [t["e"] for t in program["tabs"]], [t["max"] for t in program["tabs"]]
    c["elems"], c["datas"] = [x["e"] for x in program.get("elems", [])], program.get("datas", [])
    c["start"] = program.get("start", -1)
    c["cutok"], c["steps"] = cutok, steps
    c["hooks"], c["fwd"], c["log"] = list(hooks), fwd, log
    c["all"], c["targets"] = (1, []) if targets is None else (0, list(targets))
    return c


def judge(cases, work, name="m", timeout=800, heap="10g"):
    """Lets TLC run the machine on each history; returns one verdict per case and the TLC result."""
    f = dump(os.path.join(work, name + "-cases.json"), cases)
    r = tlc("Machine", MACHINE_CFG, work, extra_env={"CASES": f}, timeout=timeout, heap=heap, name=name)
    if r.violated:
        raise ToolError("the machine broke its own invariant %s\n%s" % (r.violated, r.out[-3000:]))
    res = {}
    for x in r.printed("RES"):
        res[x["case"]] = x
    if len(res) != len(cases):
        raise ToolError("TLC judged %d of %d cases" % (len(res), len(cases)))
    os.remove(f)
    return [res[i + 1] for i in range(len(cases))], r


def iface_case(program, orig, inst, hooks, targets):
    c = {"ft": program["ft"], "fn": [f["ty"] for f in program["fn"]], "hooks": list(hooks), "orig": orig, "inst": inst,
         "library": inst.get("library") or []}
    c["all"], c["targets"] = (1, []) if targets is None else (0, list(targets))
    return c


def judge_iface(cases, work, name="i", timeout=800):
    f = dump(os.path.join(work, name + "-iface.json"), cases)
    r = tlc("Iface", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", work, extra_env={"CASES": f}, timeout=timeout, heap="10g", name=name)
    res = {x["case"]: x["bad"] for x in r.printed("IFACE")}
    if len(res) != len(cases):
        raise ToolError("TLC judged %d of %d interfaces" % (len(res), len(cases)))
    os.remove(f)
    return [res[i + 1] for i in range(len(cases))], r


def agree_case(full, part, hooks, targets):
    c = {"full": full["log"], "part": part["log"], "fullcut": 1 if full["cut"] else 0, "partcut": 1 if part["cut"] else 0, "hooks": list(hooks)}
    # the first run did not end although the second took next to no time
    c["hangs"] = 1 if full.get("hang") and not part["cut"] and part["spent"] < 3000 else 0
    c["all"], c["targets"] = (1, []) if targets is None else (0, list(targets))
    return c


def judge_agree(cases, work, name="a", timeout=800):
    f = dump(os.path.join(work, name + "-agree.json"), cases)
    r = tlc("Agree", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", work, extra_env={"CASES": f}, timeout=timeout, heap="10g", name=name)
    res = {x["case"]: x for x in r.printed("AGREE")}
    if len(res) != len(cases):
        raise ToolError("TLC judged %d of %d pairs" % (len(res), len(cases)))
    os.remove(f)
    return [res[i + 1] for i in range(len(cases))], r
