"""P23: the command lines, against spec/Cli.tla."""
import concurrent.futures as cf
import copy, os, random, re, resource, shutil
import core, purity, wasmgen
from common import *
from corecheck import ALL_HOOKS, PLAIN_HOOKS, Reporter, random_cases
from pipeline import truncated

DATA = ["clap is the real one; clio, which opens what is named, and the Rust compiler are stand-ins (/verif/shims), the merge tool is the stand-in in harness/core",
        "a stand-in output may take only part of what one write offers, as an operating system may"]
KEBAB = {h: re.sub(r"(?<=[a-z])(?=[A-Z])", "-", h).lower() for h in ALL_HOOKS}


def modules(binary_dir, wats, work):
    f = os.path.join(work, "wats")
    with open(f, "w") as o:
        for w in wats:
            o.write(json.dumps({"wat": w}) + "\n")
    run([os.path.join(binary_dir, "modules"), "wasm", f, f + ".out"], 300)
    return [json.loads(x) for x in open(f + ".out")]


def usage_fault(rng, args, case):
    """A command line that is not one."""
    k = rng.randrange(8)
    a = list(args)
    i = lambda *ns: next((j for j, x in enumerate(a) if x in ns), None)
    if k == 0:
        j = i("-i", "--input-program-path")
        a = a[:j] + a[j + 2:]
    elif k == 1:
        a[i("-i", "--input-program-path") + 1] = os.path.join(case, "no-such-file.wasm")
    elif k == 2:
        j = i("-o", "--output-path")
        a = a[:j] + a[j + 2:]
    elif k == 3:
        a.append("--no-such-option")
    elif k == 4:
        a[i("-o", "--output-path") + 1] = os.path.join(case, "no-such-directory", "out")
    elif k == 5 and i("--hooks") is not None:
        a.insert(i("--hooks") + 1, rng.choice(["callpre", "CallPre", "call_pre", "everything", "call-", ""]))
    elif k == 6 and i("-r", "--rust-analysis-toml-path") is not None:
        a[i("-r", "--rust-analysis-toml-path") + 1] = os.path.join(case, "no-such.toml")
    elif i("--targets", "-m", "--minimum-body") is not None:
        a.insert(i("--targets", "-m", "--minimum-body") + 1, rng.choice(["x", "4294967296", "1.5", "0x3", ""]))
        if "--minimum-body" in a or "-m" in a:
            del a[i("-m", "--minimum-body") + 2]
    else:
        a.append("stray")
    return a


def spread(rng, flag, values):
    """Values of an option that takes several."""
    out = []
    while values:
        n = rng.randint(1, len(values))
        out += [flag] + [str(v) for v in values[:n]]
        values = values[n:]
    return out


def prepare(rng, use, case, wasm, module, p):
    """Files, arguments and expectations of one use."""
    os.makedirs(case)
    rec = {"tool": use["tool"], "faults": use["faults"], "log": [], "given": 0, "hooks": [], "allhooks": ALL_HOOKS}
    bad = "instrument" in use["faults"] or "read" in use["faults"]
    data = bytes.fromhex(truncated(rng, None)) if bad else bytes.fromhex(wasm)
    src = os.path.join(case, rng.choice(["in.wasm", "a program.wasm", "ü.wasm", "x"]))
    with open(src, "wb") as f:
        f.write(data)
    out = os.path.join(case, rng.choice(["out.wasm", "the result", "r.json"]))
    if rng.random() < 0.3:
        with open(out, "wb") as f:  # something older
            f.write(b"#" * rng.choice([1, 100, 100000]))
    stdin = rng.random() < 0.2
    stdout = "output" not in use["faults"] and rng.random() < 0.3
    options = [[rng.choice(["-i", "--input-program-path"]), "-" if stdin else src],
               [rng.choice(["-o", "--output-path"]), "/dev/full" if "output" in use["faults"] else "-" if stdout else out]]
    e = {"RTWC_DIR": case, "MERGETOOL_KEEP": os.path.join(case, "merge"), "TMPDIR": os.path.join(case, "tmp")}
    if rng.random() < 0.4:
        e["CLIO_CHUNK"] = str(rng.choice([1, 2, 7, 64, 1024]))
    os.makedirs(e["TMPDIR"])
    os.makedirs(e["MERGETOOL_KEEP"])
    if use["tool"] == "static":
        rec["min"] = {"none": -1, "zero": 0, "some": rng.choice([1, 2, 3, 5, 8, 9, 10, 11, 12, 14, 20, 2000000000])}[use["min"]]
        if rec["min"] == 8 and module["sizes"]:
            rec["min"] = rng.choice(module["sizes"])
        if rec["min"] >= 0:
            options.append([rng.choice(["-m", "--minimum-body"]), str(rec["min"])])
    else:
        manifest = os.path.join(case, rng.choice(["Cargo.toml", "my analysis/Cargo.toml", "sub/../an%20.toml"]))
        os.makedirs(os.path.dirname(manifest), exist_ok=True)
        os.makedirs(os.path.join(case, "sub"), exist_ok=True)
        open(manifest, "w").write("[package]\n")
        options.append([rng.choice(["-r", "--rust-analysis-toml-path"]), manifest])
        rec["manifest"] = manifest
        hooks = []
        if use["hooks"] in ("apply", "both"):
            hooks.append("GenericApply")
        if use["hooks"] in ("others", "both"):
            hooks += rng.sample(PLAIN_HOOKS, rng.choice([1, 1, 2, 5, len(PLAIN_HOOKS)]))
        rec["given"] = 1 if hooks else 0
        rec["hooks"] = hooks
        said = hooks + ([rng.choice(hooks)] if hooks and rng.random() < 0.2 else [])
        rng.shuffle(said)
        if said:
            options.append(spread(rng, "--hooks", [KEBAB[h] for h in said]))
        n = len(p["fn"])
        targets = None
        if use["targets"] == "some":
            targets = [rng.randrange(n) for _ in range(rng.randint(1, n))]
        elif use["targets"] == "beyond":
            targets = [n, n + 7, 4294967295] + rng.sample(range(n), rng.randrange(n))
            rng.shuffle(targets)
        if targets is not None:
            options.append(spread(rng, "--targets", targets))
        rec["all"], rec["targets"] = (1, []) if targets is None else (0, [t for t in targets if t < 2 ** 31])
        for s in ("setup", "analysis", "library"):
            if s in use["faults"]:
                open(os.path.join(case, s + ".fault"), "w").write(s + " refused")
        if "merge" in use["faults"]:
            e["MERGETOOL_FAIL"] = "merge refused"
        rec["nonce"] = "analysis %d" % rng.randrange(10 ** 9)
        open(os.path.join(case, "analysis"), "w").write(rec["nonce"])
        open(os.path.join(case, "library"), "w").write("library of " + rec["nonce"])
        rec["out"] = rng.choice(["merged %d", "\n", "line\nline\n%d", "x" * 5000 + "%d", "\r\n\t%d"]).replace("%d", str(rng.randrange(10 ** 9)))
        e["MERGETOOL_OUT"] = rec["out"]
    rng.shuffle(options)
    args = [x for o in options for x in o]
    if "usage" in use["faults"]:
        args = usage_fault(rng, args, case)
    return rec, args, e, data if stdin else None, None if stdout else out


def perform(bins, tool, rec, args, e, stdin, out, case):
    exe = os.path.join(bins, "wastrumentation-cli" if rec["tool"] == "instrument" else "static-analysis")
    env = dict(core.tool_env(tool))
    env.update(e)
    rc, so, se = run([exe] + args, 60, cwd=case, stdin=stdin, extra_env=env, check=False)
    rec["exit"] = -1 if rc is None else abs(rc)
    rec["silent"] = 0 if se.strip() else 1
    got = so if out is None else open(out, "rb").read() if os.path.exists(out) else b""
    rec["got"] = got.decode(errors="replace")
    requests = []
    for n in range(100):
        f = os.path.join(case, "request-%d" % n)
        if not os.path.exists(f):
            break
        t = open(f, errors="replace").read()
        kind, wasi, profile, rest = t.split("\n", 3)
        requests.append(({"k": kind, "wasi": wasi, "profile": profile, "path": rest if kind == "analysis" else ""}, rest))
    rec["log"] = [r for r, _ in requests]
    sources = "\n".join(t for r, t in requests if r["k"] == "library")
    merges = []
    for n in range(100):
        d = os.path.join(e["MERGETOOL_KEEP"], str(n))
        if not os.path.isdir(d):
            break
        lines = lambda f: open(os.path.join(d, f)).read().split("\n") if os.path.getsize(os.path.join(d, f)) else []
        m = {"k": "merge", "names": lines("names"), "opts": lines("opts"), "parts": [], "target": None}
        for i in range(len(m["names"])):
            b = open(os.path.join(d, "%d.wasm" % i), "rb").read()
            if b == rec["nonce"].encode():
                m["parts"].append("analysis")
            elif b == b"library of " + rec["nonce"].encode():
                m["parts"].append("library")
            else:
                m["parts"].append("target")
                m["target"] = os.path.join(d, "%d.wasm" % i)
        merges.append(m)
    rec["log"] += merges
    if rec["tool"] == "static":
        rec["parsed"], rec["report"] = 0, []
        try:
            v = json.loads(rec["got"])
            if isinstance(v, list) and all(type(i) is int and 0 <= i < 2 ** 31 for i in v):
                rec["parsed"], rec["report"] = 1, v
        except ValueError:
            pass
    return sources


def judge(check, records, name):
    keep = ("tool", "faults", "log", "given", "hooks", "allhooks", "all", "targets", "ft", "fn", "orig", "manifest", "out", "got", "exit", "silent",
            "min", "fns", "sizes", "parsed", "report")
    slim = [{k: r[k] for k in keep if k in r} for r in records]
    f = dump(os.path.join(check.work, name + "-cli.json"), slim)
    r = tlc("CliTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", check.work, extra_env={"CASES": f}, timeout=800, heap="14g", name=name, trace=True)
    if r.violated:
        raise ToolError("a record outside the specification's domain\n" + r.out[-3000:])
    res = {x["case"]: x for x in r.printed("CLI")}
    if len(res) != len(records):
        raise ToolError("TLC judged %d of %d uses" % (len(res), len(records)))
    check.add_tlc(r)
    os.remove(f)
    return [res[i + 1]["bad"] for i in range(len(records))]


def spoil(rng, c):
    c = copy.deepcopy(c)
    k = rng.randrange(7)
    if k == 0:
        c["exit"] = 0 if c["exit"] else 1
    elif k == 1 and c["tool"] == "instrument" and c["exit"] == 0:
        c["got"] = c["got"][:-1]
    elif k == 2 and c["log"]:
        c["log"].pop(rng.randrange(len(c["log"])))
    elif k == 3 and c["log"] and c["log"][0]["k"] == "analysis":
        f = rng.choice(["wasi", "profile", "path"])
        c["log"][0][f] += "x"
    elif k == 4 and c["tool"] == "static" and c["exit"] == 0 and c["report"]:
        c["report"].append(c["report"][0])
    elif k == 5 and c["tool"] == "static" and c["exit"] == 0 and c["report"]:
        small = [i for i in c["report"]]
        c["min"] = c["sizes"][small[0]] + 1
    elif k == 6 and c["tool"] == "instrument" and c["given"] and c["log"] and c["log"][-1]["k"] == "merge":
        rest = [h for h in ALL_HOOKS if h not in c["hooks"]]
        if not rest:
            return None
        c["hooks"].append(rng.choice(rest))
    else:
        return None
    return c


def p23(check):
    rng, rep = check.rng, check.reporter
    bins, tool = check.bins, check.tool
    r = tlc("CliMC", "SPECIFICATION Spec\nINVARIANTS Told Requests\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n", check.work, timeout=600)
    if r.violated:
        raise ToolError("CliMC broke its own " + r.violated)
    check.add_tlc(r)
    uses = sorted(r.printed("USE"), key=lambda u: json.dumps(u, sort_keys=True))
    check.count("kinds_of_use_enumerated", len(uses))
    few = [u for u in uses if len(u["faults"]) <= 1]
    none = [u for u in uses if not u["faults"]]
    static = [u for u in uses if u["tool"] == "static"]
    if check.thorough:
        todo = uses * 3 + none * 60 + static * 15
    else:
        todo = few * 2 + rng.sample(uses, 300) + none * 10 + static * 3
    rng.shuffle(todo)
    progs = random_cases(check, 80 if check.thorough else 25)
    graphs = [purity.build(rng, purity.random_graph(rng)) for _ in range(400 if check.thorough else 80)]
    wats = [wasmgen.to_wat(p) for p, _ in progs] + [t for t, _ in graphs]
    mods = modules(bins, wats, check.work)
    if any("bad_wat" in m or "invalid" in m["facts"] for m in mods):
        raise ToolError("a generated module is refused")
    for lo in range(0, len(todo), 2000):
        items = []
        for i, u in enumerate(todo[lo:lo + 2000]):
            if u["tool"] == "static":
                k = len(progs) + rng.randrange(len(graphs))
                p = None
            else:
                k = rng.randrange(len(progs))
                p = progs[k][0]
            case = os.path.join(check.work, "use-%d" % (lo + i))
            rec, args, e, stdin, out = prepare(rng, u, case, mods[k]["hex"], mods[k], p)
            if p is None:
                rec["fns"], rec["sizes"] = graphs[k - len(progs)][1], mods[k]["sizes"]
            else:
                rec.update(ft=p["ft"], fn=[f["ty"] for f in p["fn"]], orig=mods[k]["facts"])
            items.append((rec, args, e, stdin, out, case, k))
        with cf.ThreadPoolExecutor(CPUS) as ex:
            sources = list(ex.map(lambda x: perform(bins, tool, *x[:6]), items))
        # the structure of what was merged
        named = [(m, s) for it, s in zip(items, sources) for m in it[0]["log"] if m["k"] == "merge" and m["target"]]
        f = os.path.join(check.work, "targets")
        open(f, "w").write("".join(m["target"] + "\n" for m, _ in named))
        run([os.path.join(bins, "modules"), "facts", f, f + ".out"], 300)
        for (m, s), line in zip(named, open(f + ".out")):
            m["target"] = json.loads(line)
            offered = set(re.findall(r'extern "C" fn (\w+)', s))
            m["library"] = [{"n": x["n"], "k": x["k"], "t": x["t"]} for x in m["target"].get("imports", []) if x["m"] == "wastrumentation_stack" and x["n"] in offered]
        for it in items:
            for m in it[0]["log"]:
                if m["k"] == "merge" and not m["target"]:
                    m["target"], m["library"] = {"invalid": "not given"}, []
            shutil.rmtree(it[5])
        records = [it[0] for it in items]
        verdicts = judge(check, records, "c%d" % lo)
        for v, it in zip(verdicts, items):
            rec = it[0]
            check.count("uses_" + ("succeeding" if rec["exit"] == 0 else "failing"))
            if v:
                rep.report("%s %s: %s" % (rec["tool"], " ".join(it[1])[:300], v),
                           {"args": it[1], "env": it[2], "wat": wats[it[6]], "record": {k: rec[k] for k in rec if k not in ("ft", "fn", "orig", "allhooks")}})
            else:
                check.traces(1)
        if lo == 0:
            bad = [y for y in (spoil(rng, it[0]) for v, it in zip(verdicts, items) if not v) if y is not None]
            vs = judge(check, bad, "self")
            kept = [c for v, c in zip(vs, bad) if not v]
            check.count("corrupted_records_rejected", len(vs) - len(kept))
            if kept or not bad:
                raise ToolError("%d corrupted records were accepted, e.g. %s" % (len(kept), json.dumps({k: kept[0][k] for k in kept[0] if k not in ("ft", "fn", "orig", "allhooks")})[:1500] if kept else ""))
            check.sample({"args": items[0][1], "exit": records[0]["exit"]})
        if rep.full():
            break


def main(prop, tier):
    check = Check(prop, tier)
    check.assumptions = DATA
    check.bins = build("cli")
    check.tool = os.path.join(VERIF, "target", "cli", "tool")
    os.makedirs(check.tool, exist_ok=True)
    tmp = os.path.join(check.tool, "wasm-merge.%d" % os.getpid())
    shutil.copy(os.path.join(check.bins, "mergetool"), tmp)
    os.replace(tmp, os.path.join(check.tool, "wasm-merge"))
    check.reporter = Reporter(check)
    p23(check)
    return check.finish()
