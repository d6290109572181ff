"""P01-P05: the WASP compiler against spec/Wasp.tla, WaspGen.tla, WaspText.tla."""
import json, os, subprocess, concurrent.futures as cf
import common as C

INV = {"P01": "P01_Entries", "P02": "P02_Bodies", "P03": "P03_Outcome", "P04": "P04_JoinPoints", "P05": "P05_Layout"}
EMPTY = {"names": [], "defs": [], "flags": [], "specs": [], "generic": False, "cond": False, "call": False}


def untok(chars):
    """The text of a list of one-character strings (uXXXX names a non-ASCII character)."""
    return "".join(c if len(c) == 1 else chr(int(c[1:], 16)) for c in chars)


def tok(s):
    return [c if (32 <= ord(c) < 127 or c in "\n\r\t") else "u%x" % ord(c) for c in s]


# Long stretches of text without meaning to the language, inside guest text or comments. The specification sees each as
# one character (characters outside its alphabet are opaque to it); the compiler is given the whole stretch.
LONG = {"\ue001": "".join("%d;" % i for i in range(14000)),                       # beyond 2^16 bytes
        "\ue002": "".join("%d\n  \u00e9\t" % i for i in range(30000)),             # lines, non-ASCII
        "\ue003": "".join("%x\r\n" % (i * 7919) for i in range(140000))}          # beyond 2^20 bytes


def expand(text):
    for c, w in LONG.items():
        text = text.replace(c, w)
    return text


def contract(answer):
    def short(chars):
        text = untok(chars)
        for c, w in LONG.items():
            text = text.replace(w, c)
        return tok(text)
    answer["text"] = short(answer["text"])
    for d in answer["real"]["defs"]:
        d["body"] = short(d["body"])
    return answer


def compile_all(bindir, texts, timeout=None):
    """Runs the real compiler on all texts, in parallel slices; a text on which the
    process dies or does not come back gets the class "crash" or "hang"."""
    timeout = timeout or 60 + len(texts) * 0.02
    n = C.CPUS
    slices = [list(range(i, len(texts), n)) for i in range(n)]
    out = [None] * len(texts)

    def work(ids):
        todo = list(ids)
        while todo:
            data = "".join(json.dumps(expand(texts[i])) + "\n" for i in todo).encode()
            rc, o, e = C.run([os.path.join(bindir, "wasp")], timeout, stdin=data, check=False)
            lines = [l for l in o.decode().split("\n") if l.endswith("}")]
            for i, l in zip(todo, lines):
                out[i] = json.loads(l)
                if any(c in texts[i] for c in LONG):
                    out[i] = contract(out[i])
            if len(lines) == len(todo):
                return
            bad = todo[len(lines)]
            out[bad] = {"text": tok(texts[bad]), "real": dict(EMPTY, **{"class": "hang" if rc is None else "crash"})}
            todo = todo[len(lines) + 1:]

    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(work, [s for s in slices if s]))
    return out


def norm(r):
    r = dict(r)
    r["specs"] = sorted(r["specs"], key=lambda x: json.dumps(x))
    r["flags"] = sorted(r["flags"])
    return r


def strip(d):
    return {k: d[k] for k in ("kind", "form", "names", "args", "ress")}


def differs(prop, real, exp):
    """How the real answer departs from the stated one, in what the property speaks of."""
    real, exp = norm(real), norm(exp)
    ok = exp["class"] == "none"
    if prop == "P03":
        return (real["class"], real["names"]) != (exp["class"], exp["names"])
    if prop == "P05":
        return real["class"] != exp["class"] or (ok and real != exp)
    if not ok:
        return False
    if real["class"] != "none":
        return True
    if prop == "P01":
        return [strip(d) for d in real["defs"]] != [strip(d) for d in exp["defs"]]
    if prop == "P02":
        return [d["body"] for d in real["defs"]] != [d["body"] for d in exp["defs"]]
    return any(real[k] != exp[k] for k in ("flags", "specs", "generic", "cond", "call"))


# ---------------------------------------------------------------- texts written here
KINDS0 = ["global", "advice block pre", "advice block post", "advice loop pre", "advice loop post"]
FORMALS = {
    "advice call pre": ["FunctionIndex"], "advice call post": ["FunctionIndex"], "advice select": ["Condition"],
    "advice call_indirect pre": ["FunctionTable", "FunctionTableIndex"],
    "advice call_indirect post": ["FunctionTable"], "advice if_then": ["Condition"],
    "advice if_then_else": ["Condition"], "advice br_if": ["Condition", "Label"],
    "advice br_table": ["Target", "Default"]}
TYS = ["I32", "F32", "I64", "F64"]
BADTYS = ["V128", "I8", "I33", "F128", "Args", "DynArgs", "Results", "II32", "I32x", "FuncRef", "I320"]
PAIRS = [("Args", "Results"), ("DynArgs", "DynResults"), ("MutDynArgs", "MutDynResults")]
BODY_BITS = ["", " ", "x", "return x + 1;", "\n", "\r\n", "\t", "#|", "|#", "#| a |#", "(", ")", "((", "(advice",
             "aspect", ">>>GUEST>>>", "<<<GUEST<<", "<<<", ">>>", "GUEST", "<", "é", "\U0001F534", "\"", "\\", "'", "//",
             "/* */", "`${a}`", "global", "#", "|", "<<<GUEST >>>", "\u00a0", "\u2028", "0", "\ufeff",
             "e\u0301", "\u0000", "\u000b", "\u000c", "\u001b", "\u007f", "\u0085", "\u200b", "\u3000", "\u00df", "$", "$1", "\\\n",
             "\\u{41}", "&lt;", "{{", "}}", "  ", "\n\n", "\t\t", "Args", "WasmFunction", "\u0130", "---", ";", "{", "}", "%", "\\n"]
WORDS = ["aspect", "global", "advice", "apply", "call", "pre", "post", "block", "loop", "select", "call_indirect",
         "if_then", "if_then_else", "br_if", "br_table", "Mut", "WasmFunction", "FunctionIndex", "FunctionTable",
         "FunctionTableIndex", "Condition", "Label", "Target", "Default", "(", ")", "I32", "Args", "Results", "br",
         "if", "then", "else", "if_then_", "table", "Conditions", "condition", "preposterous"]


class Gen:
    def __init__(self, rng):
        self.r = rng

    def name(self, pool=None):
        r = self.r
        if pool and r.random() < 0.9:
            return r.choice(pool)
        k = r.random()
        if k < 0.4:
            return r.choice("abcdefghijklmnopqrstuvwxyzABCXYZ")
        if k < 0.5:
            return r.choice([w for w in WORDS if w.isalpha() and w.isascii()])
        return "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(r.randint(1, 9)))

    def body(self, wild):
        r = self.r
        if not wild:
            return r.choice(["", "x", "a b", " y ", "return;"])
        b = "".join(r.choice(BODY_BITS) for _ in range(r.randint(0, 7)))
        while "<<<GUEST<<<" in b + "<<<GUEST<<"  or (b + "<<<GUEST<<<").find("<<<GUEST<<<") != len(b):
            b = b[:-1] if b else ""
        return b

    def distinct(self, n):
        s = []
        while len(s) < n:
            x = self.name()
            if x not in s:
                s.append(x)
        return s

    def definition(self, good=True, wild=False):
        """A definition as a list of tokens; the guest block is one token."""
        r = self.r
        g = ">>>GUEST>>>" + self.body(wild) + "<<<GUEST<<<"
        k = r.random()
        if k < 0.2:
            return r.choice(KINDS0).split() + [g]
        if k < 0.5:
            head = r.choice(list(FORMALS))
            t = head.split()
            for f in FORMALS[head]:
                t += ["(", self.name(), f, ")"]
            return t + [g]
        t = ["advice", "apply"]
        if k < 0.65:
            if good:
                f, a, x = self.distinct(3)
                ta, tr = r.choice(PAIRS)
            else:
                f, a, x = (self.name(["a", "b", "c"]) for _ in range(3))
                ta, tr = r.choice(r.choice(PAIRS)), r.choice(r.choice(PAIRS))
                if r.random() < 0.5:
                    ta, tr = r.choice(PAIRS)
            return t + ["(", f, "WasmFunction", ")", "(", a, ta, ")", "(", x, tr, ")", g]
        na, nr = r.choice([1, 1, 2, 3, 4, r.randint(1, 12)]), r.choice([1, 1, 2, 3, r.randint(1, 8)])
        if good:
            names = self.distinct(na + nr)
        else:
            names = [self.name(list("abcdefghijklmnop")[:r.choice([2, 6, 16])]) for _ in range(na + nr)]
        tys = [r.choice(TYS) if good or r.random() < 0.85 else r.choice(BADTYS) for _ in names]
        mut = ["Mut"] if r.random() < 0.5 else []
        t += ["(", self.name(), "WasmFunction", ")", "("] + mut
        for n, y in list(zip(names, tys))[:na]:
            t += ["(", n, y, ")"]
        t += [")", "("] + mut
        for n, y in list(zip(names, tys))[na:]:
            t += ["(", n, y, ")"]
        return t + [")", g]

    def program(self, n, good=True, wild=False):
        t = ["(", "aspect"]
        for _ in range(n):
            t += ["("] + self.definition(good if isinstance(good, bool) else self.r.random() < good, wild) + [")"]
        return t + [")"]

    def related(self):
        """Specialised applies whose signatures are nearly the same: equal, a prefix, one type other, types moved between
        the arguments and the results, in another order, exchanged."""
        r = self.r
        a = [r.choice(TYS) for _ in range(r.choice([1, 2, 3, 5, 9, 17, 33]))]
        b = [r.choice(TYS) for _ in range(r.choice([1, 1, 2, 4, 9, 17]))]
        sigs = [(a, b)]
        for _ in range(r.randint(1, 6)):
            x, y = (list(z) for z in r.choice(sigs))
            k = r.randrange(8)
            if k == 0:
                x, y = y, x
            elif k == 1:
                x, y = x + y[:1], y[1:] or y
            elif k == 2:
                z = r.choice([x, y])
                i = r.randrange(len(z))
                z[i] = r.choice([t for t in TYS if t != z[i]])
            elif k == 3:
                z = r.choice([x, y])
                z.reverse()
            elif k == 4:
                r.choice([x, y]).append(r.choice(TYS))
            elif k == 5 and len(x) > 1:
                x.pop(r.choice([0, -1]))
            elif k == 6:
                r.shuffle(r.choice([x, y]))
            sigs.append((x, y))
        t = ["(", "aspect"]
        for x, y in sigs:
            names = ["x" + "".join("abcdefghijklmnop"[int(d, 16)] for d in "%x" % i) for i in range(len(x) + len(y))]
            mut = ["Mut"] if r.random() < 0.5 else []
            t += ["(", "advice", "apply", "(", "f", "WasmFunction", ")"]
            for ns, ts in ((names[:len(x)], x), (names[len(x):], y)):
                t += ["("] + mut + [w for n, y_ in zip(ns, ts) for w in ("(", n, y_, ")")] + [")"]
            t += [">>>GUEST>>>", "<<<GUEST<<<", ")"]
            if r.random() < 0.2:
                t += ["("] + self.definition(True, False) + [")"]
        t += [")"]
        return self.render([w for w in t], "one").replace(">>>GUEST>>> <<<GUEST<<<", ">>>GUEST>>><<<GUEST<<<")

    def comment(self):
        r = self.r
        body = "".join(r.choice(["", " ", "x", "|", "#", "(", ")", ">>>GUEST>>>", "<<<GUEST<<<", "\n", "#|", "é", "aspect"])
                       for _ in range(r.randint(0, 4)))
        while "|#" in body + "|#"[:1] and (body + "|#").find("|#") != len(body):
            body = body[:-1]
        return "#|" + body + "|#"

    def sep(self, style):
        r = self.r
        if style == "one":
            return " "
        if style == "none":
            return ""
        if style == "lines":
            return "".join(r.choice(" \n\r\t") for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])))
        if style == "comment":
            return r.choice(["", " "]) + self.comment() + r.choice(["", "\n"])
        return self.sep(r.choice(["one", "none", "lines", "comment", "comment"])) + \
            (self.sep(r.choice(["one", "comment"])) if r.random() < 0.2 else "")

    def render(self, toks, style="mixed"):
        out = self.sep(style)
        for i, t in enumerate(toks):
            if i:
                s = self.sep(style)
                p = toks[i - 1]
                if s == "" and p[-1:].isalnum() and t[:1].isalnum():
                    s = " "
                out += s
            out += t
        return out + self.sep(style)

    def corrupt_tokens(self, toks):
        r = self.r
        t = list(toks)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            i = r.randrange(len(t)) if t else 0
            k = r.randrange(7)
            if not t:
                break
            if k == 0:
                del t[i]
            elif k == 1:
                t.insert(i, r.choice(WORDS))
            elif k == 2:
                t.insert(i, t[i])
            elif k == 3:
                t[i] = r.choice(WORDS)
            elif k == 4:
                j = r.randrange(len(t))
                t[i], t[j] = t[j], t[i]
            elif k == 5:
                t[i] = r.choice([t[i].upper(), t[i].lower(), t[i] + "x", t[i] + "1", t[i][:-1], "_" + t[i], t[i][1:]])
            else:
                t[i] = r.choice(["", "1", "a1", "a_b", "é", "#|", "|#", "I", "i32", ">>>GUEST>>>", "<<<GUEST<<<", "((", "))", "."])
        return t

    def corrupt_chars(self, s):
        r = self.r
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if not s:
                break
            i = r.randrange(len(s))
            k = r.randrange(6)
            c = r.choice("()<>#| \n\taGI3_x;\u00e9\x00\x0b\x0c\u00a0Z")
            if k == 0:
                s = s[:i] + s[i + 1:]
            elif k == 1:
                s = s[:i] + c + s[i:]
            elif k == 2:
                s = s[:i] + c + s[i + 1:]
            elif k == 3:
                s = s[:i]
            elif k == 4:
                j = min(len(s), i + r.randint(1, 15))
                s = s[:i] + s[j:]
            else:
                s = s[:i] + s[i:i + 1].swapcase() + s[i + 1:]
        return s

    def garbage(self):
        r = self.r
        return "".join(r.choice(WORDS + [" ", " ", "\n", "#|", "|#", ">>>GUEST>>>", "<<<GUEST<<<", "a", "("])
                       for _ in range(r.randint(0, 25)))


def texts_for(prop, g, n):
    """Texts for the recorded-answer direction."""
    r = g.r
    T = []
    for i in range(n):
        size = r.choice([0, 1, 1, 2, 2, 3, 4, r.randint(1, 9)])
        if prop == "P01":
            T.append(g.render(g.program(size, True, r.random() < 0.2), "mixed"))
        elif prop == "P02":
            T.append(g.render(g.program(max(1, size), True, True), r.choice(["one", "mixed", "none"])))
        elif prop == "P04":
            T.append(g.related() if i % 5 == 4 else
                     g.render(g.program(r.choice([size, size, r.randint(4, 14)]), True, False), r.choice(["one", "lines"])))
        elif prop == "P03":
            k = i % 10
            if k < 3:
                T.append(g.render(g.program(max(1, size), 0.4, r.random() < 0.2), r.choice(["one", "mixed"])))
            elif k < 6:
                T.append(g.render(g.corrupt_tokens(g.program(max(1, min(size, 3)), 0.7)), r.choice(["one", "none", "mixed"])))
            elif k < 9:
                T.append(g.corrupt_chars(g.render(g.program(min(size, 3), 0.8, r.random() < 0.3), r.choice(["one", "none", "mixed"]))))
            else:
                T.append(g.garbage())
    return T


def big(g, thorough):
    """Programs past every plausible internal size: many definitions, parameters, long names and long guest texts."""
    r, T = g.r, []
    k = 3 if thorough else 1
    T.append(g.render(g.program(150 * k, True, False), "one"))
    for n in (33, 70, 130 * k):
        names = ["x" + "".join("abcdefghijklmnop"[int(d, 16)] for d in "%x" % i) for i in range(2 * n)]
        r.shuffle(names)
        a, b = ["(%s %s)" % (x, r.choice(TYS)) for x in names[:n]], ["(%s %s)" % (x, r.choice(TYS)) for x in names[n:]]
        mut = r.choice(["", "Mut"])
        f = "(aspect (advice apply (f WasmFunction)(%s%s)(%s%s) >>>GUEST>>>x<<<GUEST<<<))"
        T.append(f % (mut, "".join(a), mut, "".join(b)))
        b[r.randrange(n // 2, n)] = a[r.randrange(n // 2, n)]  # one name late in both lists
        T.append(f % (mut, "".join(a), mut, "".join(b)))
    long = "".join(r.choice("abcdefXYZ") for _ in range(300))
    T.append("(aspect (advice br_if (%s Condition)(%sx Label) >>>GUEST>>>x<<<GUEST<<<))" % (long, long))
    for n in (255, 700, 1200 * k):
        w = ["".join(r.choice(BODY_BITS) for _ in range(n)).replace("<<<GUEST<<<", "<<<GUEST<<").strip("<") for _ in range(2)]
        w = [x if "<<<GUEST<<<" not in x else "z" * n for x in w]
        T.append("(aspect (global >>>GUEST>>>%s<<<GUEST<<<) (advice loop post >>>GUEST>>>%s<<<GUEST<<<))" % tuple(w))
    for c in LONG:
        k = r.choice(["global", "advice loop post", "advice select (c Condition)"])
        T.append("(aspect (%s >>>GUEST>>>%s<<<GUEST<<<) (%s >>>GUEST>>>a%s b<<<GUEST<<<))" % (k, c, r.choice(KINDS0), c))
        T.append("(aspect #|%s|# (global >>>GUEST>>>%s#|<<<GUEST<<<) #||#)#|%s|#" % (c, r.choice(["", c]), c))
    T.append("#|" + "c |" * 700 + "|#(aspect" + " \t" * 300 + ")" + "\r" * 300)
    return T


FIXED = ["", " ", "(aspect)", "(aspect", "aspect", "(aspect)x", "(aspect) #| open", "#|c|#(aspect)#|c|#", "(a spect)",
         "(aspect ())", "(aspect global)", "(aspect (global))", "(aspect (global>>>GUEST>>><<<GUEST<<<))",
         "(aspect (global >>>GUEST>>> <<<GUEST<<)", "(aspect (global >>>GUEST>>>a<<<GUEST<<<)(global >>>GUEST>>>b<<<GUEST<<<))",
         "(aspect (advicecallpre(aFunctionIndex)>>>GUEST>>><<<GUEST<<<))",
         "(aspect (advicecallpre(a FunctionIndex)>>>GUEST>>><<<GUEST<<<))",
         "(aspect (advice call prepost (a FunctionIndex)>>>GUEST>>><<<GUEST<<<))",
         "(aspect (advice apply (f WasmFunction)()() >>>GUEST>>><<<GUEST<<<))",
         "(aspect (advice apply (f WasmFunction)((a I32))() >>>GUEST>>><<<GUEST<<<))",
         "(aspect (advice apply (f WasmFunction)()((a I32)) >>>GUEST>>><<<GUEST<<<))",
         "(aspect (advice apply (f WasmFunction)(Mut (a I32))((b I32)) >>>GUEST>>><<<GUEST<<<))",
         "(aspect (advice apply (f WasmFunction)((a I32))(Mut (b I32)) >>>GUEST>>><<<GUEST<<<))",
         "(aspect (advice apply (f WasmFunction)(Mut)(Mut) >>>GUEST>>><<<GUEST<<<))",
         "(aspect (advice apply (f WasmFunction)((f I32))((g I32)) >>>GUEST>>><<<GUEST<<<))",
         "(aspect (advice apply (f wasmfunction)(a Args)(r Results) >>>GUEST>>><<<GUEST<<<))",
         "(" * 2500, "#|" * 1200, "(aspect" + "(advice apply " * 150, "(aspect (global >>>GUEST>>>" + "<<<GUEST<<" * 200]


def base_and_layouts(g, n):
    """Pairs (canonical text, re-laid-out text) of one token sequence, well-formed or not."""
    r, P = g.r, []
    for i in range(n):
        toks = g.program(r.choice([0, 1, 1, 2, 3]), 0.85, r.random() < 0.3)
        if i % 4 == 3:
            # keep token boundaries meaningful: only whole-token corruption, by words
            j = r.randrange(len(toks))
            k = r.randrange(3)
            if k == 0:
                del toks[j]
            elif k == 1:
                toks.insert(j, r.choice(["(", ")", "Mut", "pre", "post"]))
            else:
                toks.insert(j, toks[j])
        P.append((g.render(toks, "one"), g.render(toks, r.choice(["mixed", "mixed", "comment", "none", "lines"]))))
    return P


def reading(c):
    return {"text": untok(c["text"]), "real": {**c["real"], "defs": [
        {**strip(d), "body": untok(d["body"])} for d in c["real"]["defs"]]} if c["real"]["class"] == "none" else c["real"]}


def validate(chk, cases, name):
    """Recorded answers against the specification: TLC, one behaviour per text."""
    C.dump(os.path.join(chk.work, name + ".json"), cases)
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT OneEntryPerDefinition\nINVARIANT JoinPointsFollow\n" \
          "INVARIANT Totality\nINVARIANT %s\n" % INV[chk.prop]
    r = C.tlc("Wasp", cfg, chk.work, {"CASES": os.path.join(chk.work, name + ".json")}, name=name, timeout=700)
    chk.add_tlc(r)
    chk.traces(len(cases))
    if r.violated:
        i = int(r.state("c")) - 1
        if r.violated != INV[chk.prop]:
            raise C.ToolError("the specification breaks its own invariant %s on %r" % (r.violated, untok(cases[i]["text"])))
        spec = {v: r.state(v) for v in ("err", "result", "flags", "specs")}
        chk.violation("recorded answer departs from the specification (%s): text %r answered %s%r, specified %s" % (
            r.violated, untok(cases[i]["text"]), cases[i]["real"]["class"],
            [untok(n) for n in cases[i]["real"]["names"]], spec["err"]), {"recorded": cases[i], "specified": spec})
        return False
    return True


def generated(chk, bindir):
    """Programs written by the specification, replayed through the real compiler."""
    jobs = [("all", "CONSTANTS MaxDefs = 1\n Random = FALSE\n", [], None)]
    if chk.thorough:
        for k in range(7):
            jobs.append(("sim%d" % k, "CONSTANTS MaxDefs = 9\n Random = TRUE\n",
                         ["-simulate", "num=900", "-depth", "10", "-seed", str(C.SEED * 100 + k + 7)], 1))
    else:
        for k in range(3):
            jobs.append(("sim%d" % k, "CONSTANTS MaxDefs = 7\n Random = TRUE\n",
                         ["-simulate", "num=70", "-depth", "8", "-seed", str(C.SEED * 100 + k + 7)], 1))
    cases = []

    def go(j):
        return C.tlc("WaspGen", j[1] + "SPECIFICATION Spec\nINVARIANT RoundTrip\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                     chk.work, workers=j[3] or 6, args=j[2], name=j[0], timeout=800, heap="4g")
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(go, jobs):
            if r.violated:
                raise C.ToolError("WaspGen: %s violated\n%s" % (r.violated, r.out[-2000:]))
            chk.add_tlc(r)
            got = r.printed("CASE")
            if not r.states:
                chk.cov["states"] += len(got)
                chk.cov["transitions"] += len(got)
            cases += got
    outs = compile_all(bindir, [untok(c["text"]) for c in cases])
    groups = {}
    for c, o in zip(cases, outs):
        if chk.prop == "P05":
            key = json.dumps(c["expect"], sort_keys=True) if c["expect"]["class"] == "none" else None
            if key:
                first = groups.setdefault(key, o)
                if norm(first["real"]) != norm(o["real"]):
                    chk.violation("layout changes the result: %r vs %r" % (untok(first["text"]), untok(o["text"])),
                                  {"a": first, "b": o})
                    break
        if differs(chk.prop, o["real"], c["expect"]):
            chk.violation("program written by the specification is answered differently: %r -> %s%r, specified %s%r" % (
                untok(c["text"]), o["real"]["class"], [untok(n) for n in o["real"]["names"]],
                c["expect"]["class"], [untok(n) for n in c["expect"]["names"]]),
                {"text": untok(c["text"]), "real": o["real"], "specified": c["expect"]})
            break
    chk.traces(len(cases))
    chk.count("programs_written_by_spec", len(cases))
    chk.count("specified_rejections", sum(c["expect"]["class"] != "none" for c in cases))
    if cases:
        c = cases[len(cases) // 2]
        chk.sample({"text": untok(c["text"]), "specified": c["expect"]["class"]})


def main(prop, tier):
    chk = C.Check(prop, tier)
    bindir = C.build("lite")
    generated(chk, bindir)
    g = Gen(chk.rng)
    n = 16000 if chk.thorough else 1500
    if not chk.violations:
        if prop == "P05":
            pairs = [(x, x) for x in big(g, chk.thorough)] + base_and_layouts(g, n)
            base = compile_all(bindir, [p[0] for p in pairs])
            lay = compile_all(bindir, [p[1] for p in pairs])
            # both texts are cases: the base must be what the specification reads, and the layout equal to it
            cases = [{"text": l["text"], "real": norm(l["real"]), "base": norm(b["real"])} for b, l in zip(base, lay)]
        else:
            texts = (FIXED if prop == "P03" else []) + big(g, chk.thorough) + texts_for(prop, g, n)
            cases = compile_all(bindir, texts)
        classes = {}
        for c in cases:
            classes[c["real"]["class"]] = classes.get(c["real"]["class"], 0) + 1
        chk.cov["recorded_by_outcome"] = classes
        step = 2000
        for k in range(0, len(cases), step):
            if not validate(chk, cases[k:k + step], "rec%d" % k):
                break
        if cases:
            chk.sample(reading(cases[0]))
    chk.assumptions += ["characters outside printable ASCII, CR, LF and TAB are opaque to the specification (all are non-blank)",
                        "the introspective/intercepting distinction is read off the boolean as the repository's unit tests fix it"]
    return chk.finish()
