"""A small compiler from the part of AssemblyScript that the generated buffer library uses, to WebAssembly text."""
import re


class Unsupported(Exception):
    pass


TOKEN = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<num>0[xX][0-9a-fA-F]+|\d+(?:\.\d+)?)|(?P<id>[A-Za-z_$][\w$]*)
 |(?P<op>>>>=|===|!==|>>>|<<=|>>=|==|!=|<=|>=|&&|\|\||\+\+|--|\+=|-=|\*=|/=|%=|&=|\|=|\^=|=>|<<|[-+*/%&|^!~<>=(){}\[\],;:?.@])""", re.X | re.S)
INT = {"i32": ("i32", 4, True), "u32": ("i32", 4, False), "usize": ("i32", 4, False), "isize": ("i32", 4, True), "bool": ("i32", 4, False),
       "i64": ("i64", 8, True), "u64": ("i64", 8, False)}
FLOAT = {"f32": ("f32", 4, True), "f64": ("f64", 8, True)}
ALL = dict(INT, **FLOAT)
PREC = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!=", "===", "!=="], ["<", ">", "<=", ">="], ["<<", ">>", ">>>"], ["+", "-"], ["*", "/", "%"]]


def tokens(text):
    res, at = [], 0
    while at < len(text):
        m = TOKEN.match(text, at)
        if not m:
            raise Unsupported("character %r" % text[at])
        at = m.end()
        if m.lastgroup:
            res.append((m.lastgroup, m.group(m.lastgroup)))
    return res + [("end", "")]


class Parser:
    def __init__(self, text):
        self.t, self.i = tokens(text), 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][1]

    def kind(self):
        return self.t[self.i][0]

    def take(self, want=None):
        k, v = self.t[self.i]
        if want is not None and v != want:
            raise Unsupported("%r where %r was expected" % (v, want))
        self.i += 1
        return v

    def maybe(self, v):
        if self.peek() == v and self.kind() != "num":
            self.i += 1
            return True
        return False

    def name(self):
        if self.kind() != "id":
            raise Unsupported("%r where a name was expected" % self.peek())
        return self.take()

    def program(self):
        fns, globs = {}, []
        while self.kind() != "end":
            if self.maybe(";"):
                continue
            while self.maybe("@"):
                self.name()
            exported = self.maybe("export")
            if self.maybe("function"):
                f = self.function(exported)
                if f["name"] in fns:
                    raise Unsupported("duplicate function " + f["name"])
                fns[f["name"]] = f
            elif self.peek() in ("let", "const"):
                globs.append(self.declaration())
            else:
                raise Unsupported("%r at top level" % self.peek())
        return fns, globs

    def function(self, exported):
        name, gen, ps, ret = self.name(), [], [], "void"
        if self.maybe("<"):
            while not self.maybe(">"):
                gen.append(self.name())
                self.maybe(",")
        self.take("(")
        while not self.maybe(")"):
            n = self.name()
            self.take(":")
            ps.append((n, self.name()))
            self.maybe(",")
        if self.maybe(":"):
            ret = self.name()
        return {"name": name, "gen": gen, "ps": ps, "ret": ret, "body": self.block(), "exported": exported}

    def block(self):
        self.take("{")
        res = []
        while not self.maybe("}"):
            res.append(self.statement())
        return ("block", res)

    def declaration(self):
        mutable = self.take() == "let"
        n, t, e = self.name(), None, None
        if self.maybe(":"):
            t = self.name()
        if self.maybe("="):
            e = self.expr()
        self.maybe(";")
        return ("decl", n, t, e, mutable)

    def statement(self):
        p = self.peek()
        if p == "{":
            return self.block()
        if self.maybe(";"):
            return ("block", [])
        if p in ("let", "const"):
            return self.declaration()
        if self.maybe("if"):
            self.take("(")
            c = self.expr()
            self.take(")")
            a = self.statement()
            return ("if", c, a, self.statement() if self.maybe("else") else ("block", []))
        if self.maybe("while"):
            self.take("(")
            c = self.expr()
            self.take(")")
            return ("while", c, self.statement())
        if self.maybe("for"):
            self.take("(")
            init = ("block", []) if self.peek() == ";" else self.statement_head()
            self.take(";") if self.peek() == ";" else None
            c = self.expr() if self.peek() != ";" else ("num", "1")
            self.take(";")
            step = self.statement_head() if self.peek() != ")" else ("block", [])
            self.take(")")
            return ("block", [init, ("while", c, ("block", [self.statement(), step]))])
        if self.maybe("return"):
            e = None if self.peek() in (";", "}") else self.expr()
            self.maybe(";")
            return ("return", e)
        s = self.statement_head()
        self.maybe(";")
        return s

    def statement_head(self):
        if self.peek() in ("let", "const"):
            mutable = self.take() == "let"
            n, t = self.name(), None
            if self.maybe(":"):
                t = self.name()
            self.take("=")
            return ("decl", n, t, self.expr(), mutable)
        if self.kind() == "id" and self.peek(1) in ("=", "+=", "-=", "*=", "++", "--", "&=", "|=", "^="):
            n, op = self.name(), self.take()
            if op in ("++", "--"):
                return ("assign", n, ("bin", op[0], ("var", n), ("num", "1")))
            e = self.expr()
            return ("assign", n, e if op == "=" else ("bin", op[:-1], ("var", n), e))
        return ("expr", self.expr())

    def expr(self):
        c = self.binary(0)
        if self.maybe("?"):
            a = self.expr()
            self.take(":")
            return ("cond", c, a, self.expr())
        return c

    def binary(self, level):
        if level == len(PREC):
            return self.cast()
        e = self.binary(level + 1)
        while self.kind() == "op" and self.peek() in PREC[level]:
            op = self.take()
            e = ("bin", op.replace("===", "==").replace("!==", "!="), e, self.binary(level + 1))
        return e

    def cast(self):
        e = self.unary()
        while self.maybe("as"):
            e = ("as", e, self.name())
        return e

    def unary(self):
        if self.kind() == "op" and self.peek() in ("-", "!", "~", "+"):
            return ("un", self.take(), self.unary())
        if self.maybe("<"):  # <type>value
            t = self.name()
            self.take(">")
            return ("as", self.unary(), t)
        return self.primary()

    def primary(self):
        if self.kind() == "num":
            return ("num", self.take())
        if self.maybe("("):
            e = self.expr()
            self.take(")")
            return e
        n = self.name()
        while self.maybe("."):
            n += "." + self.name()
        ts = self.type_arguments()
        if ts is not None or self.peek() == "(":
            self.take("(")
            args = []
            while not self.maybe(")"):
                args.append(self.expr())
                self.maybe(",")
            return ("call", n, ts or [], args)
        return ("var", n)

    def type_arguments(self):
        if self.peek() != "<":
            return None
        save = self.i
        self.take()
        ts = []
        while self.kind() == "id":
            ts.append(self.take())
            if not self.maybe(","):
                break
        if self.maybe(">") and self.peek() == "(":
            return ts
        self.i = save
        return None


class Compiler:
    def __init__(self, text, pages=0):
        self.fns, globs = Parser(text).program()
        self.out, self.done, self.queue, self.globals = [], set(), [], {}
        self.head = ["(memory (export \"memory\") %d)" % pages]
        for _, n, t, e, mutable in globs:
            c = self.constant(e, {})
            if c is None:
                raise Unsupported("global %s is not constant" % n)
            t = t or "i32"
            self.globals[n] = (t, None if mutable else c)
            self.head.append("(global $%s (mut %s) (%s.const %d))" % (n, ALL[t][0], ALL[t][0], c))
        for f in self.fns.values():
            if f["exported"]:
                if f["gen"]:
                    raise Unsupported("generic export")
                self.need(f["name"], [])
        while self.queue:
            self.function(*self.queue.pop())

    def text(self):
        return "(module\n" + "\n".join(self.head + self.out) + "\n)\n"

    def need(self, name, types):
        key = "$" + "__".join([name] + types)
        if key not in self.done:
            self.done.add(key)
            self.queue.append((name, types, key))
        return key

    # -- constants, so that impossible branches are left out
    def constant(self, e, env):
        k = e[0]
        if k == "num":
            return int(e[1], 0) if "." not in e[1] else None
        if k == "var":
            if e[1] in ("true", "false"):
                return 1 if e[1] == "true" else 0
            g = self.globals.get(e[1])
            return g[1] if g and e[1] not in env.get("locals", {}) else None
        if k == "call" and e[1] in ("sizeof", "isInteger", "isFloat", "isSigned"):
            if len(e[2]) != 1:
                raise Unsupported(e[1])
            t = env.get("types", {}).get(e[2][0], e[2][0])
            if t not in ALL:
                raise Unsupported("type " + t)
            return {"sizeof": ALL[t][1], "isInteger": int(t in INT), "isFloat": int(t in FLOAT), "isSigned": int(ALL[t][2])}[e[1]]
        if k == "as":
            return self.constant(e[1], env)
        if k == "un":
            a = self.constant(e[2], env)
            return None if a is None else {"-": -a, "+": a, "!": int(not a), "~": ~a}[e[1]]
        if k == "bin":
            a, b = self.constant(e[2], env), self.constant(e[3], env)
            if e[1] == "&&":
                return 0 if a == 0 or (b == 0 and a is not None) else (None if a is None or b is None else 1)
            if e[1] == "||":
                return 1 if a else (None if a is None or b is None else int(bool(b)))
            if a is None or b is None:
                return None
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<<": lambda: a << b, ">>": lambda: a >> b, "==": lambda: int(a == b), "!=": lambda: int(a != b),
                 "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}.get(e[1])
            return f() if f else None
        return None

    def function(self, name, types, key):
        f = self.fns[name]
        if len(types) != len(f["gen"]):
            raise Unsupported("type arguments of " + name)
        ty = dict(zip(f["gen"], types))
        env = {"types": ty, "locals": {}, "extra": [], "n": 0, "label": 0, "ret": self.type(f["ret"], ty)}
        for n, t in f["ps"]:
            env["locals"][n] = ("$p_" + n, self.type(t, ty))
        code = self.statement(f["body"], env)
        self.out.append("(func %s %s%s%s%s\n%s%s)" % (
            key, '(export "%s") ' % name if f["exported"] else "",
            "".join("(param $p_%s %s) " % (n, ALL[self.type(t, ty)][0]) for n, t in f["ps"]),
            "" if env["ret"] == "void" else "(result %s) " % ALL[env["ret"]][0],
            "".join("(local %s %s) " % x for x in env["extra"]), code, "" if env["ret"] == "void" else "\nunreachable"))

    def type(self, t, ty):
        t = ty.get(t, t)
        if t != "void" and t not in ALL:
            raise Unsupported("type " + t)
        return t

    def statement(self, s, env):
        k = s[0]
        if k == "block":
            saved = dict(env["locals"])
            r = "\n".join(self.statement(x, env) for x in s[1])
            env["locals"] = saved
            return r
        if k == "decl":
            _, n, t, e, _ = s
            code, t2 = self.expr(e, env, self.type(t, env["types"]) if t else None) if e else (None, t)
            env["n"] += 1
            w = "$l%d_%s" % (env["n"], n)
            t = self.type(t, env["types"]) if t else t2
            env["extra"].append((w, ALL[t][0]))
            env["locals"][n] = (w, t)
            return (self.convert(code, t2, t) if code else "%s.const 0" % ALL[t][0]) + "\nlocal.set %s" % w
        if k == "assign":
            if s[1] in env["locals"]:
                w, t = env["locals"][s[1]]
                return self.to(s[2], env, t) + "\nlocal.set %s" % w
            if s[1] in self.globals and self.globals[s[1]][1] is None:
                t = self.globals[s[1]][0]
                return self.to(s[2], env, t) + "\nglobal.set $%s" % s[1]
            raise Unsupported("assignment to " + s[1])
        if k == "if":
            c = self.constant(s[1], env)
            if c is not None:
                return self.statement(s[2] if c else s[3], env)
            return "%s\nif\n%s\nelse\n%s\nend" % (self.condition(s[1], env), self.statement(s[2], env), self.statement(s[3], env))
        if k == "while":
            env["label"] += 1
            b = env["label"]
            return "block $b%d loop $c%d\n%s\ni32.eqz\nbr_if $b%d\n%s\nbr $c%d end end" % (b, b, self.condition(s[1], env), b, self.statement(s[2], env), b)
        if k == "return":
            if s[1] is None:
                return "return"
            if env["ret"] == "void":
                code, t = self.expr(s[1], env, None)
                return code + ("" if t == "void" else "\ndrop") + "\nreturn"
            return self.to(s[1], env, env["ret"]) + "\nreturn"
        code, t = self.expr(s[1], env, None)
        return code + ("" if t in ("void", "never") else "\ndrop")

    def condition(self, e, env):
        code, t = self.expr(e, env, None)
        if ALL[t][0] == "i32":
            return code
        return code + "\ni64.const 0\ni64.ne" if t in INT else code + "\n%s.const 0\n%s.ne" % (t, t)

    def to(self, e, env, t):
        code, t2 = self.expr(e, env, t)
        return self.convert(code, t2, t)

    def convert(self, code, a, b):
        if a == b or a == "never":
            return code
        if a == "void" or b == "void":
            raise Unsupported("void value")
        x, y = ALL[a][0], ALL[b][0]
        sign = "s" if ALL[a][2] else "u"
        if b == "bool" and a != "bool":
            raise Unsupported("conversion to bool")
        if x == y:
            return code
        if a in INT and b in INT:
            return code + ("\ni64.extend_i32_" + sign if y == "i64" else "\ni32.wrap_i64")
        if a in INT:
            return code + "\n%s.convert_%s_%s" % (y, x, sign)
        if b in INT:
            return code + "\n%s.trunc_sat_%s_%s" % (y, x, "s" if ALL[b][2] else "u")
        return code + ("\nf64.promote_f32" if y == "f64" else "\nf32.demote_f64")

    def expr(self, e, env, want):
        k = e[0]
        if k == "num":
            if "." in e[1]:
                t = want if want in FLOAT else "f64"
                return "%s.const %s" % (t, e[1]), t
            t = want if want in ALL and want != "bool" else "i32"
            return "%s.const %s" % (ALL[t][0], int(e[1], 0)), t
        if k == "var":
            if e[1] in env["locals"]:
                w, t = env["locals"][e[1]]
                return "local.get " + w, t
            if e[1] in ("true", "false"):
                return "i32.const %d" % (e[1] == "true"), "bool"
            if e[1] in self.globals:
                return "global.get $" + e[1], self.globals[e[1]][0]
            raise Unsupported("name " + e[1])
        if k == "as":
            t = self.type(e[2], env["types"])
            code, t2 = self.expr(e[1], env, t if e[1][0] == "num" else None)
            return self.convert(code, t2, t), t
        if k == "cond":
            c = self.constant(e[1], env)
            if c is not None:
                return self.expr(e[2] if c else e[3], env, want)
            a, t = self.expr(e[2], env, want)
            return "%s\nif (result %s)\n%s\nelse\n%s\nend" % (self.condition(e[1], env), ALL[t][0], a, self.to(e[3], env, t)), t
        if k == "un":
            if e[1] == "!":
                return self.condition(e[2], env) + "\ni32.eqz", "bool"
            code, t = self.expr(e[2], env, want)
            w = ALL[t][0]
            if e[1] == "+":
                return code, t
            if e[1] == "~":
                return code + "\n%s.const -1\n%s.xor" % (w, w), t
            return (code + "\n%s.neg" % w, t) if t in FLOAT else ("%s.const 0\n%s\n%s.sub" % (w, code, w), t)
        if k == "bin":
            return self.operator(e, env, want)
        if k == "call":
            return self.call(e, env)
        raise Unsupported(k)

    def operator(self, e, env, want):
        _, op, a, b = e
        if op in ("&&", "||"):
            x, y = self.condition(a, env), self.condition(b, env)
            return (x + "\nif (result i32)\n" + (y + "\nelse\ni32.const 0\nend" if op == "&&" else "i32.const 1\nelse\n" + y + "\nend")), "bool"
        cmp = op in ("==", "!=", "<", ">", "<=", ">=")
        hint = None if cmp else want
        if a[0] == "num" or (a[0] == "un" and a[2][0] == "num"):
            _, t = self.expr(b, env, hint)
        else:
            _, t = self.expr(a, env, hint)
            _, t2 = self.expr(b, env, t)
            if ALL[t2][1] > ALL[t][1]:
                t = t2
        x, y = self.to(a, env, t), self.to(b, env, t)
        w, _, signed = ALL[t]
        s = "" if t in FLOAT else ("_s" if signed else "_u")
        ops = {"+": "add", "-": "sub", "*": "mul", "/": "div" + s, "%": "rem" + s, "&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr" + s, ">>>": "shr_u",
               "==": "eq", "!=": "ne", "<": "lt" + s, ">": "gt" + s, "<=": "le" + s, ">=": "ge" + s}
        return "%s\n%s\n%s.%s" % (x, y, w, ops[op]), "bool" if cmp else t

    def call(self, e, env):
        _, n, ts, args = e
        ts = [self.type(t, env["types"]) for t in ts]
        c = self.constant(e, env)
        if c is not None:
            return "i32.const %d" % c, "usize"
        if n == "unreachable" and n not in self.fns:
            return "unreachable", "never"
        if n in ("load", "store") and n not in self.fns:
            if len(ts) != 1:
                raise Unsupported(n)
            t, k = ts[0], 1 if n == "load" else 2
            off = self.constant(args[k], env) if len(args) > k else 0
            if off is None or off < 0 or len(args) > k + 1:
                raise Unsupported("offset")
            p = self.to(args[0], env, "usize")
            if n == "load":
                return "%s\n%s.load offset=%d" % (p, ALL[t][0], off), t
            return "%s\n%s\n%s.store offset=%d" % (p, self.to(args[1], env, t), ALL[t][0], off), "void"
        if n in ("memory.grow", "memory.size"):
            return ("%s\n" % self.to(args[0], env, "i32") if n == "memory.grow" else "") + n, "i32"
        if n in ("memory.fill", "memory.copy"):
            return "\n".join([self.to(a, env, "usize") for a in args] + [n]), "void"
        if n == "reinterpret" and len(ts) == 1:
            code, t = self.expr(args[0], env, None)
            return code + "\n%s.reinterpret_%s" % (ALL[ts[0]][0], ALL[t][0]), ts[0]
        if n not in self.fns:
            raise Unsupported("function " + n)
        f = self.fns[n]
        if not ts and f["gen"]:
            got = {}
            for (_, t), a in zip(f["ps"], args):
                if t in f["gen"] and t not in got:
                    got[t] = self.expr(a, env, None)[1]
            ts = [got.get(g) for g in f["gen"]]
            if None in ts:
                raise Unsupported("inferred type arguments")
        if len(args) != len(f["ps"]):
            raise Unsupported("arguments of " + n)
        ty = dict(zip(f["gen"], ts))
        return "\n".join([self.to(a, env, self.type(t, ty)) for (_, t), a in zip(f["ps"], args)] + ["call " + self.need(n, ts)]), self.type(f["ret"], ty)


def compile_text(text, pages=0):
    return Compiler(text, pages).text()
