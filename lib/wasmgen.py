"""Seeded random WebAssembly modules, well typed by construction.

A module is produced twice: as WebAssembly text for the real code and as the JSON
program that spec/Machine.tla executes.  Nothing here knows what instrumentation does.
"""
import json, os, random, re, struct

NUM = ["i32", "i64", "f32", "f64"]
REFS = ["funcref", "externref"]
WEIGHTS = [5, 3, 2, 2]
SIZE = {"i32": 4, "i64": 8, "f32": 4, "f64": 8, "funcref": 0, "externref": 0}


def spec_ops():
    """The operators and accesses, read from the specification."""
    txt = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Codes.tla")).read()
    res = {}
    for name in ("UnaryOps", "BinaryOps", "LoadOps", "StoreOps"):
        body = txt[txt.index(name + " == <<"):]
        body = body[:body.index(">> >>") + 5]
        res[name] = [tuple(x.strip().strip('"') for x in m.split(",")) for m in re.findall(r"<<([^<>]*)>>", body)]
    return res


OPS = spec_ops()
UN = {}
for _n, _p, _r in OPS["UnaryOps"]:
    UN.setdefault(_r, []).append((_n, _p))
BIN = {}
for _n, _p, _r in OPS["BinaryOps"]:
    BIN.setdefault(_r, []).append((_n, _p))
LOADS = {}
for _n, _t, _w, _s in OPS["LoadOps"]:
    LOADS.setdefault(_t, []).append((_n, int(_w)))
STORES = {}
for _n, _t, _w in OPS["StoreOps"]:
    STORES.setdefault(_t, []).append((_n, int(_w)))
# operators whose floating-point result Alu leaves open on ordinary operands
ROUGH = {"f32.div", "f64.div", "f32.sqrt", "f64.sqrt"}


def le(x, n):
    return list(int(x & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))


def unle(b):
    return int.from_bytes(bytes(b), "little")


def float_text(t, b):
    """Text of a float constant with exactly these bits."""
    w = unle(b)
    if t == "f32":
        sign, ex, man, full = w >> 31, (w >> 23) & 255, w & 0x7fffff, 255
    else:
        sign, ex, man, full = w >> 63, (w >> 52) & 2047, w & 0xfffffffffffff, 2047
    s = "-" if sign else ""
    if ex == full:
        return s + ("inf" if man == 0 else "nan:0x%x" % man)
    v = struct.unpack("<f" if t == "f32" else "<d", bytes(b))[0]
    return v.hex() if v == v else "0"


def const_text(t, b):
    if t == "i32":
        return "i32.const %d" % (unle(b) - (1 << 32) if b[3] >= 128 else unle(b))
    if t == "i64":
        return "i64.const %d" % (unle(b) - (1 << 64) if b[7] >= 128 else unle(b))
    return "%s.const %s" % (t, float_text(t, b))


def ref_text(t, v):
    """A constant reference: null is [], function f is [9, f]."""
    return "ref.func %d" % v[1] if v else "ref.null %s" % t.replace("ref", "")


def init_text(t, v):
    return ref_text(t, v) if t in REFS else const_text(t, v)


def num(rng):
    return rng.choices(NUM, WEIGHTS)[0]


def value(rng, t, wild=0.25):
    """A value of a type: usually a small whole number, sometimes a boundary."""
    if t in ("funcref", "externref"):
        return []
    n = SIZE[t]
    if t in ("i32", "i64"):
        r = rng.random()
        if r > wild:
            return le(rng.randrange(-3, 12), n)
        top = 1 << (8 * n - 1)
        return le(rng.choice([top, top - 1, -1, top + 1, 255, 256, 128, 65535, 65536, 32768, 0x7fffffff, 0x80000000,
                              0xffffffff, rng.getrandbits(8 * n), 1 << rng.randrange(8 * n)]), n)
    f = "<f" if t == "f32" else "<d"
    if rng.random() > wild:
        return list(struct.pack(f, float(rng.randrange(-4, 9))))
    v = rng.choice([0.0, -0.0, float("inf"), float("-inf"), 1.5, -2.25, 1e10, 0.1, 5e-324 if t == "f64" else 1e-45, 4294967296.0])
    if rng.random() < 0.2:
        return [0, 0, 0xc0, 0x7f] if t == "f32" else [0, 0, 0, 0, 0, 0, 0xf8, 0x7f]
    return list(struct.pack(f, v))


class Fn:
    def __init__(self, ty, imp=""):
        self.ty, self.imp, self.locals, self.body = ty, imp, [], []


class Gen:
    """One module."""

    def __init__(self, rng, refs=0.25, bulk=0.3, size=14, funcs=None, imports=None, focus=()):
        self.focus = list(focus)
        self.rng = rng
        self.size = size
        self.types = []
        self.fns = []
        self.bulk = rng.random() < bulk
        self.rich = rng.random() < refs  # references, and more than one table
        nimp = rng.choice([0, 0, 1, 2]) if imports is None else imports
        nfun = rng.choice([1, 2, 2, 3, 4]) if funcs is None else funcs
        for i in range(nimp):
            self.fns.append(Fn(self.typ(), "h%d" % i))
        for _ in range(nfun):
            self.fns.append(Fn(self.typ()))
        self.globals = []
        self.imported_globals = 0
        if rng.random() < 0.15:
            self.imported_globals = rng.choice([1, 2])
            for _ in range(self.imported_globals):
                t = num(rng)
                self.globals.append((t, rng.random() < 0.5, le(11, SIZE[t])))  # what the harness provides
        for _ in range(rng.choice([0, 1, 2, 3])):
            t = self.anytype()
            self.globals.append((t, rng.random() < 0.75, self.constref(t) if t in REFS else value(rng, t)))
        self.mem = None
        if rng.random() < 0.7:
            pages = rng.choice([1, 1, 1, 2, 0]) if rng.random() < 0.3 else 1
            limit = pages + rng.choice([0, 1, 2])
            data = []
            if pages:
                for _ in range(rng.choice([0, 1, 2])):
                    at = rng.choice([0, 3, 8, 16, 65536 * pages - 6])
                    data.append((at, [rng.randrange(256) for _ in range(rng.randrange(1, 6))]))
            self.mem = (pages, limit, data)
        self.imported_memory = self.mem is not None and rng.random() < 0.15
        # passive data, which memory.init copies from
        self.datas = [[rng.randrange(256) for _ in range(rng.choice([0, 1, 4, 7]))] for _ in range(rng.choice([0, 1, 2]))] \
            if self.mem is not None and self.bulk and rng.random() < 0.6 else []
        self.tables = []
        if rng.random() < 0.6 or self.rich:
            self.tables.append(self.newtable("funcref"))
            while self.rich and len(self.tables) < 4 and rng.random() < 0.6:
                self.tables.append(self.newtable(rng.choice(["funcref", "funcref", "externref"])))
        self.imported_table = rng.random() < 0.15
        # passive elements, which table.init copies from
        self.elems = []
        if self.rich:
            for _ in range(rng.choice([0, 1, 2, 3])):
                t = rng.choice(["funcref", "funcref", "externref"])
                self.elems.append((t, [self.constref(t) for _ in range(rng.choice([0, 1, 3, 5]))]))
        for i, f in enumerate(self.fns):
            if not f.imp:
                self.function(i, f)
        self.start = -1
        if rng.random() < 0.15:
            c = [i for i, f in enumerate(self.fns) if self.types[f.ty] == ((), ())]
            self.start = rng.choice(c) if c else -1

    def newtable(self, t):
        rng = self.rng
        n = rng.randrange(1, 6)
        if t == "funcref":
            fs = list(range(len(self.fns)))
            if rng.random() < 0.5:  # more entries of one type
                fs += [i for i, f in enumerate(self.fns) if f.ty == self.fns[-1].ty] * 3
            e = [rng.choice([[]] + [[9, f] for f in fs]) for _ in range(n)]
        else:
            e = [[] for _ in range(n)]
        return {"t": t, "e": e, "max": n + rng.choice([0, 1, 3])}

    def constref(self, t):
        return [9, self.rng.randrange(len(self.fns))] if t == "funcref" and self.rng.random() < 0.7 else []

    def functables(self):
        return [i for i, t in enumerate(self.tables) if t["t"] == "funcref"]

    # ------------------------------------------------------------ types
    def anytype(self):
        rng = self.rng
        return rng.choice(REFS) if self.rich and rng.random() < 0.2 else num(rng)

    def typ(self, p=None, r=None):
        rng = self.rng
        t = self.anytype if rng.random() < 0.5 else lambda: num(rng)
        if p is None:
            p = tuple(t() for _ in range(rng.choice([0, 1, 1, 2, 2, 3])))
        if r is None:
            r = tuple(t() for _ in range(rng.choice([0, 1, 1, 1, 2, 3])))
        ty = (tuple(p), tuple(r))
        if ty not in self.types:
            self.types.append(ty)
        return self.types.index(ty)

    # ---------------------------------------------------------- bodies
    def emit(self, **ins):
        self.out.append(ins)

    def function(self, index, f):
        rng = self.rng
        p, r = self.types[f.ty]
        self.index = index
        self.recursive = rng.random() < 0.15
        f.locals = [self.anytype() for _ in range(rng.choice([0, 1, 2, 3]))]
        self.locs = list(p) + f.locals
        self.f = f
        self.out = []
        self.labels = [("fn", list(r))]
        self.budget = self.size + rng.randrange(self.size + 1)
        self.depth = 0
        for _ in range(rng.randrange(1, 5)):
            self.stmt()
        for t in r:
            self.expr(t)
        if rng.random() < 0.15:
            self.terminator()
            self.dead(list(r))
        self.emit(k="end")
        f.body = self.out

    def fresh(self, t):
        self.f.locals.append(t)
        self.locs.append(t)
        return len(self.locs) - 1

    def const(self, t, b=None):
        if t == "funcref" and self.rng.random() < 0.6:
            self.emit(k="ref.func", f=self.rng.randrange(len(self.fns)))
        elif t in REFS:
            self.emit(k="ref.null", t=t)
        else:
            self.emit(k="const", t=t, v=value(self.rng, t) if b is None else b)

    def small(self, n):
        self.const("i32", le(n, 4))

    def leaf(self, t):
        rng = self.rng
        cands = [("const", 0)] * 3
        cands += [("local.get", i) for i, x in enumerate(self.locs) if x == t]
        cands += [("global.get", i) for i, g in enumerate(self.globals) if g[0] == t]
        if t == "i32" and self.mem is not None:
            cands += [("memory.size", 0)]
        k, i = rng.choice(cands)
        if k == "const":
            self.const(t)
        elif k == "memory.size":
            self.emit(k=k)
        else:
            self.emit(k=k, i=i, t=t)

    def address(self, width):
        """Pushes an address; returns the static offset."""
        rng = self.rng
        pages = self.mem[0]
        r = rng.random()
        if r < 0.7:
            if rng.random() < 0.5:
                self.small(rng.randrange(0, 24))
            else:
                self.expr("i32")
                self.small(15)
                self.emit(k="bin", o="i32.and")
            return le(rng.choice([0, 0, 0, 1, 4, 8]), 4)
        if r < 0.8:
            self.small(65536 * pages - width + rng.choice([-1, 0, 0, 1]))
            return le(rng.choice([0, 0, 1]), 4)
        if r < 0.86:
            self.small(-1 if rng.random() < 0.5 else -8)
            return le(rng.choice([0, 1, 8, 16, 0xffffffff, 12]), 4)
        self.small(rng.randrange(0, 8))
        return le(rng.choice([65536 * pages - width, 65536 * pages - width - 4, 0xffffffff, 16]), 4)

    def calls(self, results):
        return [i for i, f in enumerate(self.fns) if list(self.types[f.ty][1]) == list(results) and self.callable(i)]

    def callable(self, i):
        """Mostly calls go to later functions, so that runs end."""
        return self.recursive or self.fns[i].imp or i > self.index

    def enter(self):
        self.depth += 1

    def leave(self):
        self.depth -= 1

    def expr(self, t):
        """Leaves one value of type t."""
        rng = self.rng
        self.budget -= 1
        if self.budget <= 0 or self.depth > 5:
            self.leaf(t)
            return
        self.enter()
        opts = ["leaf", "tee", "select", "block", "if", "loop", "brblock"]
        if t in NUM:
            opts += ["un", "bin", "bin"]
            if self.mem is not None:
                opts += ["load", "load"]
                if t == "i32":
                    opts += ["grow"]
        else:
            opts += ["leaf", "select"] + ["tget"] * 3 * any(x["t"] == t for x in self.tables)
        if t == "i32" and self.rich:
            opts += ["isnull", "isnull", "tgrow"]
        cs = self.calls([t])
        if cs:
            opts += ["call", "call"]
        if self.tables:
            opts += ["callind"]
            if t == "i32":
                opts += ["tsize"]
        o = rng.choice(opts)
        if o == "leaf":
            self.leaf(t)
        elif o == "un" and t in UN:
            n, p = rng.choice(UN[t])
            if n in ROUGH and rng.random() < 0.7:
                n, p = rng.choice(UN[t])
            self.expr(p)
            self.emit(k="un", o=n)
        elif o == "bin":
            n, p = rng.choice(BIN[t])
            if n in ROUGH and rng.random() < 0.7:
                n, p = rng.choice(BIN[t])
            self.expr(p)
            self.expr(p)
            self.emit(k="bin", o=n)
        elif o == "tee":
            c = [i for i, x in enumerate(self.locs) if x == t and i not in self.guard()]
            if not c:
                c = [self.fresh(t)]
            i = rng.choice(c)
            self.expr(t)
            self.emit(k="local.tee", i=i, t=t)
        elif o == "select":
            self.expr(t)
            self.expr(t)
            self.expr("i32")
            self.emit(k="select", typed=t if t in REFS or rng.random() < 0.3 else "")
        elif o in ("block", "loop", "if"):
            self.construct(o, [t])
        elif o == "brblock":
            # a value carried by a branch out of a block
            self.emit(k="block", p=[], r=[t])
            self.labels.append(("block", [t]))
            self.expr(t)
            self.expr("i32")
            self.emit(k="br_if", l=0)
            self.labels.pop()
            self.emit(k="end")
        elif o == "load":
            n, w = rng.choice(LOADS[t])
            off = self.address(w)
            self.emit(k="load", o=n, off=off)
        elif o == "grow":
            self.small(rng.choice([0, 0, 1, 1, 2, -1, 65536]))
            self.emit(k="memory.grow")
        elif o == "isnull":
            self.expr(rng.choice(REFS))
            self.emit(k="ref.is_null")
        elif o == "tget":
            i = rng.choice([i for i, x in enumerate(self.tables) if x["t"] == t])
            self.slot(i)
            self.emit(k="table.get", i=i)
        elif o == "tgrow":
            i = rng.randrange(len(self.tables))
            self.expr(self.tables[i]["t"])
            self.small(rng.choice([0, 1, 1, 2, -1, 7]))
            self.emit(k="table.grow", i=i)
        elif o == "tsize":
            self.emit(k="table.size", i=rng.randrange(len(self.tables)))
        elif o == "call":
            f = rng.choice(cs)
            self.args(self.types[self.fns[f].ty][0])
            self.emit(k="call", f=f)
        elif o == "callind":
            self.indirect([t])
        else:
            self.leaf(t)
        self.leave()

    def guard(self):
        return getattr(self, "counters", [])

    def args(self, types):
        for t in types:
            self.expr(t)

    def slot(self, i):
        """Pushes an index of table i, usually a good one."""
        self.small(self.rng.choice(list(range(len(self.tables[i]["e"]))) * 2 + [len(self.tables[i]["e"]), -1]))

    def span(self, n, m=None):
        """Pushes the places and the length of a copy."""
        rng = self.rng
        self.small(rng.randrange(0, n + 1))
        if m is not None:
            self.small(rng.randrange(0, m + 1))

    def indirect(self, results):
        rng = self.rng
        x = rng.choice(self.functables())
        table = [v[1] if v else -1 for v in self.tables[x]["e"]]
        tys = {self.fns[f].ty for f in table if f >= 0}
        tys = [t for t in tys if list(self.types[t][1]) == list(results)] or [self.typ(r=tuple(results))]
        ty = rng.choice(tys)
        self.args(self.types[ty][0])
        good = [i for i, f in enumerate(table) if f >= 0 and self.fns[f].ty == ty]
        good = [i for i in good if self.callable(table[i])] or good[:1]
        r = rng.random()
        if good and r < 0.7:
            self.small(rng.choice(good))
        elif r < 0.95:
            self.small(rng.choice([0, 1, 2, len(table) - 1, len(table), -1]))
        else:
            self.expr("i32")
        self.emit(k="call_indirect", ty=ty, tb=x)

    def construct(self, kind, results, params=None):
        """A block, loop or conditional with these results, sometimes with parameters."""
        rng = self.rng
        if params is None:
            params = [self.anytype() for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        self.args(params)
        if kind == "if":
            self.expr("i32")
        two = kind == "if" and (list(params) != list(results) or rng.random() < 0.5)
        self.emit(k=kind, p=list(params), r=list(results))
        self.labels.append((kind, list(params) if kind == "loop" else list(results)))
        self.inner(kind, params, results)
        if two:
            self.emit(k="else")
            self.inner(kind, params, results)
        self.labels.pop()
        self.emit(k="end")

    def inner(self, kind, params, results):
        rng = self.rng
        keep = list(params) == list(results)
        if not keep:
            for t in reversed(params):
                if rng.random() < 0.5:
                    self.emit(k="drop")
                else:
                    c = [i for i, x in enumerate(self.locs) if x == t and i not in self.guard()]
                    self.emit(k="local.set", i=rng.choice(c) if c else self.fresh(t), t=t)
        for _ in range(rng.choice([0, 1, 1, 2])):
            if self.budget > 0:
                self.stmt()
        if not keep:
            self.args(results)
        if rng.random() < 0.1:
            self.terminator()
            self.dead(list(results))

    def terminator(self):
        """An instruction after which nothing is reached."""
        rng = self.rng
        r = rng.random()
        l = rng.randrange(len(self.labels))
        kind, ts = self.labels[-1 - l]
        if kind == "loop" and rng.random() < 0.9:
            l = len(self.labels) - 1
            kind, ts = self.labels[0]
        if r < 0.4:
            self.args(ts)
            self.emit(k="br", l=l)
        elif r < 0.7:
            self.args(self.labels[0][1])
            self.emit(k="return")
        elif r < 0.85:
            self.brtable()
        else:
            self.emit(k="unreachable")

    def brtable(self):
        rng = self.rng
        d = rng.randrange(len(self.labels))
        if self.labels[-1 - d][0] == "loop":
            d = len(self.labels) - 1
        ts = self.labels[-1 - d][1]
        same = [l for l in range(len(self.labels)) if self.labels[-1 - l][1] == ts and self.labels[-1 - l][0] != "loop"]
        ls = [rng.choice(same) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        self.args(ts)
        r = rng.random()
        if r < 0.6:
            self.small(rng.choice([0, 1, 2, len(ls), len(ls) - 1, -1, -2147483648, 2147483647]))
        else:
            self.expr("i32")
        self.emit(k="br_table", ls=ls, d=d)

    def dead(self, results):
        """Instructions that are never reached, ending with what the context expects."""
        rng = self.rng
        if rng.random() < 0.4:
            return  # the polymorphic stack supplies the results
        if rng.random() < 0.4:
            self.emit(k="bin", o="i32.add")
            self.emit(k="drop")
        if rng.random() < 0.3:
            c = [i for i, x in enumerate(self.locs) if x in NUM]
            if c:
                i = rng.choice(c)
                self.emit(k=rng.choice(["local.set", "local.tee"]), i=i, t=self.locs[i])
                if self.out[-1]["k"] == "local.tee":
                    self.emit(k="drop")
        b, self.budget = self.budget, 2
        self.stmt()
        self.args(results)
        self.budget = b

    def stmt(self):
        rng = self.rng
        self.budget -= 1
        if self.budget <= 0 or self.depth > 6:
            self.emit(k="nop")
            return
        self.enter()
        opts = ["set", "set", "drop", "drop", "block", "if", "if", "loop", "count", "br_if", "nop", "brt", "multi", "exit"] + self.focus
        mut = [i for i, g in enumerate(self.globals) if g[1]]
        if mut:
            opts += ["gset", "gset"]
        if self.mem is not None:
            opts += ["store", "store", "store"]
            if self.bulk:
                opts += ["fill", "copy"]
            if self.datas:
                opts += ["minit", "minit", "ddrop"]
        cs = [i for i, f in enumerate(self.fns) if self.callable(i)]
        if cs:
            opts += ["call", "call"]
        if self.tables:
            opts += ["callind"]
            if self.rich:
                opts += ["tset", "tset", "tfill", "tcopy"] + (["tinit", "tinit", "edrop"] if self.elems else [])
        o = rng.choice(opts)
        if o == "set":
            t = self.anytype()
            c = [i for i, x in enumerate(self.locs) if x == t and i not in self.guard()]
            i = rng.choice(c) if c else self.fresh(t)
            self.expr(t)
            self.emit(k="local.set", i=i, t=t)
        elif o == "gset":
            i = rng.choice(mut)
            self.expr(self.globals[i][0])
            self.emit(k="global.set", i=i, t=self.globals[i][0])
        elif o == "drop":
            self.expr(self.anytype())
            self.emit(k="drop")
        elif o in ("block", "if", "loop"):
            self.construct(o, [])
        elif o == "multi":
            rs = [self.anytype() for _ in range(rng.choice([2, 2, 3]))]
            self.construct(rng.choice(["block", "if", "loop"]), rs)
            for _ in rs:
                self.emit(k="drop")
        elif o == "count":
            # a loop that runs a few times
            c = self.fresh("i32")
            self.counters = self.guard() + [c]
            self.small(rng.randrange(1, 4))
            self.emit(k="local.set", i=c, t="i32")
            self.emit(k="loop", p=[], r=[])
            self.labels.append(("loop", []))
            for _ in range(rng.choice([1, 1, 2])):
                self.stmt()
            self.emit(k="local.get", i=c, t="i32")
            self.small(1)
            self.emit(k="bin", o="i32.sub")
            self.emit(k="local.tee", i=c, t="i32")
            self.emit(k="br_if", l=0)
            self.labels.pop()
            self.emit(k="end")
        elif o == "br_if":
            c = [l for l in range(len(self.labels)) if self.labels[-1 - l][0] != "loop"]
            l = rng.choice(c)
            ts = self.labels[-1 - l][1]
            self.args(ts)
            self.expr("i32")
            self.emit(k="br_if", l=l)
            for _ in ts:
                self.emit(k="drop")
        elif o == "brt":
            self.emit(k="block", p=[], r=[])
            self.labels.append(("block", []))
            self.emit(k="block", p=[], r=[])
            self.labels.append(("block", []))
            self.brtable()
            self.labels.pop()
            self.emit(k="end")
            self.stmt()
            self.labels.pop()
            self.emit(k="end")
        elif o == "exit":
            self.expr("i32")
            self.emit(k="if", p=[], r=[])
            self.labels.append(("if", []))
            self.stmt()
            self.terminator()
            if rng.random() < 0.3:
                self.dead([])
            self.labels.pop()
            self.emit(k="end")
        elif o == "store":
            t = num(rng)
            n, w = rng.choice(STORES[t])
            off = self.address(w)
            self.expr(t)
            self.emit(k="store", o=n, off=off)
        elif o == "fill":
            self.small(rng.randrange(0, 24))
            self.expr("i32")
            self.small(rng.choice([0, 1, 5, 9, 300000]))
            self.emit(k="memory.fill")
        elif o == "copy":
            self.small(rng.randrange(0, 24))
            self.small(rng.randrange(0, 24))
            self.small(rng.choice([0, 1, 5, 9, 300000]))
            self.emit(k="memory.copy")
        elif o == "minit":
            d = rng.randrange(len(self.datas))
            self.span(20, len(self.datas[d]))
            self.small(rng.choice([0, 1, 2, len(self.datas[d]), 8]))
            self.emit(k="memory.init", d=d)
        elif o == "ddrop":
            self.emit(k="data.drop", d=rng.randrange(len(self.datas)))
        elif o == "tset":
            i = rng.randrange(len(self.tables))
            self.slot(i)
            self.expr(self.tables[i]["t"])
            self.emit(k="table.set", i=i)
        elif o == "tfill":
            i = rng.randrange(len(self.tables))
            self.small(rng.randrange(0, 4))
            self.expr(self.tables[i]["t"])
            self.small(rng.choice([0, 1, 2, 3, 9]))
            self.emit(k="table.fill", i=i)
        elif o == "tcopy":
            i = rng.randrange(len(self.tables))
            j = rng.choice([j for j, x in enumerate(self.tables) if x["t"] == self.tables[i]["t"]])
            self.span(len(self.tables[i]["e"]), len(self.tables[j]["e"]))
            self.small(rng.choice([0, 1, 1, 2, 3]))
            self.emit(k="table.copy", i=i, j=j)
        elif o == "tinit":
            e = rng.randrange(len(self.elems))
            c = [j for j, x in enumerate(self.tables) if x["t"] == self.elems[e][0]]
            if c:
                i = rng.choice(c)
                self.span(len(self.tables[i]["e"]), len(self.elems[e][1]))
                self.small(rng.choice([0, 1, 1, 2, 5]))
                self.emit(k="table.init", i=i, e=e)
            else:
                self.emit(k="elem.drop", e=e)
        elif o == "edrop":
            self.emit(k="elem.drop", e=rng.randrange(len(self.elems)))
        elif o == "call":
            f = rng.choice(cs)
            if f == self.index and rng.random() < 0.8:
                self.emit(k="nop")
            else:
                p, r = self.types[self.fns[f].ty]
                self.args(p)
                self.emit(k="call", f=f)
                for _ in r:
                    self.emit(k="drop")
        elif o == "callind":
            c = [v[1] for i in self.functables() for v in self.tables[i]["e"] if v]
            r = list(self.types[self.fns[rng.choice(c)].ty][1]) if c else []
            self.indirect(r)
            for _ in r:
                self.emit(k="drop")
        else:
            self.emit(k="nop")
        self.leave()

    # ---------------------------------------------------------- output
    def wat(self):
        return to_wat(self.program())

    def program(self):
        fns = []
        for f in self.fns:
            fns.append({"imp": f.imp, "ty": f.ty + 1, "loc": list(f.locals), "body": f.body})
        data = {}
        if self.mem is not None:
            for at, bs in self.mem[2]:
                for i, b in enumerate(bs):
                    data[at + i] = b
        for fn in fns:
            for ins in fn["body"]:
                if ins["k"] == "call_indirect" and "tyj" not in ins:
                    ins["tyj"] = 1
                    ins["ty"] += 1
        return {"ft": [{"p": list(p), "r": list(r)} for p, r in self.types], "fn": fns,
                "gt": [{"t": t, "m": 1 if m else 0} for t, m, _ in self.globals], "gl": [v for _, _, v in self.globals],
                "mem": {"has": 1 if self.mem is not None else 0, "pages": self.mem[0] if self.mem else 0,
                        "limit": self.mem[1] if self.mem else 0, "data": [[a, b] for a, b in sorted(data.items())]},
                "start": self.start, "tabs": self.tables, "elems": [{"t": t, "e": e} for t, e in self.elems], "datas": self.datas,
                "imported": {"globals": self.imported_globals, "memory": self.imported_memory, "table": self.imported_table}}

    def given(self, t):
        """An argument from the host."""
        if t == "externref":
            return self.rng.choice([[], [7, self.rng.randrange(200)]])
        return self.constref(t) if t == "funcref" else value(self.rng, t)

    def call_list(self, n=4):
        rng = self.rng
        res = []
        cands = [i for i, f in enumerate(self.fns) if not f.imp] * 4 + list(range(len(self.fns)))
        for _ in range(n):
            f = rng.choice(cands)
            res.append({"f": f, "a": [self.given(t) for t in self.types[self.fns[f].ty][0]]})
        return res


def block_type(ins):
    s = ""
    if ins["p"]:
        s += " (param %s)" % " ".join(ins["p"])
    if ins["r"]:
        s += " (result %s)" % " ".join(ins["r"])
    return s


def instr_text(ins):
    k = ins["k"]
    if k == "const":
        return const_text(ins["t"], ins["v"])
    if k == "ref.null":
        return "ref.null %s" % ins["t"].replace("ref", "")
    if k in ("block", "loop", "if"):
        return k + block_type(ins)
    if k in ("un", "bin"):
        return ins["o"]
    if k in ("load", "store"):
        o = unle(ins["off"])
        return ins["o"] + (" offset=%d" % o if o else "")
    if k in ("br", "br_if"):
        return "%s %d" % (k, ins["l"])
    if k == "br_table":
        return "br_table %s" % " ".join(map(str, ins["ls"] + [ins["d"]]))
    if k in ("call", "ref.func"):
        return "%s %d" % (k, ins["f"])
    if k == "call_indirect":
        return "call_indirect %d (type %d)" % (ins["tb"], ins["ty"] - 1)
    if k.startswith("local.") or k.startswith("global."):
        return "%s %d" % (k, ins["i"])
    if k == "select" and ins.get("typed"):
        return "select (result %s)" % ins["typed"]
    if k in ("table.get", "table.set", "table.size", "table.grow", "table.fill"):
        return "%s %d" % (k, ins["i"])
    if k == "table.copy":
        return "table.copy %d %d" % (ins["i"], ins["j"])
    if k == "table.init":
        return "table.init %d %d" % (ins["i"], ins["e"])
    if k == "elem.drop":
        return "elem.drop %d" % ins["e"]
    if k in ("memory.init", "data.drop"):
        return "%s %d" % (k, ins["d"])
    return k


def to_wat(p, names=None):
    out = ["(module"]
    sig = lambda ty: "".join([" (param %s)" % " ".join(ty["p"]) if ty["p"] else "", " (result %s)" % " ".join(ty["r"]) if ty["r"] else ""])
    for i, ty in enumerate(p["ft"]):
        out.append(" (type (func%s))" % sig(ty))
    for i, f in enumerate(p["fn"]):
        if f["imp"]:
            out.append(' (import "env" "%s" (func (type %d)))' % (f["imp"], f["ty"] - 1))
    im = p.get("imported", {"globals": 0, "memory": False, "table": False})
    tabs = p["tabs"]
    if tabs and im["table"]:
        out.append(' (import "env" "tab0" (table %d %d %s))' % (len(tabs[0]["e"]), tabs[0]["max"], tabs[0]["t"]))
    if p["mem"]["has"] and im["memory"]:
        out.append(' (import "env" "mem" (memory %d %d))' % (p["mem"]["pages"], p["mem"]["limit"]))
    for i, g in enumerate(p["gt"][:im["globals"]]):
        out.append(' (import "env" "g%d" (global %s))' % (i, "(mut %s)" % g["t"] if g["m"] else g["t"]))
    for i, f in enumerate(p["fn"]):
        if f["imp"]:
            continue
        out.append(" (func (type %d)" % (f["ty"] - 1))
        if f["loc"]:
            out.append("  (local %s)" % " ".join(f["loc"]))
        out.append("  " + "\n  ".join(instr_text(x) for x in f["body"][:-1]))
        out.append(" )")
    for x in p.get("elems", []):
        out.append(" (elem %s%s)" % (x["t"], "".join(" (%s)" % ref_text(x["t"], v) for v in x["e"])))
    for x, t in enumerate(tabs):
        if x == 0 and im["table"]:
            out.append(' (export "tab0" (table 0))')
        else:
            out.append(' (table (export "tab%d") %d %d %s)' % (x, len(t["e"]), t["max"], t["t"]))
        for i, v in enumerate(t["e"]):
            if v and x == 0:
                out.append(" (elem (i32.const %d) func %d)" % (i, v[1]))
            elif v:
                out.append(" (elem (table %d) (i32.const %d) funcref (ref.func %d))" % (x, i, v[1]))
    for d in p.get("datas", []):
        out.append(' (data "%s")' % "".join("\\%02x" % b for b in d))
    if p["mem"]["has"]:
        out.append(' (memory (export "mem") %d %d)' % (p["mem"]["pages"], p["mem"]["limit"]) if not im["memory"] else ' (export "mem" (memory 0))')
        for a, b in p["mem"]["data"]:
            out.append(' (data (i32.const %d) "\\%02x")' % (a, b))
    for i, (g, v) in enumerate(zip(p["gt"], p["gl"])):
        t = g["t"]
        if i < im["globals"]:
            out.append(' (export "g%d" (global %d))' % (i, i))
            continue
        out.append(" (global (export \"g%d\") %s (%s))" % (i, "(mut %s)" % t if g["m"] else t, init_text(t, v)))
    for i, f in enumerate(p["fn"]):
        out.append(' (export "f%d" (func %d))' % (i, i))
    if p.get("start", -1) >= 0:
        out.append(" (start %d)" % p["start"])
    out.append(")")
    return "\n".join(out)


ALL_HOOKS = ["GenericApply", "CallPre", "CallPost", "CallIndirectPre", "CallIndirectPost", "IfThen", "IfThenPost",
             "IfThenElse", "IfThenElsePost", "Branch", "BranchIf", "BranchTable", "Select", "Unary", "Binary", "Drop",
             "Return", "Const", "Local", "Global", "Store", "Load", "MemorySize", "MemoryGrow", "BlockPre", "BlockPost",
             "LoopPre", "LoopPost"]


def hook_set(rng, apply=0.15):
    """A selection of hooks: all, one, a family, or any."""
    r = rng.random()
    if r < 0.25:
        h = [x for x in ALL_HOOKS if x != "GenericApply"]
    elif r < 0.45:
        h = [rng.choice(ALL_HOOKS)]
    elif r < 0.8:
        p = rng.random()
        h = [x for x in ALL_HOOKS if x != "GenericApply" and rng.random() < p]
    else:
        h = rng.choice([["CallPre", "CallPost", "CallIndirectPre", "CallIndirectPost"],
                        ["IfThen", "IfThenPost", "IfThenElse", "IfThenElsePost", "BranchIf"],
                        ["IfThenPost"], ["IfThenElsePost", "BlockPost", "LoopPost"],
                        ["Load", "Store", "MemorySize", "MemoryGrow"], ["Local", "Global", "Const"],
                        ["Branch", "BranchIf", "BranchTable", "Return"], ["BlockPre", "BlockPost", "LoopPre", "LoopPost"]])
        h = list(h)
    if rng.random() < apply and "GenericApply" not in h:
        h.append("GenericApply")
    return h
