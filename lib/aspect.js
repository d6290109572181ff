// Runs generated guest code: one line of JSON {id, text, wants, events} in, one line {id, status, logs} out.
// The guest code is AssemblyScript; what of it has a meaning in JavaScript is run as such, with type arguments passed along.
const fs = require("fs");
const ts = require("/opt/veriftools/node/node_modules/typescript");
const K = ts.SyntaxKind;
class Trap extends Error {}
class Unsupported extends Error {}
const f = ts.factory;
const id = (n) => f.createIdentifier(n);
const TYPES = {
  i8: [1, "i"], i16: [2, "i"], i32: [4, "i"], isize: [4, "i"], u8: [1, "u"], u16: [2, "u"], u32: [4, "u"], usize: [4, "u"], bool: [1, "b"], boolean: [1, "b"],
  i64: [8, "I"], u64: [8, "U"], f32: [4, "f"], f64: [8, "d"], number: [8, "d"],
};
const BUILTIN = new Set(["load", "store", "memory", "heap", "Math", "NativeMath", "NativeMathf", "Mathf", "StaticArray", "Array", "Map", "Set", "String", "trace", "abort", "console", "process", "select",
  "changetype", "idof", "nameof", "isReference", "isDefined", "min", "max", "abs", "clz", "ctz", "popcnt", "rotl", "rotr", "reinterpret", "__new", "call_indirect", "builtin", "offsetof", "alignof", "v128",
  "ArrayBuffer", "DataView", "Int32Array", "Int64Array", "Float32Array", "Float64Array", "Uint8Array", "ASC_TARGET", "isNaN", "isFinite", "NaN", "Infinity", "i32", "i64", "f32", "f64", "u32", "u64", "bool"]);
function coerce(t, v) {
  if (v === undefined) return v;
  switch (t.k) {
    case "i": case "u": case "b": {
      if (typeof v === "boolean") return t.k === "b" ? v : (v ? 1 : 0);
      if (typeof v === "bigint") v = Number(BigInt.asIntN(32, v));
      if (typeof v !== "number") return v;
      if (t.k === "b") return v !== 0;
      const n = t.size === 4 ? v | 0 : t.size === 2 ? (v << 16) >> 16 : (v << 24) >> 24;
      return t.k === "u" ? (t.size === 4 ? n >>> 0 : n & (t.size === 2 ? 0xffff : 0xff)) : n;
    }
    case "I": case "U":
      if (typeof v === "boolean") v = v ? 1 : 0;
      if (typeof v === "number") v = BigInt(Math.trunc(v));
      if (typeof v !== "bigint") return v;
      return t.k === "I" ? BigInt.asIntN(64, v) : BigInt.asUintN(64, v);
    case "f": if (typeof v === "bigint") v = Number(v); return typeof v === "number" ? Math.fround(v) : v;
    case "d": if (typeof v === "bigint") v = Number(v); return v;
  }
  return v;
}
const ANY = { k: "*", size: 4 };
const T = {};
for (const [n, [size, k]] of Object.entries(TYPES)) T[n] = { n, size, k };
const zero = (t) => (t.k === "I" || t.k === "U" ? 0n : t.k === "b" ? false : t.k === "*" ? null : 0);
const HELP = {
  $T: T, $any: ANY, $c: coerce, $0: zero,
  sizeof: (t) => t.size, isInteger: (t) => "iubIU".includes(t.k), isFloat: (t) => t.k === "f" || t.k === "d", isSigned: (t) => "iIfd".includes(t.k),
  unreachable: () => { throw new Trap("unreachable"); },
  assert: (x, m) => { if (!x) throw new Trap("assert"); return x; },
  $idiv: (a, b) => { if (typeof a === "bigint") { if (b === 0n) throw new Trap("division"); return a / b; } throw new Unsupported("a division"); },
};

// the program as JavaScript, the functions it imports, and the functions it exports
function translate(text) {
  const src = ts.createSourceFile("guest.ts", text, ts.ScriptTarget.Latest, true);
  if (src.parseDiagnostics.length) return { error: "does not parse: " + src.parseDiagnostics.slice(0, 2).map((d) => d.messageText).join("; ") };
  const imports = [], exported = [], enums = new Set();
  const scopes = [];
  const known = (n) => scopes.some((s) => s.has(n));
  src.forEachChild((n) => { if (ts.isEnumDeclaration(n)) enums.add(n.name.text); });
  const typeOf = (t) => {
    if (!t) return id("$any");
    if (ts.isTypeReferenceNode(t) && ts.isIdentifier(t.typeName)) {
      const n = t.typeName.text;
      if (known(n)) return id("$t_" + n);
      if (TYPES[n]) return f.createPropertyAccessExpression(id("$T"), n);
      if (enums.has(n)) return f.createPropertyAccessExpression(id("$T"), "i32");
      return id("$any");
    }
    if (t.kind === K.BooleanKeyword) return f.createPropertyAccessExpression(id("$T"), "bool");
    if (t.kind === K.NumberKeyword) return f.createPropertyAccessExpression(id("$T"), "f64");
    return id("$any");
  };
  const call = (n, ...a) => f.createCallExpression(id(n), undefined, a);
  const visitor = (ctx) => {
    const visit = (n) => {
      if (ts.isFunctionDeclaration(n) && (n.modifiers || []).some((m) => m.kind === K.DeclareKeyword)) {
        const d = (n.modifiers || []).find((m) => m.kind === K.Decorator);
        const a = d && ts.isCallExpression(d.expression) ? d.expression.arguments.map((x) => x.text) : ["guest", n.name.text];
        if (n.typeParameters) throw new Unsupported("a generic import");
        imports.push({ name: n.name.text, ns: a.length > 1 ? a[0] : "guest", x: a[a.length - 1], p: n.parameters.map((p) => (p.type ? p.type.getText() : "?")), r: n.type ? n.type.getText() : "?" });
        return undefined;
      }
      if (ts.isFunctionLike(n) && !ts.isConstructSignatureDeclaration(n)) {
        const tps = (n.typeParameters || []).map((t) => t.name.text);
        scopes.push(new Set(tps));
        const pre = [];
        for (const p of n.parameters) {
          if (!ts.isIdentifier(p.name)) throw new Unsupported("a pattern");
          if (p.type) pre.push(f.createExpressionStatement(f.createAssignment(id(p.name.text), call("$c", typeOf(p.type), id(p.name.text)))));
        }
        const ret = n.type && n.body ? typeOf(n.type) : null;
        let m = ts.visitEachChild(n, visit, ctx);
        scopes.pop();
        const extra = tps.map((t) => f.createParameterDeclaration(undefined, undefined, "$t_" + t));
        const mods = (m.modifiers || []).filter((x) => x.kind !== K.Decorator && x.kind !== K.ExportKeyword);
        const params = [...extra, ...m.parameters.map((p) => f.updateParameterDeclaration(p, p.modifiers, p.dotDotDotToken, p.name, p.questionToken, p.type, p.initializer))];
        let body = m.body;
        if (body && ts.isBlock(body)) {
          const ctor = ts.isConstructorDeclaration(m);
          const sup = ctor ? body.statements.findIndex((s) => ts.isExpressionStatement(s) && ts.isCallExpression(s.expression) && s.expression.expression.kind === K.SuperKeyword) : -1;
          const st = [...body.statements];
          st.splice(sup + 1, 0, ...pre);
          // parameters of super() are converted when it is called with them
          body = f.updateBlock(body, st);
        }
        if (ts.isFunctionDeclaration(m)) {
          if ((n.modifiers || []).some((x) => x.kind === K.ExportKeyword)) exported.push({ name: m.name.text, p: n.parameters.map((p) => (p.type ? p.type.getText() : "?")), r: n.type ? n.type.getText() : "void" });
          return f.createFunctionDeclaration(mods, m.asteriskToken, m.name, undefined, params, undefined, body);
        }
        if (ts.isMethodDeclaration(m)) return f.createMethodDeclaration(mods, m.asteriskToken, m.name, m.questionToken, undefined, params, undefined, body);
        if (ts.isConstructorDeclaration(m)) return f.createConstructorDeclaration(mods, m.parameters, body);
        return m;
      }
      if (ts.isReturnStatement(n) && n.expression) {
        // the result has the declared type
        let p = n.parent;
        while (p && !ts.isFunctionLike(p)) p = p.parent;
        const e = ts.visitNode(n.expression, visit);
        return f.createReturnStatement(p && p.type && p.type.kind !== K.VoidKeyword ? call("$c", typeOf(p.type), e) : e);
      }
      if (ts.isPropertyDeclaration(n) && !(n.modifiers || []).some((m) => m.kind === K.StaticKeyword || m.kind === K.AbstractKeyword)) {
        const t = typeOf(n.type);
        const init = n.initializer ? call("$c", t, ts.visitNode(n.initializer, visit)) : f.createBinaryExpression(f.createPropertyAccessExpression(f.createThis(), n.name), K.QuestionQuestionToken, call("$0", t));
        return f.createPropertyDeclaration((n.modifiers || []).filter((m) => m.kind !== K.Decorator), n.name, undefined, undefined, init);
      }
      if (ts.isClassDeclaration(n)) {
        if (n.typeParameters) throw new Unsupported("a generic class");
        const m = ts.visitEachChild(n, visit, ctx);
        return f.updateClassDeclaration(m, (m.modifiers || []).filter((x) => x.kind !== K.Decorator && x.kind !== K.ExportKeyword), m.name, undefined, m.heritageClauses, m.members);
      }
      if (ts.isVariableDeclaration(n) && n.type) {
        const t = typeOf(n.type);
        const m = ts.visitEachChild(n, visit, ctx);
        return f.updateVariableDeclaration(m, m.name, undefined, undefined, m.initializer ? call("$c", t, m.initializer) : call("$0", t));
      }
      if (ts.isAsExpression(n) || ts.isTypeAssertionExpression(n)) return call("$c", typeOf(n.type), ts.visitNode(n.expression, visit));
      if (ts.isCallExpression(n)) {
        if (ts.isIdentifier(n.expression) && TYPES[n.expression.text] && n.arguments.length === 1) return call("$c", typeOf(f.createTypeReferenceNode(n.expression.text)), ts.visitNode(n.arguments[0], visit));
        if (ts.isIdentifier(n.expression) && n.expression.text === "changetype") return ts.visitNode(n.arguments[0], visit);
        const m = ts.visitEachChild(n, visit, ctx);
        return f.updateCallExpression(m, m.expression, undefined, [...(n.typeArguments || []).map(typeOf), ...m.arguments]);
      }
      if (ts.isBinaryExpression(n)) {
        const o = n.operatorToken.kind;
        const m = ts.visitEachChild(n, visit, ctx);
        if (o === K.EqualsEqualsEqualsToken) return f.createBinaryExpression(m.left, K.EqualsEqualsToken, m.right);
        if (o === K.ExclamationEqualsEqualsToken) return f.createBinaryExpression(m.left, K.ExclamationEqualsToken, m.right);
        if (o === K.SlashToken) return call("$idiv", m.left, m.right);
        if (o === K.SlashEqualsToken || o === K.AsteriskAsteriskToken) throw new Unsupported("an operator");
        return m;
      }
      if (ts.isModuleDeclaration(n) || ts.isInterfaceDeclaration(n) && false) throw new Unsupported("a namespace");
      return ts.visitEachChild(n, visit, ctx);
    };
    return (sf) => {
      // declarations may stand in any order
      const st = [...sf.statements], first = st.filter((x) => ts.isEnumDeclaration(x)), classes = st.filter((x) => ts.isClassDeclaration(x)), placed = new Set();
      const base = (x) => ((x.heritageClauses || []).filter((h) => h.token === K.ExtendsKeyword)[0] || { types: [] }).types.map((y) => y.expression.getText())[0];
      const all = new Set(classes.map((x) => x.name.text));
      for (let left = classes; left.length; ) {
        const now = left.filter((x) => !all.has(base(x)) || placed.has(base(x)));
        if (!now.length) throw new Unsupported("classes in a circle");
        now.forEach((x) => { first.push(x); placed.add(x.name.text); });
        left = left.filter((x) => !now.includes(x));
      }
      const rest = st.filter((x) => !first.includes(x));
      return ts.visitEachChild(f.updateSourceFile(sf, [...first, ...rest]), visit, ctx);
    };
  };
  const r = ts.transform(src, [visitor]);
  const out = ts.createPrinter().printFile(r.transformed[0]);
  const js = ts.transpileModule(out, { compilerOptions: { target: ts.ScriptTarget.ES2022, useDefineForClassFields: false, module: ts.ModuleKind.None, alwaysStrict: true } }).outputText;
  return { js, imports, exported };
}

const buf = new DataView(new ArrayBuffer(8));
function show(t, v) {
  v = coerce(T[t], v);
  if (v === undefined || v === null || typeof v === "object") return "?" + String(v);
  if (t === "i32" || t === "i64") return String(v);
  if (t === "f32") { buf.setFloat32(0, v); return "x" + buf.getUint32(0).toString(16); }
  buf.setFloat64(0, v); return "x" + buf.getBigUint64(0).toString(16);
}
function value(t, s) {
  if (t === "i32") return Number(s);
  if (t === "i64") return BigInt(s);
  if (t === "f32") { buf.setUint32(0, parseInt(s.slice(1), 16)); return buf.getFloat32(0); }
  buf.setBigUint64(0, BigInt("0x" + s.slice(1))); return buf.getFloat64(0);
}
const CODE = { i32: 0, f32: 1, i64: 2, f64: 3 };

function go(c) {
  let tr;
  try { tr = translate(c.text); } catch (e) {
    if (e instanceof Unsupported) return { status: "unsupported: " + e.message, logs: [] };
    return { status: "unsupported: " + (e.stack || e), logs: [] };
  }
  if (tr.error) return { status: tr.error, logs: [] };
  let log = [], e = null, slots = [], applied = 0;
  const put = (x) => { if (log.length < 500) log.push(x); };
  const off = (p, o, t) => {
    if (p !== e.buffer) { put({ k: "stray", why: "pointer " + p }); return null; }
    if (!(o >= 0 && o < slots.length)) { put({ k: "stray", why: "offset " + o }); return null; }
    if (t && slots[o].t !== t) { put({ k: "stray", why: t + " at an " + slots[o].t }); return null; }
    return slots[o];
  };
  const stack = {};
  for (const t of ["i32", "f32", "i64", "f64"]) {
    stack["wastrumentation_stack_load_" + t] = (p, o) => { const s = off(p, o, t); if (!s) throw new Trap("stray"); return s.raw; };
    stack["wastrumentation_stack_store_" + t] = (p, v, o) => { const s = off(p, o, t); if (!s) throw new Trap("stray"); s.raw = coerce(T[t], v); s.v = show(t, v); };
  }
  stack["wastrumentation_stack_load_type"] = (p, o) => {
    if (p !== e.types) { put({ k: "stray", why: "types pointer " + p }); throw new Trap("stray"); }
    if (!(o >= 0 && o < slots.length)) { put({ k: "stray", why: "types offset " + o }); throw new Trap("stray"); }
    return CODE[slots[o].t];
  };
  const texts = (part) => part.map((s) => s.v);
  const host = {
    wastrumentation_stack: stack,
    instrumented_input: {
      call_base: (fa, s) => {
        put({ k: "base", f: fa, s, a: texts(slots.slice(e.ress.length)), r: texts(slots.slice(0, e.ress.length)) });
        const b = e.base[applied++];
        if (!b) throw new Unsupported("too many applications");
        b.forEach((v, i) => { slots[i].v = v; slots[i].raw = value(slots[i].t, v); });
      },
    },
    probe: {
      which: (n) => (e.which === n ? 1 : 0),
      say: (n) => put({ k: "see", t: "i32", v: String(n) }),
      see_truth: (v) => put({ k: "see", t: "truth", v: v === undefined || v === null ? "?" : v ? "1" : "0" }),
    },
  };
  for (const t of ["i32", "f32", "i64", "f64"]) {
    host.probe["see_" + t] = (v) => put({ k: "see", t, v: show(t, v) });
    host.probe["want_" + t] = (n) => value(t, c.wants[n].v);
  }
  const names = [], vals = [];
  for (const i of tr.imports) {
    const fn = (host[i.ns] || {})[i.x];
    if (!fn) return { status: "imports " + i.ns + "." + i.x + ", which nobody offers", logs: [] };
    names.push(i.name);
    vals.push((...a) => {
      const r = fn(...i.p.map((t, j) => (T[t] ? coerce(T[t], a[j]) : a[j])));
      return T[i.r] ? coerce(T[i.r], r) : undefined;
    });
  }
  let inst;
  try {
    const hn = Object.keys(HELP);
    inst = new Function(...hn, ...names, '"use strict";\n' + tr.js + "\nreturn {" + tr.exported.map((x) => x.name).join(", ") + "};")(...hn.map((n) => HELP[n]), ...vals);
  } catch (x) { return { status: fault(x), logs: [] }; }
  const logs = [];
  for (e of c.events) {
    log = []; applied = 0;
    slots = [...e.ress, ...e.args].map((s) => ({ t: s.t, v: s.v, raw: value(s.t, s.v) }));
    const x = tr.exported.find((y) => y.name === e.name);
    if (!x) return { status: "exports no " + e.name, logs };
    try {
      const a = [...e.passed, e.fidx, e.iidx].map((v, i) => (T[x.p[i]] ? coerce(T[x.p[i]], v) : v));
      const r = inst[x.name](...a.slice(0, x.p.length));
      if (e.cond) put({ k: "answer", v: r === undefined ? -99 : (r ? 1 : 0) });
      else if (e.decides) put({ k: "answer", v: typeof r === "number" ? r | 0 : -99 });
    } catch (err) {
      if (err instanceof Trap) put({ k: "trap" });
      else return { status: fault(err), logs };
    }
    if (e.kind === "apply") put({ k: "left", a: texts(slots.slice(e.ress.length)), r: texts(slots.slice(0, e.ress.length)) });
    logs.push(log);
  }
  return { status: "ok", logs };
}
function fault(x) {
  if (x instanceof Unsupported) return "unsupported: " + x.message;
  if (x instanceof ReferenceError) {
    const m = /^(\S+) is not defined/.exec(x.message);
    if (!m) return "unsupported: " + x.message;
    if ((BUILTIN.has(m[1]) || m[1].startsWith("$"))) return "unsupported: " + x.message;
    return "fails: " + x.message;
  }
  if (x instanceof SyntaxError && /already been declared/.test(x.message)) return "fails: " + x.message;
  if (x instanceof TypeError && /\.(get|set|getType|apply) is not a function/.test(x.message)) return "fails: " + x.message;
  return "unsupported: " + (x.stack || x);
}
const out = [];
for (const line of fs.readFileSync(process.argv[2], "utf8").split("\n")) {
  if (!line) continue;
  const c = JSON.parse(line);
  out.push(JSON.stringify({ id: c.id, ...go(c) }));
}
fs.writeFileSync(process.argv[3], out.join("\n") + "\n");
