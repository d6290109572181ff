ID = "core-code-overlap"
PROPERTY = "P17"
NEEDS = "i64.extend16_s and i64.extend32_s compared under the unary hook"
BREAKS = "two sign-extension operators share one code"
CORE = True
EDITS = [("wastrumentation/src/instrument/simple_operations.rs", "UnaryOp::I64Extend32S      => 60,", "UnaryOp::I64Extend32S      => 59,")]
DEMO = {"check.mjs": r'''
import { instrument, link, same } from "./wasm.mjs";
const ops = ["eqz", "clz", "ctz", "popcnt", "extend8_s", "extend16_s", "extend32_s"];
const p = instrument("(module " + ops.map((o) => `(func (export "${o}") (param i64) (i64.${o} (local.get 0)) (drop))`).join(" ") + ")", ["Unary"]);
const codes = {};
let at;
const { e } = link(p, new Proxy({}, { get: (_, n) => (v, op) => { (codes[op] ||= []).push(at); return /to_i64|i64_to_i64/.test(n) ? 0n : at === "eqz" ? 0 : 0n; } }));
for (at of ops) e[at](1n);
same(Object.values(codes).filter((x) => x.length > 1), [], "operators with one code");
'''}
