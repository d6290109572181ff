ID = "core-empty-import"
PROPERTY = "P14"
NEEDS = "interception of a function whose body is empty"
BREAKS = "a function with an empty body is reported to generic apply as an import"
CORE = True
EDITS = [("wastrumentation/src/instrument/function_application.rs", "module.function(*function_index).code().is_some();", "module\n            .function(*function_index)\n            .code()\n            .is_some_and(|code| code.body.len() > 1);")]
DEMO = {"check.mjs": r'''
import { instrument, link, same } from "./wasm.mjs";
const p = instrument(`(module (import "h" "i" (func)) (func (export "g") (nop)) (func (export "f") (param i32)) (func (export "k") (call 0)))`, ["GenericApply"]);
const seen = [];
const l = link(p, new Proxy({}, { get: () => (...a) => { seen.push([a[1], a[6]]); l.e.call_base(a[0], a[4]); } }), { h: { i: () => {} } });
l.e.g(); l.e.f(1); l.e.k();
same(seen, [[1, 0], [2, 0], [3, 0], [0, 1]], "function index and whether it is an import");
'''}
