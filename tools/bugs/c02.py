ID = "core-if-post-inputs"
PROPERTY = "P10"
NEEDS = "an if without else whose type has parameters, with a false condition, under the if-then-post hook"
BREAKS = "the after-notification of an untaken if that takes parameters is missing"
CORE = True
EDITS = [("wastrumentation/src/instrument/branch_if.rs", "                    let injected_else_body = typed_instr.to_trap_call(&if_then_post_trap_idx);", """                    let injected_else_body = if type_.inputs().is_empty() {
                        typed_instr.to_trap_call(&if_then_post_trap_idx)
                    } else {
                        Vec::new()
                    };""")]
DEMO = {"check.mjs": r'''
import { instrument, link, same } from "./wasm.mjs";
const p = instrument(`(module (func (export "f") (param i32) (result i32)
  (i32.const 5) (if (param i32) (result i32) (local.get 0) (then (i32.const 1) (i32.add)))))`, ["IfThenPost"]);
for (const [c, want] of [[0, 5], [1, 6]]) {
  let seen = [];
  const { e } = link(p, new Proxy({}, { get: () => (...a) => { seen.push(a.map(Number)); } }));
  same([e.f(c), seen], [want, [[0, 2]]], "condition " + c);
}
'''}
