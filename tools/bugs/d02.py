ID = "core-loop-const"
PROPERTY = "P13"
NEEDS = "a loop under the loop-pre and the const hook together"
BREAKS = "a constant that the loop hook injects is itself reported by the const hook"
CORE = True
EDITS = [("wastrumentation/src/instrument/block_loop.rs", """(Target::LoopPre(trap_idx), Instr::Loop(type_, body)) => {
                    let mut injected_body = vec![
                        // STACK: [type_in]
                        typed_instr.instrument_with(Instr::Const(""", """(Target::LoopPre(trap_idx), Instr::Loop(type_, body)) => {
                    let mut injected_body = vec![
                        // STACK: [type_in]
                        typed_instr.place_original(Instr::Const(""")]
DEMO = {"check.mjs": r'''
import { instrument, link, same } from "./wasm.mjs";
for (const hooks of [["Const"], ["Const", "LoopPre"], ["LoopPre", "LoopPost", "Const", "Drop"]]) {
  const p = instrument(`(module (func (export "f") (loop (drop (i32.const 7)))))`, hooks);
  let n = 0;
  const { e } = link(p, new Proxy({}, { get: (_, name) => (...a) => { if (/const/.test(name)) n++; return a[0]; } }));
  e.f();
  same(n, 1, "constants reported under " + hooks);
}
'''}
