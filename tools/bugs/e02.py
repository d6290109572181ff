ID = "core-brif-answer"
PROPERTY = "P12"
NEEDS = "an analysis that answers a br_if with an even number other than zero"
BREAKS = "only the lowest bit of the answer decides whether the branch is taken"
CORE = True
EDITS = [("wastrumentation/src/instrument/branch_if.rs", """                    result.extend_from_slice(&typed_instr.to_trap_call(&br_if_trap_idx));
                    // STACK: [kontinuation]
""", """                    result.extend_from_slice(&typed_instr.to_trap_call(&br_if_trap_idx));
                    // STACK: [kontinuation]
                    result.extend([
                        typed_instr.instrument_with(Instr::Const(Val::I32(1))),
                        typed_instr.instrument_with(Instr::Binary(wasabi_wasm::BinaryOp::I32And)),
                    ]);
""")]
DEMO = {"check.mjs": r'''
import { instrument, link, same } from "./wasm.mjs";
const p = instrument(`(module (func (export "f") (param i32) (result i32) (block (br_if 0 (local.get 0)) (return (i32.const 5))) (i32.const 6)))`, ["BranchIf"]);
let answer;
const { e } = link(p, new Proxy({}, { get: () => () => answer }));
for (answer of [0, 1, 2, 3, -1, 256, -2147483648]) same(e.f(0), answer === 0 ? 5 : 6, "answer " + answer);
'''}
