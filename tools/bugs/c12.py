ID = "core-call-order"
PROPERTY = "P10"
NEEDS = "the two call-indirect hooks together on a call of a second table"
BREAKS = "after an indirect call through a table other than the first, table 0 is reported"
CORE = True
EDITS = [("wastrumentation/src/instrument/function_call_indirect.rs", """                        // STACK: [type_out]
                        typed_instr.instrument_with(Instr::Const(Val::I32(
                            i32::try_from(table_index.to_u32()).unwrap(),""", """                        // STACK: [type_out]
                        typed_instr.instrument_with(Instr::Const(Val::I32(
                            i32::try_from(table_index.to_u32().saturating_sub(1)).unwrap(),""")]
DEMO = {"check.mjs": r'''
import { instrument, link, same } from "./wasm.mjs";
const p = instrument(`(module (type $t (func (result i32))) (table $a 1 funcref) (table $b 1 funcref) (table $c 1 funcref) (elem (table $a) (i32.const 0) $x) (elem (table $b) (i32.const 0) func $y) (elem (table $c) (i32.const 0) func $y)
  (func $x (result i32) (i32.const 1)) (func $y (result i32) (i32.const 2))
  (func (export "f") (result i32) (i32.add (i32.mul (i32.const 10) (call_indirect $a (type $t) (i32.const 0))) (i32.add (call_indirect $c (type $t) (i32.const 0)) (call_indirect $b (type $t) (i32.const 0))))))`.replace("(table $a) (i32.const 0) $x", "(table $a) (i32.const 0) func $x"), ["CallIndirectPost", "CallIndirectPre"]);
let seen = [];
const { e } = link(p, new Proxy({}, { get: () => (...a) => { seen.push(a.length === 4 ? ["pre", a[0], a[1]] : ["post", a[0]]); return a[0]; } }));
same([e.f(), seen], [14, [["pre", 0, 0], ["post", 0], ["pre", 0, 2], ["post", 2], ["pre", 0, 1], ["post", 1]]], "tables");
'''}
