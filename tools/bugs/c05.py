ID = "core-base-table"
PROPERTY = "P14"
NEEDS = "whole-function interception in a program that has a table of its own"
BREAKS = "the base function calls through the program's own table instead of the one of intercepted functions"
CORE = True
EDITS = [("wastrumentation/src/instrument/function_application.rs", """                FunctionType::new(&[ValType::I32], &[]),
                apply_table_index.into(),""", """                FunctionType::new(&[ValType::I32], &[]),
                (apply_table_index - module.tables.len().min(1) * apply_table_index.min(1)).into(),""")]
DEMO = {"check.mjs": r'''
import { instrument, link, outcome, same } from "./wasm.mjs";
const wat = (table) => `(module ${table} (func $g (param i32) (result i32) (i32.add (local.get 0) (i32.const 1)))
  (func (export "f") (param i32) (result i32) (call $g (i32.mul (local.get 0) (i32.const 2)))))`;
for (const table of ["", "(table 4 funcref) (elem (i32.const 1) $g)"]) {
  const p = instrument(wat(table), ["GenericApply"]);
  let seen = [];
  const l = link(p, new Proxy({}, { get: (_, n) => n === "generic_apply" || /apply/.test(n) ? (...a) => { seen.push(a[1]); l.e.call_base(a[0], a[4]); } : undefined }));
  const base = l.e.call_base ? "call_base" : Object.keys(l.e).find((n) => /call_base/.test(n));
  same([outcome(() => l.e.f(20)), seen], [41, [1, 0]], "table: " + table + " " + base);
}
'''}
