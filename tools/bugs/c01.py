ID = "core-table-default-entries"
PROPERTY = "P22"
NEEDS = "a branch table of two or more entries, one of which (not the last) is the default label, and an index beyond that entry"
BREAKS = "entries equal to the default label are skipped, so later entries report the label of their successor"
CORE = True
EDITS = [("wastrumentation/src/instrument/branch_if.rs", "table: table.to_vec(),", "table: table.iter().filter(|label| *label != default).copied().collect(),")]
DEMO = {"check.mjs": r'''
import { instrument, link, same } from "./wasm.mjs";
const p = instrument(`(module (func (export "f") (param i32) (result i32)
  (block (block (block (br_table 0 2 1 2 (local.get 0))) (return (i32.const 10))) (return (i32.const 20))) (i32.const 30)))`, ["BranchTable"]);
for (const [i, want] of [[0, 0], [1, 2], [2, 1], [3, 2], [-1, 2], [100, 2]]) {
  let seen = [];
  const { e } = link(p, { specialized_br_table: (...a) => { seen.push(a); return a[0]; } });
  const r = e.f(i);
  same([r, seen.map((a) => a.slice(0, 3))], [[10, 20, 30][want], [[i, want, 2]]], "index " + i);
}
'''}
