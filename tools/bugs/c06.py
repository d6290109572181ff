ID = "core-typed-select"
PROPERTY = "P15"
NEEDS = "a select over references in a hooked function, under the select hook"
BREAKS = "an explicitly typed select is written back as an untyped one, which is not valid for references"
CORE = True
EDITS = [("wastrumentation/src/instrument/block_loop.rs", "                    result.push(typed_instr.place_original(Instr::TypedSelect(*type_)));", "                    let _ = type_;\n                    result.push(typed_instr.place_original(Instr::Select));")]
DEMO = {"check.mjs": r'''
import { instrument, check } from "./wasm.mjs";
for (const wat of [`(func (export "f") (param i32) (result i32) (select (result i32) (i32.const 1) (i32.const 2) (local.get 0)))`,
  `(func (export "f") (param i32) (result i32) (ref.is_null (select (result externref) (ref.null extern) (ref.null extern) (local.get 0))))`]) {
  const p = instrument(`(module ${wat})`, ["Select"]);
  check(WebAssembly.validate(p.module), "the instrumented module is invalid: " + wat);
}
'''}
