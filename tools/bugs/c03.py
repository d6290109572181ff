ID = "core-offset-sign"
PROPERTY = "P10"
NEEDS = "a load with a static offset of 2^31 or more"
BREAKS = "the offset of a load is reported as a negative number"
CORE = True
EDITS = [("wastrumentation/src/instrument/memory.rs", """                                    // [i32: index to load from]
                                    typed_instr.instrument_with(Instr::Const(Val::I64((*offset).into()))),""", """                                    // [i32: index to load from]
                                    typed_instr.instrument_with(Instr::Const(Val::I64(i64::from(*offset as i32)))),""")]
DEMO = {"check.mjs": r'''
import { instrument, link, same } from "./wasm.mjs";
for (const o of [0, 8, 2147483647, 2147483648, 4294967295]) {
  const p = instrument(`(module (memory 1) (func (export "f") (param i32) (result i32) (i32.load offset=${o} (local.get 0))))`, ["Load"]);
  let seen = [];
  const { e } = link(p, new Proxy({}, { get: () => (...a) => { seen.push(Number(a[1])); return 0; } }));
  same([e.f(0), seen], [0, [o]], "offset " + o);
}
'''}
