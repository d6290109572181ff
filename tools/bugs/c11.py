ID = "core-float-slot"
PROPERTY = "P18"
NEEDS = "an f32 result with a signalling NaN payload or any value read through the wider slot: the conversion goes through f64"
BREAKS = "f32 values are kept in buffers as converted integers instead of their bits"
CORE = True
EDITS = [("supported-languages/webassembly/src/generate/instrumentation/mod.rs", 'WasmType::F32 => "(i32.reinterpret_f32) (;then;) (i64.extend_i32_u)",', 'WasmType::F32 => "(f32.const 0) (f32.add) (i32.reinterpret_f32) (;then;) (i64.extend_i32_u)",')]
DEMO = {"check.mjs": r'''
import { instrument, link, outcome, same } from "./wasm.mjs";
const p = instrument(`(module (func $g (param f32) (result f32) (local.get 0)) (func (export "f") (param i32) (result i32)
  (i32.reinterpret_f32 (call $g (f32.reinterpret_i32 (local.get 0))))))`, ["GenericApply"], [0]);
for (const x of [0, 1, 0x3f800000, 0x7f800000, -0x80000000, -1]) {
  const l = link(p, new Proxy({}, { get: () => (...a) => { l.e.call_base(a[0], a[4]); } }));
  same(l.e.f(x), x, "bits");
}
'''}
