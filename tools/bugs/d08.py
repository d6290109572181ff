ID = "core-element-front"
PROPERTY = "P09"
NEEDS = "a program that uses a passive element segment, under generic apply"
BREAKS = "the segment added for interception comes first, so the program's own segments are renumbered"
CORE = True
EDITS = [("wastrumentation/src/instrument/function_application.rs", "    module.elements.push(Element {", "    module.elements.insert(0, Element {")]
DEMO = {"check.mjs": r'''
import { instrument, link, same } from "./wasm.mjs";
const wat = `(module (table 4 funcref) (elem func $a $b) (func $a (result i32) (i32.const 5)) (func $b (result i32) (i32.const 6))
 (func (export "f") (param i32) (result i32) (table.init 0 (i32.const 0) (i32.const 0) (i32.const 2)) (call_indirect (result i32) (local.get 0))))`;
for (const hooks of [["Drop"], ["GenericApply"]]) {
  const l = link(instrument(wat, hooks, [0]), new Proxy({}, { get: () => (...a) => { l.e.call_base(a[0], a[4]); } }));
  same([0, 1].map((i) => l.e.f(i)), [5, 6], "under " + hooks);
}
'''}
