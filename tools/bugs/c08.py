ID = "core-buffer-leak"
PROPERTY = "P09"
NEEDS = "many intercepted calls of a function: every call leaves its type buffer behind"
BREAKS = "type buffers are not released for functions that return nothing, so long-running programs run out of memory and trap"
CORE = True
EDITS = [("wastrumentation/src/instrument/function_application.rs", """        instrumented_body.push(local_get_stack_types_ptr());
        instrumented_body.push(call_free_types_buffer);
        instrumented_body.push(End);""", """        if !stack_library_for_target.ret_load_n.is_empty() {
            instrumented_body.push(local_get_stack_types_ptr());
            instrumented_body.push(call_free_types_buffer);
        }
        instrumented_body.push(End);""")]
DEMO = {"check.mjs": r'''
import { instrument, link, outcome, same, check } from "./wasm.mjs";
const p = instrument(`(module (global $g (mut i32) (i32.const 0)) (func $g (param i32) (global.set $g (i32.add (global.get $g) (local.get 0))))
  (func (export "f") (param i32) (result i32) (local i32) (loop (call $g (i32.const 1)) (br_if 0 (i32.lt_u (local.tee 1 (i32.add (local.get 1) (i32.const 1))) (local.get 0)))) (global.get $g)))`, ["GenericApply"]);
let at = new Set();
const l = link(p, new Proxy({}, { get: (_, n) => (...a) => { if (a[1] === 0) at.add(a[4]); l.e.call_base(a[0], a[4]); } }));
same(outcome(() => l.e.f(1000)), 1000, "f");
check(at.size === 1, `buffers of ${at.size} calls made one after the other at different places`);
'''}
