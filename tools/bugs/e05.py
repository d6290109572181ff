ID = "core-same-shape"
PROPERTY = "P14"
NEEDS = "two intercepted functions with equally many arguments and results of different types"
BREAKS = "functions with the same numbers of arguments and results share the buffer functions of the first"
CORE = True
EDITS = [("wastrumentation/src/stack_library.rs", """                let function_type = module.function(*index).type_;
                if acc.contains_key(&function_type) {
                    return acc;
                }""", """                let function_type = module.function(*index).type_;
                if acc.contains_key(&function_type) {
                    return acc;
                }
                // the types buffer depends on the numbers of values only
                let alike = acc
                    .iter()
                    .find(|(known, _): &(&FunctionType, &ModuleLinkedStackHooks)| {
                        known.inputs().len() == function_type.inputs().len()
                            && known.results().len() == function_type.results().len()
                    })
                    .map(|(_, hooks)| (hooks.allocate_types_buffer, hooks.free_types_buffer));"""),
  ("wastrumentation/src/stack_library.rs", """                let stack_library =
                    ModuleLinkedStackHooks::from_function_type_module(function_type, module);
""", """                let mut stack_library =
                    ModuleLinkedStackHooks::from_function_type_module(function_type, module);
                if let Some((allocate, free)) = alike {
                    stack_library.allocate_types_buffer = allocate;
                    stack_library.free_types_buffer = free;
                }
""")]
DEMO = {"check.mjs": r'''
import { instrument, link, same } from "./wasm.mjs";
const ts = ["i32", "f32", "i64", "f64"];
const p = instrument("(module " + ts.map((t) => `(func $${t} (param ${t})) (func (export "${t}") (call $${t} (${t}.const 0)))`).join(" ") + ")", ["GenericApply"], [0, 2, 4, 6]);
let seen;
const l = link(p, new Proxy({}, { get: () => (...a) => { seen = l.lib.wastrumentation_stack_load_type(a[5], 0); l.e.call_base(a[0], a[4]); } }));
ts.forEach((t, i) => { l.e[t](); same(seen, i, "type of the argument of " + t); });
'''}
