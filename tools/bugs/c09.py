ID = "core-tee-width"
PROPERTY = "P12"
NEEDS = "an i64 store of 32 bits under the store hook with an analysis that performs the store through the access function"
BREAKS = "the access function for 32-bit stores of i64 values writes only 16 bits"
CORE = True
EDITS = [("wastrumentation/src/instrument/memory.rs", '("instrumented_base_store_i64_32", I64Store32, ValType::I64),', '("instrumented_base_store_i64_32", I64Store16, ValType::I64),'), ("wastrumentation/src/instrument/memory.rs", "    use wasabi_wasm::StoreOp::{I64Store16, I64Store32, I64Store8}; // I64 Specialized", "    use wasabi_wasm::StoreOp::{I64Store16, I64Store8}; // I64 Specialized")]
DEMO = {"check.mjs": r'''
import { instrument, link, same } from "./wasm.mjs";
const p = instrument(`(module (memory (export "m") 1) (func (export "f") (param i64) (i64.store32 (i32.const 8) (local.get 0))))`, ["Store"]);
const l = link(p, new Proxy({}, { get: () => (ptr, value, offset) => { l.e.instrumented_base_store_i64_32(ptr, value, Number(offset)); } }));
l.e.f(0x1122334455667788n);
same([...new Uint8Array(l.e.m.buffer, 8, 8)], [0x88, 0x77, 0x66, 0x55, 0, 0, 0, 0], "memory");
'''}
