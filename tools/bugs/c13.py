ID = "core-pure-size"
PROPERTY = "P19"
NEEDS = "a function whose only access to shared state is memory.size"
BREAKS = "reading the size of the memory is not seen as reading shared state"
CORE = True
SHIMS = ("clio",)
CARGO = 'wastrumentation-static-analysis = { path = "/repo/wastrumentation-static-analysis" }\nwasabi_wasm = { git = "https://github.com/aaronmunsters/wasabi.git", rev = "ee2fb70" }\nwat = "1"'
MAIN = r'''
fn main() {
    let wasm = wat::parse_str(std::env::args().nth(1).unwrap()).unwrap();
    let mut found: Vec<u32> = wastrumentation_static_analysis::immutable_functions_from_binary(&wasm).unwrap().into_iter().collect();
    found.sort();
    println!("{found:?}");
}
'''
EDITS = [("wastrumentation-static-analysis/src/lib.rs", "            | Instr::MemorySize(_)\n", ""), ("wastrumentation-static-analysis/src/lib.rs", "            | Instr::Binary(_) => continue,", "            | Instr::MemorySize(_)\n            | Instr::Binary(_) => continue,")]
DEMO = {"check.mjs": r'''
import { spawnSync } from "child_process";
import { same } from "./wasm.mjs";
const r = spawnSync(process.env.DEMO, ["(module (memory 1) (func (result i32) (block (result i32) (memory.size))) (func (result i32) (i32.const 1)) (func (result i32) (call 0)) (func (drop (memory.grow (i32.const 1)))))"], { encoding: "utf8" });
same(r.stdout.trim(), "[1]", "immutable functions");
'''}
