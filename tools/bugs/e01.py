ID = "pure-long-chain"
PROPERTY = "P19"
NEEDS = "a chain of more than 24 calls, each function calling the one after it"
BREAKS = "the search for immutable functions gives up after 24 rounds and leaves out functions far up a chain of calls"
CORE = True
SHIMS = ("clio",)
CARGO = 'wastrumentation-static-analysis = { path = "/repo/wastrumentation-static-analysis" }\nwasabi_wasm = { git = "https://github.com/aaronmunsters/wasabi.git", rev = "ee2fb70" }\nwat = "1"'
MAIN = r'''
fn main() {
    let n: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    let calls: String = (1..n).map(|i| format!("(func (call {i}))")).collect();
    let wasm = wat::parse_str(format!("(module {calls} (func))")).unwrap();
    println!("{}", wastrumentation_static_analysis::immutable_functions_from_binary(&wasm).unwrap().len());
}
'''
EDITS = [("wastrumentation-static-analysis/src/lib.rs", "if reiterate_no_more_findings() {", "if reiterate_no_more_findings() || iteration == 24 {")]
DEMO = {"check.mjs": r'''
import { spawnSync } from "child_process";
import { same } from "./wasm.mjs";
for (const n of [1, 10, 24, 26, 40, 100]) same(spawnSync(process.env.DEMO, [String(n)], { encoding: "utf8" }).stdout.trim(), String(n), "immutable functions in a chain of " + n);
'''}
