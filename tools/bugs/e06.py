ID = "as-result-bounds"
PROPERTY = "P24"
NEEDS = "advice that reads the type of a result that does not exist, of a function with more arguments than results"
BREAKS = "asking for the type of a result beyond the last one answers with the type of an argument instead of trapping"
CORE = True
EDITS = [("supported-languages/assemblyscript/src/generate/analysis/std_analysis_lib_gen_apply.ts", """    getResType(index: i32): WasmType {
        this.checkBounds(this.resc, index);""", """    getResType(index: i32): WasmType {
        this.checkBounds(this.resc + this.argc, index);""")]
CARGO = 'wasp-compiler = { path = "/repo/wasp-compiler" }\nwastrumentation = { path = "/repo/wastrumentation" }\nwastrumentation-lang-assemblyscript = { path = "/repo/supported-languages/assemblyscript" }'
SHIMS = ("rust-to-wasm-compiler", "asc-compiler-rs")
MAIN = r'''
use wastrumentation::analysis::ProcessedAnalysis;
use wastrumentation_lang_assemblyscript::compile::AssemblyScript;
use wastrumentation_lang_assemblyscript::generate::analysis::WaspAnalysisSpec;
fn main() {
    let wasp_source = "(aspect (advice apply (func WasmFunction) (args MutDynArgs) (ress MutDynResults) >>>GUEST>>>(func.apply())<<<GUEST<<<))".to_string();
    let a: Result<ProcessedAnalysis<AssemblyScript>, _> = (&WaspAnalysisSpec { wasp_source }).try_into();
    println!("{}", a.unwrap_or_else(|_| panic!("not compiled")).analysis_library);
}
'''
DEMO = {"check.mjs": r'''
import { spawnSync } from "child_process";
import { createRequire } from "module";
import { same } from "./wasm.mjs";
const ts = createRequire(import.meta.url)("/opt/veriftools/node/node_modules/typescript");
let text = spawnSync(process.env.DEMO, { encoding: "utf8" }).stdout;
// AssemblyScript is TypeScript but for decorators of functions: those are for declarations, which leave no code
text = text.replace(/^\s*@(external|inline|unsafe).*$/gm, "");
text = text.replace("class MutDynArgsResults", "export class MutDynArgsResults");
const js = ts.transpileModule(text, { compilerOptions: { target: "ES2020", module: "CommonJS" } }).outputText;
const memory = [0, 2, 3]; // one result (i32), two arguments (i64, f64)
const load = (ptr, offset) => { if (offset < 0 || offset >= memory.length) throw new Error("outside of the buffer"); return memory[offset]; };
const exp = {};
new Function("exports", "wastrumentation_stack_load_type", "unreachable", js)(exp, load, () => { throw new Error("trap"); });
const values = new exp.MutDynArgsResults(2, 1, 0, 0);
const ask = (f) => { try { return f(); } catch (e) { return e.message; } };
same(ask(() => values.getArgType(1)), 3, "type of argument 1");
same(ask(() => values.getResType(0)), 0, "type of result 0");
same(ask(() => values.getArgType(2)), "trap", "type of argument 2");
same(ask(() => values.getResType(1)), "trap", "type of result 1");
same(ask(() => values.getResType(2)), "trap", "type of result 2");
same(ask(() => values.getResType(-1)), "trap", "type of result -1");
'''}
