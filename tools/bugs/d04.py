ID = "iface-rust-binary"
PROPERTY = "P21"
NEEDS = "the binary hook with a Rust analysis"
BREAKS = "a Rust analysis is asked for the single-precision trap twice and for no double-precision one"
CORE = True
SHIMS = ("rust-to-wasm-compiler", "asc-compiler-rs")
CARGO = 'wastrumentation = { path = "/repo/wastrumentation" }\nwastrumentation-lang-rust = { path = "/repo/supported-languages/rust" }\nwastrumentation-lang-webassembly = { path = "/repo/supported-languages/webassembly" }\nrust-to-wasm-compiler = { path = "shims/rust-to-wasm-compiler" }'
MAIN = r'''
use rust_to_wasm_compiler::WasiSupport;
use wastrumentation::analysis::ProcessedAnalysis;
use wastrumentation_lang_rust::{compile::{options::RustSource, Rust}, generate::analysis as r};
use wastrumentation_lang_webassembly::{compile::{options::WebAssemblySource, WebAssembly}, generate::analysis as w};
macro_rules! same { ($($h:ident)*) => { $(
    let a: ProcessedAnalysis<Rust> = r::RustAnalysisSpec { source: RustSource::Manifest(WasiSupport::Disabled, "x".into()), hooks: [r::Hook::$h].into_iter().collect() }.into();
    let b: ProcessedAnalysis<WebAssembly> = w::WasmAnalysisSpec { source: WebAssemblySource::Wat("(module)".into()), hooks: [w::Hook::$h].into_iter().collect() }.into();
    assert_eq!(a.analysis_interface, b.analysis_interface, stringify!($h));
)* } }
fn main() {
    same!(GenericApply CallPre CallPost CallIndirectPre CallIndirectPost IfThen IfThenPost IfThenElse IfThenElsePost Branch BranchIf BranchTable Select Unary Binary
        Drop Return Const Local Global Store Load MemorySize MemoryGrow BlockPre BlockPost LoopPre LoopPost);
}
'''
EDITS = [("supported-languages/rust/src/generate/analysis/mod.rs", """                interface.binary_f64_f64_to_f64 =
                    Some(AnalysisInterface::interface_binary_f64_f64_to_f64());""", """                interface.binary_f32_f32_to_f32 =
                    Some(AnalysisInterface::interface_binary_f32_f32_to_f32());""")]
DEMO = {"check.mjs": r'''
import { spawnSync } from "child_process";
import { check } from "./wasm.mjs";
const r = spawnSync(process.env.DEMO, [], { encoding: "utf8" });
check(r.status === 0, "interfaces differ: " + r.stderr.slice(0, 300));
'''}
