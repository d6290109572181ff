//! The interfaces demanded from analyses, and the guest code generated for aspect programs.
use crate::hooks;
use crate::run::{panic_text, strings};
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wastrumentation::analysis::ProcessedAnalysis;
use wastrumentation_lang_assemblyscript::compile::AssemblyScript;
use wastrumentation_lang_assemblyscript::generate::analysis::WaspAnalysisSpec;
use wastrumentation_lang_rust::compile::options::RustSource;
use wastrumentation_lang_rust::compile::Rust;
use wastrumentation_lang_rust::generate::analysis::{Hook as RustHook, RustAnalysisSpec};
use wastrumentation_lang_webassembly::compile::options::WebAssemblySource;
use wastrumentation_lang_webassembly::compile::WebAssembly;
use wastrumentation_lang_webassembly::generate::analysis::WasmAnalysisSpec;

macro_rules! by_name {
    ($name:expr, $($h:ident)*) => { match $name { $(stringify!($h) => RustHook::$h,)* other => panic!("unknown hook {other}") } };
}
pub fn rust_hook(name: &str) -> RustHook {
    by_name!(name, GenericApply CallPre CallPost CallIndirectPre CallIndirectPost IfThen IfThenPost IfThenElse IfThenElsePost Branch BranchIf
        BranchTable Select Unary Binary Drop Return Const Local Global Store Load MemorySize MemoryGrow BlockPre BlockPost LoopPre LoopPost)
}

/// The interface each language demands for a set of hooks, in text form.
pub fn demanded(case: &J) -> J {
    let names = strings(&case["hooks"]);
    let wasm: ProcessedAnalysis<WebAssembly> = WasmAnalysisSpec {
        source: WebAssemblySource::Wat("(module)".into()),
        hooks: names.iter().map(|n| hooks::hook(n)).collect(),
    }
    .into();
    let rust: ProcessedAnalysis<Rust> = RustAnalysisSpec {
        source: RustSource::Manifest(wastrumentation_lang_rust::compile::options::WasiSupport::Disabled, "analysis/Cargo.toml".into()),
        hooks: names.iter().map(|n| rust_hook(n)).collect(),
    }
    .into();
    let kept = matches!(&wasm.analysis_library, WebAssemblySource::Wat(t) if t == "(module)")
        && matches!(&rust.analysis_library, RustSource::Manifest(wastrumentation_lang_rust::compile::options::WasiSupport::Disabled, p) if p == std::path::Path::new("analysis/Cargo.toml"));
    json!({"wasm": format!("{:?}", wasm.analysis_interface), "rust": format!("{:?}", rust.analysis_interface), "kept": kept,
           "all": RustHook::all_hooks().iter().map(|h| format!("{h:?}")).collect::<Vec<_>>()})
}

/// An aspect program as AssemblyScript, and the interface demanded for it.
pub fn case(case: &J) -> J {
    let spec = WaspAnalysisSpec { wasp_source: case["src"].as_str().unwrap().to_string() };
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<ProcessedAnalysis<AssemblyScript>, _> { (&spec).try_into() }));
    match r {
        Err(p) => json!({"status": "crashes", "why": panic_text(&p)}),
        Ok(Err(e)) => json!({"status": "refuses", "why": e.to_string()}),
        Ok(Ok(a)) => json!({"status": "ok", "text": a.analysis_library, "interface": format!("{:?}", a.analysis_interface)}),
    }
}
