// demo PROGRAM.wat HOOKS TARGETS OUT: instruments a program; OUT.wasm is the instrumented module, OUT.lib.wasm the buffer library
use std::cell::RefCell;
use std::rc::Rc;
use wastrumentation::analysis::ProcessedAnalysis;
use wastrumentation::compiler::{CompilationResult, Compiles};
use wastrumentation::{Configuration, Wastrumenter};
use wastrumentation_lang_webassembly::compile::compiler::Compiler;
use wastrumentation_lang_webassembly::compile::options::{CompilerOptions, WebAssemblySource};
use wastrumentation_lang_webassembly::compile::WebAssembly;
use wastrumentation_lang_webassembly::generate::analysis::{Hook, WasmAnalysisSpec};

struct Capture(Rc<RefCell<Option<Vec<u8>>>>);
impl Compiles<WebAssembly> for Capture {
    type CompilerOptions = CompilerOptions;
    type CompilerSetupError = ();
    fn setup_compiler() -> Result<Self, ()> {
        Ok(Capture(Rc::new(RefCell::new(None))))
    }
    fn compile(&self, options: &CompilerOptions) -> CompilationResult<WebAssembly> {
        let module = Compiler::setup_compiler().unwrap().compile(options)?;
        *self.0.borrow_mut() = Some(module.clone());
        Ok(module)
    }
}
macro_rules! hooks {
    ($name:expr, $($h:ident)*) => { match $name { $(stringify!($h) => Hook::$h,)* other => panic!("no hook {other}") } };
}
fn hook(name: &str) -> Hook {
    hooks!(name, GenericApply CallPre CallPost CallIndirectPre CallIndirectPost IfThen IfThenPost IfThenElse IfThenElsePost Branch BranchIf BranchTable
        Select Unary Binary Drop Return Const Local Global Store Load MemorySize MemoryGrow BlockPre BlockPost LoopPre LoopPost)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let wasm = wat::parse_file(&a[1]).expect("program");
    let analysis: ProcessedAnalysis<WebAssembly> =
        WasmAnalysisSpec { source: WebAssemblySource::Wat("(module)".into()), hooks: a[2].split(',').filter(|h| !h.is_empty()).map(hook).collect() }.into();
    let target_indices = if a[3] == "all" { None } else { Some(a[3].split(',').filter(|t| !t.is_empty()).map(|t| t.parse().unwrap()).collect()) };
    let lib = Rc::new(RefCell::new(None));
    let out = Wastrumenter::<WebAssembly, _, WebAssembly, _>::new(Box::new(Capture(lib.clone())), Box::new(Compiler::setup_compiler().unwrap()))
        .wastrument(&wasm, analysis, &Configuration { target_indices, primary_selection: None })
        .unwrap_or_else(|_| panic!("not instrumented"));
    std::fs::write(format!("{}.wasm", a[4]), out).unwrap();
    if let Some(l) = lib.borrow_mut().take() {
        std::fs::write(format!("{}.lib.wasm", a[4]), l).unwrap();
    }
    std::fs::write(format!("{}.orig.wasm", a[4]), wasm).unwrap();
}
