//! The whole pipeline with compilers that record what they are asked and fail on demand,
//! and the stand-in merge tool keeping what it is given.
use crate::hooks;
use crate::iface::facts;
use crate::run::{panic_text, strings, targets};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use wastrumentation::analysis::ProcessedAnalysis;
use wastrumentation::compiler::*;
use wastrumentation::error::Error;
use wastrumentation::wasm_constructs::{RefType, Signature, WasmType};
use wastrumentation::{Configuration, PrimaryTarget, Wastrumenter};
use wastrumentation_lang_webassembly::compile::options::WebAssemblySource;
use wastrumentation_lang_webassembly::compile::WebAssembly;

#[derive(Default)]
struct Scene {
    log: Vec<J>,
    analysis_fault: String,
    library_fault: String,
    analysis: Vec<u8>,
    library: Vec<u8>,
    generated: Option<String>,
}
thread_local!(static SCENE: RefCell<Scene> = RefCell::new(Scene::default()));
fn scene<T>(f: impl FnOnce(&mut Scene) -> T) -> T {
    SCENE.with(|s| f(&mut s.borrow_mut()))
}

#[derive(Debug)]
struct Ana;
struct AnaOptions(String);
struct AnaCompiler;
impl SourceCodeBound for Ana {
    type DefaultCompilerOptions = AnaOptions;
    type SourceCode = String;
}
impl DefaultCompilerOptions<Ana> for AnaOptions {
    fn default_for(source: String) -> Self {
        Self(source)
    }
}
impl Compiles<Ana> for AnaCompiler {
    type CompilerOptions = AnaOptions;
    type CompilerSetupError = ();
    fn setup_compiler() -> Result<Self, ()> {
        Ok(Self)
    }
    fn compile(&self, options: &AnaOptions) -> CompilationResult<Ana> {
        scene(|s| {
            s.log.push(json!({"k": "analysis", "src": options.0}));
            if s.analysis_fault.is_empty() {
                Ok(s.analysis.clone())
            } else {
                Err(CompilationError::because(s.analysis_fault.clone()))
            }
        })
    }
}

#[derive(Debug)]
struct Lib;
struct LibOptions(String);
struct LibCompiler;
impl SourceCodeBound for Lib {
    type DefaultCompilerOptions = LibOptions;
    type SourceCode = String;
}
impl DefaultCompilerOptions<Lib> for LibOptions {
    fn default_for(source: String) -> Self {
        Self(source)
    }
}
fn ty(t: &WasmType) -> &'static str {
    match t {
        WasmType::I32 => "i32",
        WasmType::I64 => "i64",
        WasmType::F32 => "f32",
        WasmType::F64 => "f64",
        WasmType::Ref(RefType::FuncRef) => "funcref",
        WasmType::Ref(RefType::ExternRef) => "externref",
    }
}
fn side(ts: &[WasmType]) -> String {
    ts.iter().map(ty).collect::<Vec<_>>().join(" ")
}
impl LibGeneratable for Lib {
    fn generate_lib(signatures: &[Signature]) -> Library<Self> {
        let sigs: Vec<String> = signatures.iter().map(|s| format!("({})->({})", side(&s.argument_types), side(&s.return_types))).collect();
        let content = match <WebAssembly as LibGeneratable>::generate_lib(signatures).content {
            WebAssemblySource::Wat(t) => t,
            WebAssemblySource::Module(_) => panic!("not a text"),
        };
        scene(|s| {
            s.log.push(json!({"k": "generate", "sigs": sigs}));
            s.generated = Some(content.clone());
        });
        Library { content, language: std::marker::PhantomData }
    }
}
impl Compiles<Lib> for LibCompiler {
    type CompilerOptions = LibOptions;
    type CompilerSetupError = ();
    fn setup_compiler() -> Result<Self, ()> {
        Ok(Self)
    }
    fn compile(&self, options: &LibOptions) -> CompilationResult<Lib> {
        scene(|s| {
            s.log.push(json!({"k": "library", "same": s.generated.as_ref() == Some(&options.0)}));
            if s.library_fault.is_empty() {
                s.library = wat::parse_str(&options.0).unwrap_or_default();
                Ok(s.library.clone())
            } else {
                Err(CompilationError::because(s.library_fault.clone()))
            }
        })
    }
}

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn case(case: &J) -> J {
    let wasm = match wat::parse_str(case["wat"].as_str().unwrap()) {
        Ok(w) => w,
        Err(e) => return json!({"id": case["id"], "bad_wat": e.to_string()}),
    };
    let pipeline = Wastrumenter::<Lib, _, Ana, _>::new(Box::new(LibCompiler), Box::new(AnaCompiler));
    let mut runs = vec![];
    for (at, call) in case["uses"].as_array().unwrap().iter().enumerate() {
        let text = |k: &str| call[k].as_str().unwrap_or("").to_string();
        let dir = std::env::temp_dir().join(format!("pipeline-{}-{}-{at}", std::process::id(), case["id"]));
        fs::create_dir_all(&dir).unwrap();
        let nonce = format!("{}/{at}", case["id"]);
        scene(|s| {
            *s = Scene { analysis_fault: text("analysis_fault"), library_fault: text("library_fault"), analysis: format!("analysis {nonce}").into_bytes(), ..Scene::default() }
        });
        std::env::set_var("MERGETOOL_KEEP", &dir);
        std::env::set_var("MERGETOOL_OUT", format!("merged {nonce}"));
        match text("merge_fault") {
            f if f.is_empty() => std::env::remove_var("MERGETOOL_FAIL"),
            f => std::env::set_var("MERGETOOL_FAIL", f),
        }
        let input = if call["input"].is_string() { hex(call["input"].as_str().unwrap()) } else { wasm.clone() };
        let configuration = Configuration {
            target_indices: targets(&call["targets"]),
            primary_selection: match call["primary"].as_str().unwrap() {
                "target" => Some(PrimaryTarget::Target),
                "analysis" => Some(PrimaryTarget::Analysis),
                "library" => Some(PrimaryTarget::Instrumentation),
                _ => None,
            },
        };
        let analysis: ProcessedAnalysis<Ana> =
            ProcessedAnalysis { analysis_library: text("src"), analysis_interface: hooks::interface(&strings(&call["hooks"])) };
        let result = catch_unwind(AssertUnwindSafe(|| pipeline.wastrument(&input, analysis, &configuration)));
        std::env::remove_var("MERGETOOL_KEEP");
        let mut log = scene(|s| std::mem::take(&mut s.log));
        // what the merge tool was given, every time it was called
        for n in 0.. {
            let d = dir.join(n.to_string());
            if !d.is_dir() {
                break;
            }
            let lines = |f: &str| -> Vec<String> { fs::read_to_string(d.join(f)).unwrap_or_default().lines().map(String::from).collect() };
            let names = lines("names");
            let mut parts = vec![];
            let mut target = json!({});
            for i in 0..names.len() {
                let b = fs::read(d.join(format!("{i}.wasm"))).unwrap_or_default();
                parts.push(scene(|s| {
                    if b == s.analysis {
                        "analysis"
                    } else if b == s.library && !b.is_empty() {
                        "library"
                    } else {
                        target = facts(&b);
                        "target"
                    }
                }));
            }
            let library = scene(|s| if s.library.is_empty() { json!([]) } else { facts(&s.library)["exports"].clone() });
            log.push(json!({"k": "merge", "names": names, "opts": lines("opts"), "parts": parts, "target": target, "library": library}));
        }
        fs::remove_dir_all(&dir).unwrap();
        let result = match result {
            Err(p) => json!({"k": "panic", "text": panic_text(&p)}),
            Ok(Ok(m)) => json!({"k": "ok", "text": String::from_utf8_lossy(&m)}),
            Ok(Err(e)) => {
                let (k, text) = match e {
                    Error::CompilationErrorAnalysis(c) => ("analysis", c.reason().to_string()),
                    Error::CompilationErrorInstrumentation(c) => ("library", c.reason().to_string()),
                    Error::InstrumentationError(_) => ("instrument", String::new()),
                    Error::MergeError(wasm_merge::error::Error::MergeExecutionFailedReason(r)) => ("merge", r.trim_end().to_string()),
                    Error::MergeError(e) => ("merge", format!("{e}")),
                };
                json!({"k": k, "text": text})
            }
        };
        runs.push(json!({"log": log, "result": result}));
    }
    json!({"id": case["id"], "orig": facts(&wasm), "runs": runs})
}
