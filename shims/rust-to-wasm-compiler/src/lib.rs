use std::fmt;
use std::path::Path;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum WasiSupport {
    Enabled,
    Disabled,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Profile {
    Release,
    Dev,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct CompilerSetupError(pub String);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct CompilationError(pub String);
impl fmt::Display for CompilerSetupError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl fmt::Display for CompilationError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for CompilerSetupError {}
impl std::error::Error for CompilationError {}

/// No compilation happens here.  With RTWC_DIR set, requests are kept as files there, one
/// per request, and answered by the bytes of RTWC_DIR/analysis or RTWC_DIR/library, or
/// refused with the text of RTWC_DIR/analysis.fault or library.fault; RTWC_DIR/setup.fault
/// refuses the set-up.
#[derive(Debug, Clone)]
pub struct RustToWasmCompiler;
impl RustToWasmCompiler {
    pub fn new() -> Result<Self, CompilerSetupError> {
        match said("setup.fault") {
            Some(why) => Err(CompilerSetupError(why)),
            None => Ok(Self),
        }
    }
    pub fn compile(
        &self,
        wasi: WasiSupport,
        manifest: &Path,
        profile: Profile,
    ) -> Result<Vec<u8>, CompilationError> {
        answer("analysis", &format!("analysis\n{wasi:?}\n{profile:?}\n{}", manifest.display()))
    }
    pub fn compile_source(
        &self,
        wasi: WasiSupport,
        manifest_source: &str,
        rust_source: &str,
        profile: Profile,
    ) -> Result<Vec<u8>, CompilationError> {
        answer("library", &format!("library\n{wasi:?}\n{profile:?}\n{manifest_source}\n----\n{rust_source}"))
    }
}
fn dir() -> Option<std::path::PathBuf> {
    std::env::var_os("RTWC_DIR").map(Into::into)
}
fn said(name: &str) -> Option<String> {
    std::fs::read_to_string(dir()?.join(name)).ok()
}
fn answer(kind: &str, request: &str) -> Result<Vec<u8>, CompilationError> {
    let Some(d) = dir() else {
        return Err(CompilationError("no wasm32 target offline".into()));
    };
    let n = (0..).find(|n| !d.join(format!("request-{n}")).exists()).unwrap();
    std::fs::write(d.join(format!("request-{n}")), request).expect("keep");
    match said(&format!("{kind}.fault")) {
        Some(why) => Err(CompilationError(why)),
        None => Ok(std::fs::read(d.join(kind)).expect("answer")),
    }
}
