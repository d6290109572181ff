pub mod error {
    use std::fmt;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct CompilerSetupError(pub String);
    impl fmt::Display for CompilerSetupError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl std::error::Error for CompilerSetupError {}
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct CompilationError(pub String);
    impl fmt::Display for CompilationError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl std::error::Error for CompilationError {}
}

pub mod options {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct CompilerOptions {
        pub source_code: String,
        pub optimization_strategy: OptimizationStrategy,
        pub enable_bulk_memory: bool,
        pub enable_sign_extension: bool,
        pub enable_nontrapping_f2i: bool,
        pub enable_export_memory: bool,
        pub enable_wasi_shim: bool,
        pub trap_on_abort: bool,
        pub flag_use: Option<String>,
        pub runtime: RuntimeStrategy,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum OptimizationStrategy {
        O1,
        O2,
        O3,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum RuntimeStrategy {
        Incremental,
        Minimal,
        Stub,
    }
    impl CompilerOptions {
        pub fn default_for(source_code: impl Into<String>) -> Self {
            Self {
                source_code: source_code.into(),
                optimization_strategy: OptimizationStrategy::O3,
                enable_bulk_memory: false,
                enable_sign_extension: false,
                enable_nontrapping_f2i: false,
                enable_export_memory: false,
                enable_wasi_shim: false,
                trap_on_abort: false,
                flag_use: None,
                runtime: RuntimeStrategy::Minimal,
            }
        }
    }
}

pub mod compiler {
    use crate::error::{CompilationError, CompilerSetupError};
    use crate::options::CompilerOptions;
    #[derive(Debug, Clone)]
    pub struct Compiler;
    impl Compiler {
        pub fn new() -> Result<Self, CompilerSetupError> {
            Ok(Self)
        }
        pub fn compile(&self, _options: &CompilerOptions) -> Result<Vec<u8>, CompilationError> {
            Err(CompilationError("no AssemblyScript compiler offline".into()))
        }
    }
}
