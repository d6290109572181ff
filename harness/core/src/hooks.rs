use std::collections::HashSet;
use wastrumentation::analysis::AnalysisInterface;
use wastrumentation_lang_webassembly::generate::analysis::{interface_from, Hook};

pub const NAMES: [&str; 28] = [
    "GenericApply", "CallPre", "CallPost", "CallIndirectPre", "CallIndirectPost", "IfThen", "IfThenPost",
    "IfThenElse", "IfThenElsePost", "Branch", "BranchIf", "BranchTable", "Select", "Unary", "Binary", "Drop",
    "Return", "Const", "Local", "Global", "Store", "Load", "MemorySize", "MemoryGrow", "BlockPre", "BlockPost",
    "LoopPre", "LoopPost",
];

pub fn hook(name: &str) -> Hook {
    match name {
        "GenericApply" => Hook::GenericApply,
        "CallPre" => Hook::CallPre,
        "CallPost" => Hook::CallPost,
        "CallIndirectPre" => Hook::CallIndirectPre,
        "CallIndirectPost" => Hook::CallIndirectPost,
        "IfThen" => Hook::IfThen,
        "IfThenPost" => Hook::IfThenPost,
        "IfThenElse" => Hook::IfThenElse,
        "IfThenElsePost" => Hook::IfThenElsePost,
        "Branch" => Hook::Branch,
        "BranchIf" => Hook::BranchIf,
        "BranchTable" => Hook::BranchTable,
        "Select" => Hook::Select,
        "Unary" => Hook::Unary,
        "Binary" => Hook::Binary,
        "Drop" => Hook::Drop,
        "Return" => Hook::Return,
        "Const" => Hook::Const,
        "Local" => Hook::Local,
        "Global" => Hook::Global,
        "Store" => Hook::Store,
        "Load" => Hook::Load,
        "MemorySize" => Hook::MemorySize,
        "MemoryGrow" => Hook::MemoryGrow,
        "BlockPre" => Hook::BlockPre,
        "BlockPost" => Hook::BlockPost,
        "LoopPre" => Hook::LoopPre,
        "LoopPost" => Hook::LoopPost,
        other => panic!("unknown hook {other}"),
    }
}

pub fn interface(names: &[String]) -> AnalysisInterface {
    let hooks: HashSet<Hook> = names.iter().map(|n| hook(n)).collect();
    interface_from(&hooks)
}
