ID = "wasp-guest-newline"
PROPERTY = "P02"
NEEDS = "guest code that begins with a line break in a call_indirect advice"
BREAKS = "the guest text loses its leading line break"
DEPS = "wasp-compiler = { path = \"/repo/wasp-compiler\" }"
EDITS = [("wasp-compiler/src/ast/wasp.rs", """            }) => Ok(TrapSignature::TrapCallIndirectPre(TrapCallIndirectPre {
                formal_table: formal_table.into(),
                formal_index: formal_index.into(),
                body,
            })),""", """            }) => Ok(TrapSignature::TrapCallIndirectPre(TrapCallIndirectPre {
                formal_table: formal_table.into(),
                formal_index: formal_index.into(),
                body: body.strip_prefix('\\n').map(String::from).unwrap_or(body),
            })),""")]
DEMO = {"main.rs": r'''
use wasp_compiler::ast::wasp::{AdviceDefinition::AdviceTrap, TrapSignature::TrapCallIndirectPre};
fn main() {
    let body = "\n\n  x\n";
    let p = format!("(aspect (advice call_indirect pre (t FunctionTable) (i FunctionTableIndex) >>>GUEST>>>{body}<<<GUEST<<<))");
    let r = wasp_compiler::compile(&p).unwrap().wasp_root.0;
    match &r[0] { AdviceTrap(TrapCallIndirectPre(t)) if t.body == body => {}, o => { eprintln!("{o:?}"); std::process::exit(1) } }
}
'''}
