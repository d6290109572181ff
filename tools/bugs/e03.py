ID = "wasp-guest-crlf"
PROPERTY = "P02"
NEEDS = "a global advice whose text has carriage returns before line breaks"
BREAKS = "line endings of a global advice are rewritten"
DEPS = "wasp-compiler = { path = \"/repo/wasp-compiler\" }"
EDITS = [("wasp-compiler/src/ast/wasp.rs", "Ok(AdviceDefinition::AdviceGlobal(definition))", "Ok(AdviceDefinition::AdviceGlobal(\n                    definition.replace(\"\\r\\n\", \"\\n\"),\n                ))")]
DEMO = {"main.rs": r'''
use wasp_compiler::ast::wasp::AdviceDefinition::AdviceGlobal;
fn main() {
    for body in ["a\nb", "a\r\nb\r", "\r\n"] {
        let p = format!("(aspect (global >>>GUEST>>>{body}<<<GUEST<<<))");
        match &wasp_compiler::compile(&p).unwrap().wasp_root.0[0] { AdviceGlobal(t) if t == body => {}, o => { eprintln!("{o:?}"); std::process::exit(1) } }
    }
}
'''}
