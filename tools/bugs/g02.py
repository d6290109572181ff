ID = "wasp-guest-bom"
PROPERTY = "P02"
NEEDS = "guest text that starts with a byte order mark"
BREAKS = "the mark is taken off the guest text"
DEPS = "wasp-compiler = { path = \"/repo/wasp-compiler\" }"
EDITS = [("wasp-compiler/src/ast/pest/mod.rs", """        .strip_suffix("<<<GUEST<<<")
        .unwrap()
""", """        .strip_suffix("<<<GUEST<<<")
        .unwrap()
        .trim_start_matches('\\u{feff}')
""")]
DEMO = {"main.rs": r'''
use wasp_compiler::ast::wasp::AdviceDefinition;
fn main() {
    let r = wasp_compiler::compile("(aspect (global >>>GUEST>>>\u{feff}let a = 1;<<<GUEST<<<))").unwrap();
    if r.wasp_root.0 != vec![AdviceDefinition::AdviceGlobal("\u{feff}let a = 1;".into())] {
        eprintln!("{:?}", r.wasp_root);
        std::process::exit(1)
    }
}
'''}
