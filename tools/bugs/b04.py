ID = "wasp-comment-cr"
PROPERTY = "P05"
NEEDS = "a carriage return that no line feed follows, between two tokens"
BREAKS = "a lone carriage return no longer counts as white space"
DEPS = "wasp-compiler = { path = \"/repo/wasp-compiler\" }"
EDITS = [("wasp-compiler/wasp.pest", 'WHITESPACE = _{ " " | "\\r" | "\\n" | "\\t" }', 'WHITESPACE = _{ " " | "\\r\\n" | "\\n" | "\\t" }')]
DEMO = {"main.rs": r'''
fn main() {
    let a = wasp_compiler::compile("(aspect (global >>>GUEST>>>x<<<GUEST<<<))").unwrap();
    match wasp_compiler::compile("(aspect\r(global\r>>>GUEST>>>x<<<GUEST<<<\r)\r)") {
        Ok(b) if a == b => {}
        o => { eprintln!("{o:?}"); std::process::exit(1) }
    }
}
'''}
