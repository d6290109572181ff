ID = "wasp-dup-roles"
PROPERTY = "P03"
NEEDS = "a specialised apply whose argument and result lists both have more than one parameter, the repeated name not first in the results"
BREAKS = "a parameter name used both as argument and as result is accepted when it is not the first result"
DEPS = "wasp-compiler = { path = \"/repo/wasp-compiler\" }"
EDITS = [("wasp-compiler/src/ast/wasp.rs", "for parameter in parameters_1.iter().chain(parameters_2.iter()) {", "for parameter in parameters_1.iter().chain(parameters_2.iter().take(1)) {")]
DEMO = {"main.rs": r'''
fn main() {
    let p = "(aspect (advice apply (f WasmFunction) ((a I32) (b I32)) ((c F64) (a I32)) >>>GUEST>>>x<<<GUEST<<<))";
    match wasp_compiler::compile(p) {
        Err(e) if e.to_string().contains(": a.") => {}
        other => { eprintln!("{other:?}"); std::process::exit(1) }
    }
}
'''}
