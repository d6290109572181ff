ID = "wasp-letter-case"
PROPERTY = "P03"
NEEDS = "a specialised apply with a single-letter argument and the same letter in the other case as a result"
BREAKS = "the fast path for one-letter names does not tell cases apart: well-formed text is rejected"
DEPS = "wasp-compiler = { path = \"/repo/wasp-compiler\" }"
EDITS = [("wasp-compiler/src/ast/wasp.rs", """        for parameter in parameters_1.iter().chain(parameters_2.iter()) {
            if parameters.contains(parameter.identifier.as_str()) {
""", """        let mut letters = 0_u32;
        for parameter in parameters_1.iter().chain(parameters_2.iter()) {
            if let [letter] = parameter.identifier.as_bytes() {
                let bit = 1_u32 << (letter & 31);
                if letters & bit == 0 {
                    letters |= bit;
                    continue;
                }
                return Err(Error::DuplicateArgsRessParameter(
                    parameter.identifier.to_string(),
                ));
            }
            if parameters.contains(parameter.identifier.as_str()) {
""")]
DEMO = {"main.rs": r'''
fn main() {
    let p = "(aspect (advice apply (f WasmFunction) ((a I32) (b I64)) ((A I32)) >>>GUEST>>>x<<<GUEST<<<))";
    if let Err(e) = wasp_compiler::compile(p) { eprintln!("{e}"); std::process::exit(1) }
}
'''}
