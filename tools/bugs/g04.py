ID = "wasp-header-comment"
PROPERTY = "P05"
NEEDS = "a text that begins with a comment whose first character is '#'"
BREAKS = "the leading comment, skipped by hand, is closed by its own opening delimiter"
DEPS = "wasp-compiler = { path = \"/repo/wasp-compiler\" }"
EDITS = [("wasp-compiler/src/lib.rs", """    let mut pest_parse =
        WaspParser::parse(Rule::wasp_input, wasp).map_err(|e| Error::PestError(e.to_string()))?;
    let wasp_input""", """    // Leading comments (licences, mostly) need not go through the parser.
    let mut wasp = wasp.trim_start_matches([' ', '\\t', '\\r', '\\n']);
    while wasp.starts_with("#|") {
        let Some(end) = wasp[1..].find("|#") else {
            break;
        };
        wasp = wasp[1 + end + 2..].trim_start_matches([' ', '\\t', '\\r', '\\n']);
    }
    let mut pest_parse =
        WaspParser::parse(Rule::wasp_input, wasp).map_err(|e| Error::PestError(e.to_string()))?;
    let wasp_input""")]
DEMO = {"main.rs": r'''
fn main() {
    for p in ["#|# header |#(aspect)", "#| header |#(aspect)", "(aspect)"] {
        if let Err(e) = wasp_compiler::compile(p) { eprintln!("{e}"); std::process::exit(1) }
    }
}
'''}
