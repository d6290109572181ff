//! modules wasm OUT: lines {wat} to {hex, facts, sizes of the bodies};
//! modules facts FILE OUT: facts of the modules named in FILE, one line each.
#[path = "../../core/src/facts.rs"]
mod facts;
use serde_json::{json, Value as J};
use std::fs;
use std::io::Write;

fn sizes(wasm: &[u8]) -> Vec<usize> {
    let mut res = vec![];
    for p in wasmparser::Parser::new(0).parse_all(wasm) {
        match p.expect("module") {
            wasmparser::Payload::CodeSectionEntry(b) => res.push(b.get_operators_reader().expect("body").into_iter().count()),
            wasmparser::Payload::ImportSection(s) => {
                for i in s {
                    if matches!(i.expect("import").ty, wasmparser::TypeRef::Func(_)) {
                        res.push(0);
                    }
                }
            }
            _ => {}
        }
    }
    res
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let mut out = fs::File::create(&argv[3]).expect("output");
    for line in fs::read_to_string(&argv[2]).expect("input").lines().filter(|l| !l.is_empty()) {
        let r = if argv[1] == "facts" {
            facts::facts(&fs::read(line).expect("module"))
        } else {
            let c: J = serde_json::from_str(line).expect("json");
            match wat::parse_str(c["wat"].as_str().unwrap()) {
                Err(e) => json!({"bad_wat": e.to_string()}),
                Ok(w) => json!({"hex": w.iter().map(|b| format!("{b:02x}")).collect::<String>(), "facts": facts::facts(&w), "sizes": sizes(&w)}),
            }
        };
        writeln!(out, "{r}").unwrap();
    }
}
