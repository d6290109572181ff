//! As harness/core's `nest`, for the untyped conversion, which is private to the crate.
include!("../common.rs");
#[allow(dead_code)]
mod untyped {
    #[path = "/repo/wastrumentation/src/parse_nesting/high_level_body.rs"]
    pub mod high_level_body;
    #[path = "/repo/wastrumentation/src/parse_nesting/typed_high_level_body_error.rs"]
    pub mod typed_high_level_body_error;
}
use std::io::Write;
use untyped::high_level_body as plain;

fn walk_plain(body: &plain::Body, out: &mut Vec<J>) {
    for n in &body.0 {
        match n {
            plain::Instr::Block(t, b) => {
                out.push(json!({"k": "block", "s": text(&Instr::Block(*t))}));
                walk_plain(b, out);
                out.push(json!({"k": "end"}));
            }
            plain::Instr::Loop(t, b) => {
                out.push(json!({"k": "loop", "s": text(&Instr::Loop(*t))}));
                walk_plain(b, out);
                out.push(json!({"k": "end"}));
            }
            plain::Instr::If(t, then, els) => {
                out.push(json!({"k": "if", "s": text(&Instr::If(*t))}));
                walk_plain(then, out);
                if let Some(els) = els {
                    out.push(json!({"k": "else"}));
                    walk_plain(els, out);
                }
                out.push(json!({"k": "end"}));
            }
            other => out.push(json!({"k": "plain", "s": format!("{other:?}")})),
        }
    }
}

fn record(_: &Module, _: &Function, index: u32, body: &[Instr]) -> J {
    let seq: Vec<J> = body.iter().map(|i| json!({"k": kind(i), "s": text(i), "t": ""})).collect();
    let got = guarded(|| match plain::Body::try_from(plain::LowLevelBody(body.to_vec())) {
        Err(e) => refused(e),
        Ok(b) => {
            let mut walk = vec![];
            walk_plain(&b, &mut walk);
            let plain::LowLevelBody(back) = b.into();
            json!({"st": "ok", "walk": walk, "back": back.iter().map(text).collect::<Vec<_>>()})
        }
    });
    json!({"seq": seq, "f": index, "typed": 0, "welltyped": 1, "got": got})
}

fn main() {
    std::thread::Builder::new().stack_size(256 << 20).spawn(work).unwrap().join().unwrap();
}

fn work() {
    let argv: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    let input = std::fs::read_to_string(&argv[2]).expect("input");
    let mut out = std::io::BufWriter::new(std::fs::File::create(&argv[3]).expect("output"));
    for line in input.lines().filter(|l| !l.is_empty()) {
        writeln!(out, "{}", case(&serde_json::from_str(line).expect("json"))).unwrap();
    }
}
