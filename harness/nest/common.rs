// Included by both nesting harnesses; they define `record`.
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wasabi_wasm::{Function, FunctionType, Idx, Instr, Label, Module, Val};

fn kind(i: &Instr) -> &'static str {
    match i {
        Instr::Block(_) => "block",
        Instr::Loop(_) => "loop",
        Instr::If(_) => "if",
        Instr::Else => "else",
        Instr::End => "end",
        _ => "plain",
    }
}

fn letter(k: &str) -> Vec<Instr> {
    let empty = FunctionType::empty();
    match k {
        "block" => vec![Instr::Block(empty)],
        "loop" => vec![Instr::Loop(empty)],
        "if" => vec![Instr::Const(Val::I32(1)), Instr::If(empty)],
        "else" => vec![Instr::Else],
        "end" => vec![Instr::End],
        "br" => vec![Instr::Br(Label::from(0u32))],
        "unreachable" => vec![Instr::Unreachable],
        _ => vec![Instr::Nop],
    }
}

fn text(i: &Instr) -> String {
    format!("{i:?}")
}

fn guarded(f: impl FnOnce() -> J) -> J {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(j) => j,
        Err(p) => json!({"st": "panic", "e": p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()}),
    }
}

fn refused(e: impl std::fmt::Debug) -> J {
    json!({"st": "refused", "e": format!("{e:?}")})
}

fn edit(body: &mut Vec<Instr>, edits: &J) {
    for e in edits.as_array().unwrap() {
        let at = e["at"].as_u64().unwrap() as usize % (body.len() + 1);
        match e["op"].as_str().unwrap() {
            "del" if at < body.len() => {
                body.remove(at);
            }
            "ins" => {
                for (n, i) in letter(e["k"].as_str().unwrap()).into_iter().enumerate() {
                    body.insert(at + n, i);
                }
            }
            "swap" if at + 1 < body.len() => body.swap(at, at + 1),
            "cut" => body.truncate(at),
            _ => {}
        }
    }
}

pub fn case(case: &J) -> J {
    let mut results = vec![];
    if let Some(wat) = case["wat"].as_str() {
        let wasm = match wat::parse_str(wat) {
            Ok(w) => w,
            Err(e) => return json!({"bad_wat": e.to_string()}),
        };
        let (module, ..) = Module::from_bytes(&wasm).unwrap();
        for (i, f) in module.functions() {
            let Some(code) = f.code() else { continue };
            results.push(record(&module, f, i.to_u32(), &code.body));
            for edits in case["edits"].as_array().unwrap() {
                let mut body = code.body.clone();
                edit(&mut body, edits);
                results.push(record(&module, f, i.to_u32(), &body));
            }
        }
    }
    if let Some(seqs) = case["seqs"].as_array() {
        let (module, ..) = Module::from_bytes(&wat::parse_str("(module (func))").unwrap()).unwrap();
        let f = module.function(Idx::from(0u32));
        for s in seqs {
            let body: Vec<Instr> = s.as_array().unwrap().iter().flat_map(|k| letter(k.as_str().unwrap())).collect();
            results.push(record(&module, f, 7, &body));
        }
    }
    // a body nested `deep` constructs deep
    if let Some(deep) = case["deep"].as_u64() {
        let (module, ..) = Module::from_bytes(&wat::parse_str("(module (func))").unwrap()).unwrap();
        let f = module.function(Idx::from(0u32));
        let ks = ["block", "loop", "if"];
        let mut body: Vec<Instr> = vec![];
        for d in 0..deep {
            body.extend(letter(ks[(d % 3) as usize]));
            body.push(Instr::Nop);
        }
        for d in (0..deep).rev() {
            if d % 6 == 2 {
                body.push(Instr::Else);
                body.push(Instr::Unreachable);
            }
            body.push(Instr::End);
        }
        body.push(Instr::End);
        results.push(record(&module, f, 3, &body));
    }
    J::Array(results)
}
