//! Converts flat bodies to nested form and back with the real code.
//! A nested body is recorded as the tokens of a walk over it.
include!("../../nest/common.rs");
use wasabi_wasm::types::TypeChecker;
use wasabi_wasm::Code;
use wastrumentation::parse_nesting::{HighLevelBody, HighLevelInstr, LowLevelBody, LowToHighError, TypedHighLevelInstr};

/// The checker's type of every instruction; None when the body is refused.
fn types(module: &Module, function: &Function, body: &[Instr]) -> Option<Vec<String>> {
    let mut checker = TypeChecker::begin_function(function, module);
    body.iter().map(|i| checker.check_next_instr(i).ok().map(|t| format!("{t:?}"))).collect()
}

fn walk_typed(body: &[TypedHighLevelInstr], out: &mut Vec<J>) {
    for n in body {
        let token = |k: &str, s: String| json!({"k": k, "s": s, "i": n.instr_index, "f": n.funct_index, "t": format!("{:?}", n.type_)});
        match &n.instr {
            HighLevelInstr::Block(t, b) => {
                out.push(token("block", text(&Instr::Block(*t))));
                walk_typed(b, out);
                out.push(json!({"k": "end"}));
            }
            HighLevelInstr::Loop(t, b) => {
                out.push(token("loop", text(&Instr::Loop(*t))));
                walk_typed(b, out);
                out.push(json!({"k": "end"}));
            }
            HighLevelInstr::If(t, then, els) => {
                out.push(token("if", text(&Instr::If(*t))));
                walk_typed(then, out);
                if let Some(els) = els {
                    out.push(json!({"k": "else"}));
                    walk_typed(els, out);
                }
                out.push(json!({"k": "end"}));
            }
            other => out.push(token("plain", format!("{other:?}"))),
        }
    }
}

fn record(module: &Module, function: &Function, index: u32, body: &[Instr]) -> J {
    let code = Code { locals: function.code().unwrap().locals.clone(), body: body.to_vec() };
    let types = types(module, function, body);
    let mut seq: Vec<J> = body.iter().map(|i| json!({"k": kind(i), "s": text(i), "t": ""})).collect();
    if let Some(ts) = &types {
        for (e, t) in seq.iter_mut().zip(ts) {
            e["t"] = json!(t);
        }
    }
    let got = guarded(|| {
        let r: Result<HighLevelBody, LowToHighError> = HighLevelBody::try_from((module, function, &code, &Idx::from(index)));
        match r {
            Err(e) => refused(e),
            Ok(b) => {
                let mut walk = vec![];
                walk_typed(&b.0, &mut walk);
                let LowLevelBody(back) = b.into();
                json!({"st": "ok", "walk": walk, "back": back.iter().map(text).collect::<Vec<_>>()})
            }
        }
    });
    json!({"seq": seq, "f": index, "typed": 1, "welltyped": if types.is_some() {1} else {0}, "got": got})
}
