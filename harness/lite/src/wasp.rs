//! Runs the real WASP compiler on texts (one JSON string per input line) and
//! prints a canonical JSON record of what it answered (one per line).
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use wasp_compiler::ast::pest::CallQualifier;
use wasp_compiler::ast::wasp::*;
use wasp_compiler::{compile, CompilationResult, Error};

/// A text as a list of one-character strings; non-ASCII characters are named.
pub fn chars(s: &str) -> Value {
    Value::Array(
        s.chars()
            .map(|c| {
                if c.is_ascii() && (c as u32) >= 32 && (c as u32) != 127 || matches!(c, '\n' | '\r' | '\t') {
                    Value::String(c.to_string())
                } else {
                    Value::String(format!("u{:x}", c as u32))
                }
            })
            .collect(),
    )
}

fn ty(t: WasmType) -> Value {
    let name = match t {
        WasmType::I32 => "I32",
        WasmType::F32 => "F32",
        WasmType::I64 => "I64",
        WasmType::F64 => "F64",
    };
    let shown = t.to_string(); // a type is shown as it is written in guest code
    chars(if shown == name.to_lowercase() { name } else { &shown })
}

fn params(ps: &[WasmParameter]) -> Value {
    Value::Array(ps.iter().map(|p| json!([chars(&p.identifier), ty(p.get_type())])).collect())
}

fn entry(kind: &str, form: &str, names: &[&str], args: Value, ress: Value, body: &str) -> Value {
    json!({"kind": kind, "form": form,
           "names": names.iter().map(|n| chars(n)).collect::<Vec<_>>(),
           "args": args, "ress": ress, "body": chars(body)})
}

fn def(d: &AdviceDefinition) -> Value {
    let e = |k: &str, names: &[&str], body: &str| entry(k, "", names, json!([]), json!([]), body);
    match d {
        AdviceDefinition::AdviceGlobal(body) => e("global", &[], body),
        AdviceDefinition::AdviceTrap(t) => match t {
            TrapSignature::TrapApply(TrapApply { apply_hook_signature: ApplyHookSignature::Gen(g), body }) => entry(
                "apply_gen",
                match g.generic_means {
                    GenericTarget::HighLevel => "HighLevel",
                    GenericTarget::Dynamic => "Dynamic",
                    GenericTarget::MutableDynamic => "MutableDynamic",
                },
                &[&g.parameter_function, &g.parameter_arguments, &g.parameter_results],
                json!([]),
                json!([]),
                body,
            ),
            // In this code base the introspective form (no `Mut`) carries
            // mutable_signature = true and the intercepting one (`Mut`) false
            // (asserted by its own unit tests).
            TrapSignature::TrapApply(TrapApply { apply_hook_signature: ApplyHookSignature::Spe(s), body }) => entry(
                "apply_spe",
                if s.mutable_signature { "apply_intro" } else { "apply_inter" },
                &[&s.apply_parameter],
                params(&s.parameters_arguments),
                params(&s.parameters_results),
                body,
            ),
            TrapSignature::TrapCall(TrapCall { call_qualifier, formal_target, body }) => e(
                match call_qualifier {
                    CallQualifier::Pre => "call_pre",
                    CallQualifier::Post => "call_post",
                },
                &[&formal_target.0],
                body,
            ),
            TrapSignature::TrapBlockPre(t) => e("block_pre", &[], &t.body),
            TrapSignature::TrapBlockPost(t) => e("block_post", &[], &t.body),
            TrapSignature::TrapLoopPre(t) => e("loop_pre", &[], &t.body),
            TrapSignature::TrapLoopPost(t) => e("loop_post", &[], &t.body),
            TrapSignature::TrapSelect(t) => e("select", &[&t.select_formal_condition.0], &t.body),
            TrapSignature::TrapCallIndirectPre(t) => {
                e("call_indirect_pre", &[&t.formal_table.0, &t.formal_index.0], &t.body)
            }
            TrapSignature::TrapCallIndirectPost(t) => e("call_indirect_post", &[&t.formal_table.0], &t.body),
            TrapSignature::TrapIfThen(t) => e("if_then", &[&t.branch_formal_condition.0], &t.body),
            TrapSignature::TrapIfThenElse(t) => e("if_then_else", &[&t.branch_formal_condition.0], &t.body),
            TrapSignature::TrapBrIf(t) => {
                e("br_if", &[&t.branch_formal_condition.0, &t.branch_formal_label.0], &t.body)
            }
            TrapSignature::TrapBrTable(t) => {
                e("br_table", &[&t.branch_formal_target.0, &t.branch_formal_default.0], &t.body)
            }
        },
    }
}

/// The types listed after `field:` in the Debug form of a specialised join point.
fn listed(debug: &str, field: &str) -> Value {
    let start = debug.find(&format!("{field}: [")).map(|i| i + field.len() + 3);
    let list = start.and_then(|s| debug[s..].find(']').map(|e| &debug[s..s + e]));
    match list {
        None => Value::String("unreadable".into()),
        Some(l) => Value::Array(l.split(',').map(str::trim).filter(|t| !t.is_empty()).map(chars).collect()),
    }
}

fn answer(text: &str) -> Value {
    let none: Vec<Value> = vec![];
    let fail = |class: &str, names: Vec<&str>| {
        json!({"class": class, "names": names.into_iter().map(chars).collect::<Vec<_>>(),
               "defs": none, "flags": none, "specs": none,
               "generic": false, "cond": false, "call": false})
    };
    match compile(text) {
        Err(Error::PestError(_)) => fail("Syntax", vec![]),
        Err(Error::ConversionError(_)) => fail("Conversion", vec![]),
        Err(Error::IncorrectArgsRessType(a, r)) => fail("IncorrectArgsRessType", vec![&a, &r]),
        Err(Error::NonUniqueParameters(v)) => fail("NonUniqueParameters", v.iter().map(|s| s.as_str()).collect()),
        Err(Error::DuplicateArgsRessParameter(p)) => fail("DuplicateArgsRessParameter", vec![&p]),
        Err(Error::DuplicateParameter(p)) => fail("DuplicateParameter", vec![&p]),
        Err(Error::UnsupportedIdentifierType { unsupported, .. }) => {
            fail("UnsupportedIdentifierType", vec![&unsupported])
        }
        Ok(CompilationResult { wasp_root, join_points: j }) => {
            let flags: Vec<&str> = [
                (j.generic, "apply_gen"),
                (j.if_then, "if_then"),
                (j.if_then_else, "if_then_else"),
                (j.br_if, "br_if"),
                (j.br_table, "br_table"),
                (j.call_pre, "call_pre"),
                (j.call_post, "call_post"),
                (j.call_indirect_pre, "call_indirect_pre"),
                (j.call_indirect_post, "call_indirect_post"),
                (j.block_pre, "block_pre"),
                (j.block_post, "block_post"),
                (j.loop_pre, "loop_pre"),
                (j.loop_post, "loop_post"),
                (j.select, "select"),
            ]
            .into_iter()
            .filter_map(|(b, n)| b.then_some(n))
            .collect();
            let mut specs: Vec<Value> = j
                .specialized
                .iter()
                .map(|s| {
                    let d = format!("{s:?}");
                    json!([listed(&d, "argument_types"), listed(&d, "result_types")])
                })
                .collect();
            specs.sort_by_key(|v| v.to_string());
            json!({"class": "none", "names": none, "defs": wasp_root.0.iter().map(def).collect::<Vec<_>>(),
                   "flags": flags, "specs": specs,
                   "generic": wasp_root.instruments_generic_apply(),
                   "cond": wasp_root.instruments_if(),
                   "call": wasp_root.instruments_call()})
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let text: String = serde_json::from_str(&line).unwrap();
        let t = text.clone();
        let real = std::panic::catch_unwind(move || answer(&t)).unwrap_or_else(|_| {
            let none: Vec<Value> = vec![];
            json!({"class": "panic", "names": none, "defs": none, "flags": none, "specs": none,
                   "generic": false, "cond": false, "call": false})
        });
        writeln!(out, "{}", json!({"text": chars(&text), "real": real})).unwrap();
        out.flush().unwrap();
    }
}
