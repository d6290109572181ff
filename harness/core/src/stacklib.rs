//! The generated buffer libraries: their texts, and histories of calls into them.
use crate::run::{bytes, panic_text, val};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use wasmtime::*;
use wastrumentation::compiler::LibGeneratable;
use wastrumentation::wasm_constructs::{Signature, SignatureSide, WasmType};
use wastrumentation_lang_assemblyscript::compile::AssemblyScript;
use wastrumentation_lang_rust::compile::options::{ManifestSource, RustSource, RustSourceCode};
use wastrumentation_lang_rust::compile::Rust;
use wastrumentation_lang_webassembly::compile::options::WebAssemblySource;
use wastrumentation_lang_webassembly::compile::WebAssembly;

fn types(j: &J) -> Vec<WasmType> {
    j.as_array()
        .unwrap()
        .iter()
        .map(|t| match t.as_str().unwrap() {
            "i32" => WasmType::I32,
            "i64" => WasmType::I64,
            "f32" => WasmType::F32,
            "f64" => WasmType::F64,
            t => panic!("type {t}"),
        })
        .collect()
}

pub fn generate(case: &J) -> J {
    let sigs: Vec<Signature> = case["sigs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| Signature { return_types: types(&s["r"]), argument_types: types(&s["a"]) })
        .collect();
    let names: Vec<J> = sigs
        .iter()
        .map(|s| {
            let side = |side: SignatureSide, n: usize, load: bool| -> Vec<String> {
                (0..n).map(|i| if load { s.generate_load_name(side, i) } else { s.generate_store_name(side, i) }).collect()
            };
            let (r, a) = (s.return_types.len(), s.argument_types.len());
            json!({
                "alloc": s.generate_allocate_values_buffer_name(), "talloc": s.generate_allocate_types_buffer_name(),
                "free": s.generate_free_values_buffer_name(), "tfree": s.generate_free_types_buffer_name(),
                "rets": s.generate_store_rets_name(),
                "lret": side(SignatureSide::Return, r, true), "sret": side(SignatureSide::Return, r, false),
                "larg": side(SignatureSide::Argument, a, true), "sarg": side(SignatureSide::Argument, a, false),
            })
        })
        .collect();
    let r = catch_unwind(AssertUnwindSafe(|| match case["lang"].as_str().unwrap() {
        "wat" => match <WebAssembly as LibGeneratable>::generate_lib(&sigs).content {
            WebAssemblySource::Wat(t) => json!({"text": t}),
            #[allow(unreachable_patterns)]
            _ => json!({"error": "not a text"}),
        },
        "rust" => match <Rust as LibGeneratable>::generate_lib(&sigs).content {
            RustSource::SourceCode(_, ManifestSource(m), RustSourceCode(t)) => json!({"text": t, "manifest": m}),
            _ => json!({"error": "not a text"}),
        },
        "as" => json!({"text": <AssemblyScript as LibGeneratable>::generate_lib(&sigs).content}),
        l => panic!("language {l}"),
    }));
    let mut r = r.unwrap_or_else(|p| json!({"error": panic_text(&p)}));
    r["names"] = json!(names);
    r
}

struct Lib {
    store: Store<()>,
    instance: Instance,
    memory: Option<Memory>,
    cache: HashMap<String, Func>,
}

impl Lib {
    /// Calls an export; arguments are given as bytes and read with the types the export has.
    fn call(&mut self, name: &str, args: &[J]) -> std::result::Result<Vec<Val>, String> {
        let f = match self.cache.get(name) {
            Some(f) => *f,
            None => {
                let f = self.instance.get_func(&mut self.store, name).ok_or(format!("no export {name}"))?;
                self.cache.insert(name.into(), f);
                f
            }
        };
        let ty = f.ty(&self.store);
        if ty.params().len() != args.len() {
            return Err(format!("{name} takes {} arguments, not {}", ty.params().len(), args.len()));
        }
        let mut vals = vec![];
        for (t, a) in ty.params().zip(args) {
            let width = if matches!(t, ValType::I32 | ValType::F32) { 4 } else { 8 };
            if a.as_array().unwrap().len() != width {
                return Err(format!("{name} takes other types"));
            }
            vals.push(val(&t, a));
        }
        let mut out = vec![Val::I32(0); ty.results().len()];
        f.call(&mut self.store, &vals, &mut out).map_err(|e| format!("{name} traps: {e:#}").lines().next().unwrap().to_string())?;
        Ok(out)
    }
    fn pages(&self) -> u64 {
        self.memory.map_or(0, |m| m.size(&self.store))
    }
}

fn w(x: i32) -> J {
    json!(x.to_le_bytes())
}
fn int(v: &[Val]) -> std::result::Result<i32, String> {
    match v {
        [Val::I32(x)] => Ok(*x),
        _ => Err("an address or type is not an i32".into()),
    }
}
fn one(v: Vec<Val>) -> std::result::Result<J, String> {
    match v.as_slice() {
        [x] => Ok(json!([x_type(x), bytes(x)])),
        _ => Err("a load does not give one value".into()),
    }
}
fn x_type(v: &Val) -> &'static str {
    match v {
        Val::I32(_) => "i32",
        Val::I64(_) => "i64",
        Val::F32(_) => "f32",
        Val::F64(_) => "f64",
        _ => "other",
    }
}

fn step(lib: &mut Lib, names: &[J], live: &mut Vec<i32>, e: &J) -> std::result::Result<J, String> {
    let name = |k: &str, key: &str| names[e[k].as_u64().unwrap() as usize - 1][key].as_str().unwrap().to_string();
    let slot = |k: &str, key: &str| names[e[k].as_u64().unwrap() as usize - 1][key][e["i"].as_u64().unwrap() as usize].as_str().unwrap().to_string();
    let at = |live: &Vec<i32>| live[e["b"].as_u64().unwrap() as usize - 1];
    let n = |k: &str| e[k].as_u64().unwrap() as i32;
    let list = |k: &str| e[k].as_array().unwrap().clone();
    match e["op"].as_str().unwrap() {
        "alloc" => {
            let p = int(&lib.call(&name("s", "alloc"), &list("v"))?)?;
            live.push(p);
        }
        "talloc" => {
            let p = int(&lib.call(&name("s", "talloc"), &[])?)?;
            live.push(p);
        }
        "free" | "tfree" => {
            let p = live.pop().unwrap();
            lib.call(&name("s", e["op"].as_str().unwrap()), &[w(p)])?;
        }
        "store" => {
            lib.call(&slot("s", if e["side"] == "arg" { "sarg" } else { "sret" }), &[w(at(live)), e["v"].clone()])?;
        }
        "load" => return one(lib.call(&slot("s", if e["side"] == "arg" { "larg" } else { "lret" }), &[w(at(live))])?),
        "rets" => {
            let mut args = vec![w(at(live))];
            args.extend(list("v"));
            lib.call(&name("s", "rets"), &args)?;
        }
        "gstore" => {
            let f = format!("wastrumentation_stack_store_{}", e["t"].as_str().unwrap());
            lib.call(&f, &[w(at(live)), e["v"].clone(), w(n("i"))])?;
        }
        "gload" => {
            let f = format!("wastrumentation_stack_load_{}", e["t"].as_str().unwrap());
            return one(lib.call(&f, &[w(at(live)), w(n("i"))])?);
        }
        "type" => return Ok(json!(int(&lib.call("wastrumentation_stack_load_type", &[w(at(live)), w(n("i"))])?)?)),
        // many short-lived calls
        "churn" => {
            let names: Vec<String> = ["alloc", "talloc", "tfree", "free"].iter().map(|k| name("s", k)).collect();
            let args = list("v");
            for _ in 0..n("n") {
                let p = int(&lib.call(&names[0], &args)?)?;
                let q = int(&lib.call(&names[1], &[])?)?;
                lib.call(&names[2], &[w(q)])?;
                lib.call(&names[3], &[w(p)])?;
            }
        }
        op => panic!("operation {op}"),
    }
    Ok(J::Null)
}

pub fn histories(engine: &Engine, case: &J) -> J {
    let wasm = match case["wasm"].as_str() {
        Some(p) => std::fs::read(p).expect("module"),
        None => match wat::parse_str(case["text"].as_str().unwrap()) {
            Ok(m) => m,
            Err(e) => return json!({"error": format!("the library is not valid: {e}")}),
        },
    };
    let module = match Module::new(engine, &wasm) {
        Ok(m) => m,
        Err(e) => return json!({"error": format!("the library is not valid: {e:#}")}),
    };
    let names = case["names"].as_array().unwrap();
    let mut logs = vec![];
    for ops in case["runs"].as_array().unwrap() {
        let mut store = Store::new(engine, ());
        store.set_fuel(u64::MAX / 4).unwrap();
        let instance = match Instance::new(&mut store, &module, &[]) {
            Ok(i) => i,
            Err(e) => return json!({"error": format!("the library cannot be instantiated: {e:#}")}),
        };
        let memory = ["vp_memory", "memory"].iter().find_map(|n| instance.get_memory(&mut store, n));
        let mut lib = Lib { store, instance, memory, cache: HashMap::new() };
        let pages = lib.pages();
        let mut log = vec![];
        let mut live = vec![];
        for e in ops.as_array().unwrap() {
            let mut e = e.clone();
            let r = step(&mut lib, names, &mut live, &e);
            match r {
                Ok(r) => {
                    if !r.is_null() {
                        e["r"] = r;
                    }
                    e["pages"] = json!(lib.pages());
                    log.push(e);
                }
                Err(x) => {
                    e["error"] = json!(x);
                    log.push(e);
                    break;
                }
            }
        }
        logs.push(json!({"log": log, "pages": pages}));
    }
    json!({"logs": logs})
}
