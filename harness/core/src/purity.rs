//! What the static analysis reports.
use crate::run::panic_text;
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wastrumentation_static_analysis::{immutable_functions, immutable_functions_from_binary};

pub fn case(case: &J) -> J {
    let wasm = match wat::parse_str(case["wat"].as_str().unwrap()) {
        Ok(w) => w,
        Err(e) => return json!({"bad_wat": e.to_string()}),
    };
    if let Err(e) = wasmparser::Validator::new().validate_all(&wasm) {
        return json!({"bad_wat": e.to_string()});
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        let (module, _, _) = wasabi_wasm::Module::from_bytes(&wasm).expect("module");
        (immutable_functions(&module), immutable_functions_from_binary(&wasm))
    }));
    match r {
        Err(p) => json!({"status": format!("crashes: {}", panic_text(&p)), "reported": []}),
        Ok((a, b)) => {
            let mut l: Vec<u32> = a.iter().copied().collect();
            l.sort();
            let status = match b {
                Some(b) if b == a => "ok",
                Some(_) => "answers differently for the module and its binary",
                None => "refuses a valid module",
            };
            json!({"status": status, "reported": l})
        }
    }
}
