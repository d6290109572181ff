//! The structure of modules before and after instrumentation.
pub use crate::facts::facts;
use crate::run::{instrument, strings, targets};
use serde_json::{json, Value as J};

pub fn case(case: &J) -> J {
    let wasm = match wat::parse_str(case["wat"].as_str().unwrap()) {
        Ok(w) => w,
        Err(e) => return json!({"id": case["id"], "bad_wat": e.to_string()}),
    };
    let mut runs = vec![];
    for config in case["configs"].as_array().unwrap() {
        let hook_names = strings(&config["hooks"]);
        runs.push(match instrument(&wasm, &hook_names, &targets(&config["targets"])) {
            Err(e) => json!({"refused": e}),
            Ok(p) => {
                let mut r = facts(&p.module);
                if let (true, Some(lib)) = (r["invalid"].is_null(), &p.library) {
                    let l = facts(lib);
                    r["library"] = if l["invalid"].is_null() { l["exports"].clone() } else { l };
                }
                r
            }
        });
    }
    json!({"id": case["id"], "orig": facts(&wasm), "runs": runs})
}
