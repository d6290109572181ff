//! Performs merges with the real wasm-merge crate as a plan says and logs calls and returns.
#[path = "shared.rs"]
mod shared;
use serde_json::{json, Value};
use std::sync::Arc;
use wasm_merge::{options::*, InputModule, MergeOptions};

macro_rules! set {
    ($mo:ident, $on:ident, $($field:ident: $ty:ident),*) => {
        $( if $on.iter().any(|o| o == stringify!($field)) { $mo.$field = $ty::Enable; } )*
    };
}

fn content(v: &Value) -> Vec<u8> {
    if let Some(h) = v["hex"].as_str() {
        return (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    }
    shared::fill(v["seed"].as_u64().unwrap_or(0), v["size"].as_u64().unwrap_or(0) as usize)
}

fn one(dir: &str, m: &Value, plan: &Value) {
    let mods: Vec<(String, Vec<u8>)> = m["modules"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| (x["name"].as_str().unwrap().to_string(), content(&x["content"])))
        .collect();
    let on: Vec<String> = m["opts"].as_array().unwrap().iter().map(|o| o.as_str().unwrap().to_string()).collect();
    let base = shared::id(mods.iter().map(|(n, c)| (&n[..], &c[..])));
    let id = shared::claim(dir, &base, "c");
    shared::log(dir, &json!({"ev": "call", "p": id, "names": mods.iter().map(|(n, _)| n).collect::<Vec<_>>(),
        "inputs": mods.iter().map(|(_, c)| shared::hash(c)).collect::<Vec<_>>(),
        "opts": on, "fault": m["fault"].as_str().unwrap_or("none")}).to_string());
    let res = std::panic::catch_unwind(|| {
        let _limits = Limits::new(plan);
        let mut all = mods.iter().map(|(n, c)| InputModule { module: c, namespace: n.clone() });
        let primary = if m["primary"].as_bool().unwrap_or(false) { all.next() } else { None };
        let mut mo = MergeOptions { primary, input_modules: all.collect(), ..Default::default() };
        set!(mo, on, no_validation: NoValidate, rename_export_conflicts: RenameExportConflicts,
            bulk_memory: BulkMemory, bulk_memory_opt: BulkMemoryOpt, call_indirect_overlong: CallIndirectOverlong,
            extended_const: ExtendedConst, exception_handling: ExceptionHandling, fp16: Fp16, gc: Gc,
            memory64: Memory64, multimemory: Multimemory, multivalue: Multivalue, mutable_globals: MutableGlobals,
            nontrapping_float_to_int: NontrappingFloatToInt, reference_types: ReferenceTypes,
            relaxed_simd: RelaxedSimd, shared_everything: SharedEverything, sign_ext: SignExt, simd: Simd,
            strings: Strings, tail_call: TailCall, threads: Threads, typed_continuations: TypedContinuations);
        mo.merge().map_err(|e| e.to_string())
    });
    // files of this merge that the tool was told about and that still exist
    let paths: Vec<String> = std::fs::read_to_string(format!("{dir}/{id}.paths"))
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or_default();
    // (of requests made several times at once it is not known which of them this is)
    let paths = if m["twin"].as_bool().unwrap_or(false) { vec![] } else { paths };
    let left = paths.iter().filter(|p| std::path::Path::new(p).exists()).count();
    let script: Value = std::fs::read_to_string(format!("{dir}/{id}.json"))
        .or_else(|_| std::fs::read_to_string(format!("{dir}/{base}.json")))
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(json!({}));
    let diag = match script["stderr"].as_str() {
        Some(s) => s.to_string(),
        None => String::from_utf8_lossy(&shared::fill(
            script["seed"].as_u64().unwrap_or(0) + 1,
            script["stderr_size"].as_u64().unwrap_or(0) as usize,
        ))
        .to_string(),
    };
    let ev = match res {
        Err(_) => json!({"ev": "return", "p": id, "kind": "panic", "bytes": "", "left": left, "carries": false, "text": ""}),
        Ok(Ok(b)) => json!({"ev": "return", "p": id, "kind": "ok", "bytes": shared::hash(&b), "left": left, "carries": false, "text": ""}),
        Ok(Err(e)) => json!({"ev": "return", "p": id, "kind": "error", "bytes": "", "left": left,
            "carries": e.contains(&diag), "text": e.chars().take(200).collect::<String>()}),
    };
    shared::log(dir, &ev.to_string());
}

/// Resource limits that hold while a merge runs (soft limits, put back afterwards).
struct Limits(Vec<(i32, [u64; 2])>);

impl Limits {
    fn new(plan: &Value) -> Self {
        let mut was = vec![];
        for (key, res) in [("nofile", 7), ("fsize", 1)] {
            if let Some(n) = plan[key].as_u64() {
                let mut old = [0u64; 2];
                unsafe {
                    signal(25, 1); // ignore SIGXFSZ: writes fail instead
                    getrlimit(res, &mut old);
                    setrlimit(res, &[n, old[1]]);
                }
                was.push((res, old));
            }
        }
        Self(was)
    }
}

impl Drop for Limits {
    fn drop(&mut self) {
        for (res, old) in &self.0 {
            unsafe { setrlimit(*res, old) };
        }
    }
}

extern "C" {
    fn getrlimit(resource: i32, rlim: *mut [u64; 2]) -> i32;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let dir = std::env::var("FAKE_DIR").unwrap();
    let plan: Value = serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap()).unwrap();
    let dir = Arc::new(dir);
    let hs: Vec<_> = plan["threads"]
        .as_array()
        .unwrap()
        .iter()
        .cloned()
        .map(|t| {
            let dir = dir.clone();
            let plan = plan.clone();
            std::thread::spawn(move || {
                for m in t.as_array().unwrap() {
                    one(&dir, m, &plan);
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
}
