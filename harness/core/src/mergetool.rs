//! Stand-in for the external merge tool: delivers the module named
//! `instrumented_input` unchanged, or keeps every module it is given.
use std::env;
use std::fs;

fn main() {
    let argv: Vec<String> = env::args().skip(1).collect();
    let mut out = None;
    let mut pairs: Vec<(String, String)> = vec![];
    let mut opts: Vec<String> = vec![];
    let mut i = 0;
    let mut pending: Option<String> = None;
    while i < argv.len() {
        let a = &argv[i];
        if a == "-o" || a == "--output" {
            out = argv.get(i + 1).cloned();
            i += 2;
            continue;
        }
        if a.starts_with('-') {
            opts.push(a.clone());
        } else if let Some(path) = pending.take() {
            pairs.push((path, a.clone()));
        } else {
            pending = Some(a.clone());
        }
        i += 1;
    }
    let out = out.expect("no output");
    if let Ok(dir) = env::var("MERGETOOL_KEEP") {
        // one directory per invocation
        let n = (0..).find(|n| !std::path::Path::new(&format!("{dir}/{n}")).exists()).unwrap();
        let dir = format!("{dir}/{n}");
        fs::create_dir(&dir).expect("keep");
        let mut names = vec![];
        for (n, (path, name)) in pairs.iter().enumerate() {
            fs::copy(path, format!("{dir}/{n}.wasm")).expect("keep");
            names.push(name.clone());
        }
        fs::write(format!("{dir}/names"), names.join("\n")).expect("keep");
        fs::write(format!("{dir}/opts"), opts.join("\n")).expect("keep");
        if let Ok(fail) = env::var("MERGETOOL_FAIL") {
            eprintln!("{fail}");
            std::process::exit(1);
        }
        fs::write(out, env::var("MERGETOOL_OUT").unwrap_or_default()).expect("write");
        return;
    }
    let (path, _) = pairs.iter().find(|(_, n)| n == "instrumented_input").expect("no target module");
    fs::copy(path, out).expect("copy");
}
