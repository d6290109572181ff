DEPS = "wasm-merge = { path = \"/repo/wasm-merge\" }"
ID = 'merge-warning-only'
PROPERTY = 'P07'
NEEDS = 'a tool that writes a diagnostic of white space only, or reports after writing its output'
BREAKS = 'a merge whose diagnostic is blank after trimming counts as success although the tool reported'
EDITS = [('wasm-merge/src/lib.rs', '        if !command_output.stderr.is_empty() {\n            let std_err_string = String::from_utf8_lossy(&command_output.stderr).to_string();\n            return Err', '        let std_err_string = String::from_utf8_lossy(&command_output.stderr).to_string();\n        if !std_err_string.lines().all(|line| line.starts_with("warning:")) {\n            return Err')]
DEMO = {'wasm-merge': '#!/bin/bash\n# stand-in for the merge tool: logs its arguments, runs the behaviour in $FAKE\nprintf "%s\\n" "$@" >> "$FAKE_LOG"\nout=""; prev=""\nfor a in "$@"; do [ "$prev" = "-o" ] && out=$a; prev=$a; done\neval "$FAKE"\n', 'main.rs': '\nuse wasm_merge::{InputModule, MergeOptions, error::Error};\n#[allow(dead_code)]\nfn run(fake: &str, primary: Option<(&str, &[u8])>, mods: &[(&str, &[u8])]) -> (Result<Vec<u8>, Error>, Vec<String>) {\n    std::env::set_var("FAKE", fake);\n    let log = std::env::current_dir().unwrap().join("../log");\n    std::env::set_var("FAKE_LOG", &log);\n    let _ = std::fs::remove_file(&log);\n    let im = |(n, b): &(&str, &\'static [u8])| InputModule { module: b, namespace: n.to_string() };\n    let own: Vec<(&str, &\'static [u8])> = mods.iter().map(|(n, b)| (*n, &*Box::leak(b.to_vec().into_boxed_slice()))).collect();\n    let o = MergeOptions { primary: primary.map(|(n, b)| InputModule { module: Box::leak(b.to_vec().into_boxed_slice()), namespace: n.to_string() }),\n        input_modules: own.iter().map(im).collect(), ..Default::default() };\n    let r = o.merge();\n    let l = std::fs::read_to_string(&log).unwrap_or_default();\n    (r, l.lines().map(String::from).collect())\n}\n#[allow(dead_code)]\nfn check(ok: bool, what: &str) { if !ok { eprintln!("{what}"); std::process::exit(1) } }\n\nfn main() {\n    let (r, _) = run("printf ok > $out; echo \'warning: unresolved import\' >&2", None, &[("env", b"1")]);\n    check(matches!(&r, Err(e) if e.to_string().contains("warning: unresolved import")), &format!("{r:?}"));\n}\n'}
