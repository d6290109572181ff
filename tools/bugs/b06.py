DEPS = "wasm-merge = { path = \"/repo/wasm-merge\" }"
ID = 'merge-same-namespace'
PROPERTY = 'P06'
NEEDS = 'two modules with the same name in one request'
BREAKS = 'only the first of the modules that share a name is handed to the tool'
EDITS = [('wasm-merge/src/lib.rs', '            .chain(input_modules.iter().collect::<Vec<&InputModule>>().iter())\n', '            .chain(input_modules.iter().collect::<Vec<&InputModule>>().iter())\n            .filter(|im| {\n                let first = input_modules.iter().position(|o| o.namespace == im.namespace);\n                first.map_or(true, |i| std::ptr::eq(&input_modules[i], **im)) || primary.is_some()\n            })\n')]
DEMO = {'wasm-merge': '#!/bin/bash\n# stand-in for the merge tool: logs its arguments, runs the behaviour in $FAKE\nprintf "%s\\n" "$@" >> "$FAKE_LOG"\nout=""; prev=""\nfor a in "$@"; do [ "$prev" = "-o" ] && out=$a; prev=$a; done\neval "$FAKE"\n', 'main.rs': '\nuse wasm_merge::{InputModule, MergeOptions, error::Error};\n#[allow(dead_code)]\nfn run(fake: &str, primary: Option<(&str, &[u8])>, mods: &[(&str, &[u8])]) -> (Result<Vec<u8>, Error>, Vec<String>) {\n    std::env::set_var("FAKE", fake);\n    let log = std::env::current_dir().unwrap().join("../log");\n    std::env::set_var("FAKE_LOG", &log);\n    let _ = std::fs::remove_file(&log);\n    let im = |(n, b): &(&str, &\'static [u8])| InputModule { module: b, namespace: n.to_string() };\n    let own: Vec<(&str, &\'static [u8])> = mods.iter().map(|(n, b)| (*n, &*Box::leak(b.to_vec().into_boxed_slice()))).collect();\n    let o = MergeOptions { primary: primary.map(|(n, b)| InputModule { module: Box::leak(b.to_vec().into_boxed_slice()), namespace: n.to_string() }),\n        input_modules: own.iter().map(im).collect(), ..Default::default() };\n    let r = o.merge();\n    let l = std::fs::read_to_string(&log).unwrap_or_default();\n    (r, l.lines().map(String::from).collect())\n}\n#[allow(dead_code)]\nfn check(ok: bool, what: &str) { if !ok { eprintln!("{what}"); std::process::exit(1) } }\n\nfn main() {\n    let (r, l) = run("printf ok > $out", None, &[("env", b"1"), ("env", b"2"), ("b", b"3")]);\n    check(r.is_ok(), "failed");\n    check(l.iter().filter(|x| *x == "env").count() == 2, &format!("{l:?}"));\n}\n'}
