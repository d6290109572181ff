DEPS = 'wasm-merge = { path = "/repo/wasm-merge" }'
ID = 'merge-blank-names'
PROPERTY = 'P06'
NEEDS = 'a module whose name is empty'
BREAKS = 'a module with an empty name is handed to the tool under the name of the module before it'
EDITS = [('wasm-merge/src/lib.rs', '        let merge_name_combinations = merges\n            .iter()\n            .map(|(InputModule { namespace, .. }, input_module_path, ..)| {\n                format!', '        let mut named = "";\n        let merge_name_combinations = merges\n            .iter()\n            .map(|(InputModule { namespace, .. }, input_module_path, ..)| {\n                if !namespace.is_empty() {\n                    named = namespace;\n                }\n                let namespace = named;\n                format!')]
DEMO = {'wasm-merge': '#!/bin/bash\n# stand-in for the merge tool: logs its arguments, runs the behaviour in $FAKE\nprintf "%s\\n" "$@" >> "$FAKE_LOG"\nout=""; prev=""\nfor a in "$@"; do [ "$prev" = "-o" ] && out=$a; prev=$a; done\neval "$FAKE"\n', 'main.rs': '\nuse wasm_merge::{InputModule, MergeOptions, error::Error};\n#[allow(dead_code)]\nfn run(fake: &str, primary: Option<(&str, &[u8])>, mods: &[(&str, &[u8])]) -> (Result<Vec<u8>, Error>, Vec<String>) {\n    std::env::set_var("FAKE", fake);\n    let log = std::env::current_dir().unwrap().join("../log");\n    std::env::set_var("FAKE_LOG", &log);\n    let _ = std::fs::remove_file(&log);\n    let im = |(n, b): &(&str, &\'static [u8])| InputModule { module: b, namespace: n.to_string() };\n    let own: Vec<(&str, &\'static [u8])> = mods.iter().map(|(n, b)| (*n, &*Box::leak(b.to_vec().into_boxed_slice()))).collect();\n    let o = MergeOptions { primary: primary.map(|(n, b)| InputModule { module: Box::leak(b.to_vec().into_boxed_slice()), namespace: n.to_string() }),\n        input_modules: own.iter().map(im).collect(), ..Default::default() };\n    let r = o.merge();\n    let l = std::fs::read_to_string(&log).unwrap_or_default();\n    (r, l.lines().map(String::from).collect())\n}\n#[allow(dead_code)]\nfn check(ok: bool, what: &str) { if !ok { eprintln!("{what}"); std::process::exit(1) } }\n\nfn main() {\n    let (r, l) = run("printf x > \\"$out\\"", None, &[("a", b"1"), ("", b"2"), ("c", b"3")]);\n    check(r.is_ok(), "failed");\n    let args: Vec<&str> = l.iter().map(|x| &x[..]).collect();\n    let at = args.iter().position(|x| *x == "a").expect("first name");\n    check(args[at + 2] == "", "the empty name was not handed on");\n    check(args[at + 4] == "c", "the third name was not handed on");\n}\n'}
