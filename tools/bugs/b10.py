DEPS = 'wasm-merge = { path = "/repo/wasm-merge" }'
ID = 'merge-large-output'
PROPERTY = 'P07'
NEEDS = 'a tool that writes more than a mebibyte'
BREAKS = 'only the first mebibyte of the merged module is returned, as success'
EDITS = [('wasm-merge/src/lib.rs', '        output_file\n            .read_to_end(&mut result)\n            .map_err(Error::ReadFromOutputFileFailed)?;\n', '        output_file\n            .take(1 << 20)\n            .read_to_end(&mut result)\n            .map_err(Error::ReadFromOutputFileFailed)?;\n')]
DEMO = {'wasm-merge': '#!/bin/bash\n# stand-in for the merge tool: logs its arguments, runs the behaviour in $FAKE\nprintf "%s\\n" "$@" >> "$FAKE_LOG"\nout=""; prev=""\nfor a in "$@"; do [ "$prev" = "-o" ] && out=$a; prev=$a; done\neval "$FAKE"\n', 'main.rs': '\nuse wasm_merge::{InputModule, MergeOptions, error::Error};\n#[allow(dead_code)]\nfn run(fake: &str, primary: Option<(&str, &[u8])>, mods: &[(&str, &[u8])]) -> (Result<Vec<u8>, Error>, Vec<String>) {\n    std::env::set_var("FAKE", fake);\n    let log = std::env::current_dir().unwrap().join("../log");\n    std::env::set_var("FAKE_LOG", &log);\n    let _ = std::fs::remove_file(&log);\n    let im = |(n, b): &(&str, &\'static [u8])| InputModule { module: b, namespace: n.to_string() };\n    let own: Vec<(&str, &\'static [u8])> = mods.iter().map(|(n, b)| (*n, &*Box::leak(b.to_vec().into_boxed_slice()))).collect();\n    let o = MergeOptions { primary: primary.map(|(n, b)| InputModule { module: Box::leak(b.to_vec().into_boxed_slice()), namespace: n.to_string() }),\n        input_modules: own.iter().map(im).collect(), ..Default::default() };\n    let r = o.merge();\n    let l = std::fs::read_to_string(&log).unwrap_or_default();\n    (r, l.lines().map(String::from).collect())\n}\n#[allow(dead_code)]\nfn check(ok: bool, what: &str) { if !ok { eprintln!("{what}"); std::process::exit(1) } }\n\nfn main() {\n    let (r, _) = run("head -c 1500000 /dev/zero > $out", None, &[("env", b"1")]);\n    check(matches!(&r, Ok(b) if b.len() == 1500000), &format!("{:?}", r.map(|b| b.len())));\n}\n'}
