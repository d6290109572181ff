DEPS = 'wasm-merge = { path = "/repo/wasm-merge" }'
ID = 'merge-retry-killed'
PROPERTY = 'P07'
NEEDS = 'a tool that is killed once and then succeeds'
BREAKS = 'a tool that was killed is started again, and its result counts as success although it was killed'
EDITS = [('wasm-merge/src/lib.rs', '        let command_output = command_merge\n            .output()\n            .map_err(Error::MergeExecutionFailed)?;\n', '        let mut command_output = command_merge\n            .output()\n            .map_err(Error::MergeExecutionFailed)?;\n        if command_output.stderr.is_empty() && command_output.status.code().map_or(true, |code| code == 137) {\n            // killed from outside, for example when memory was low: once more\n            command_output = command_merge\n                .output()\n                .map_err(Error::MergeExecutionFailed)?;\n        }\n')]
DEMO = {'wasm-merge': '#!/bin/bash\n# stand-in for the merge tool: logs its arguments, runs the behaviour in $FAKE\nprintf "%s\\n" "$@" >> "$FAKE_LOG"\nout=""; prev=""\nfor a in "$@"; do [ "$prev" = "-o" ] && out=$a; prev=$a; done\neval "$FAKE"\n', 'main.rs': '\nuse wasm_merge::{InputModule, MergeOptions, error::Error};\n#[allow(dead_code)]\nfn run(fake: &str, primary: Option<(&str, &[u8])>, mods: &[(&str, &[u8])]) -> (Result<Vec<u8>, Error>, Vec<String>) {\n    std::env::set_var("FAKE", fake);\n    let log = std::env::current_dir().unwrap().join("../log");\n    std::env::set_var("FAKE_LOG", &log);\n    let _ = std::fs::remove_file(&log);\n    let im = |(n, b): &(&str, &\'static [u8])| InputModule { module: b, namespace: n.to_string() };\n    let own: Vec<(&str, &\'static [u8])> = mods.iter().map(|(n, b)| (*n, &*Box::leak(b.to_vec().into_boxed_slice()))).collect();\n    let o = MergeOptions { primary: primary.map(|(n, b)| InputModule { module: Box::leak(b.to_vec().into_boxed_slice()), namespace: n.to_string() }),\n        input_modules: own.iter().map(im).collect(), ..Default::default() };\n    let r = o.merge();\n    let l = std::fs::read_to_string(&log).unwrap_or_default();\n    (r, l.lines().map(String::from).collect())\n}\n#[allow(dead_code)]\nfn check(ok: bool, what: &str) { if !ok { eprintln!("{what}"); std::process::exit(1) } }\n\nfn main() {\n    // the stand-in is killed the first time and would succeed the second\n    let (r, l) = run("printf part > \\"$out\\"; [ -e seen ] || { : > seen; kill -9 $$; }", None, &[("a", b"x")]);\n    let _ = std::fs::remove_file("seen");\n    check(l.iter().filter(|x| *x == "a").count() == 1, "the tool was started more than once");\n    check(r.is_err(), "a killed tool counts as success");\n}\n'}
