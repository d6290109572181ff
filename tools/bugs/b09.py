DEPS = "wasm-merge = { path = \"/repo/wasm-merge\" }"
ID = 'merge-shared-output'
PROPERTY = 'P08'
NEEDS = 'two merges running at the same time in one process'
BREAKS = "concurrent merges of one process write to one output file and can return each other's result"
EDITS = [('wasm-merge/src/lib.rs', '        let mut output_file = NamedTempFile::new().map_err(Error::TempOutputFileCreationFailed)?;\n        let output_file_path = output_file.path().to_string_lossy().to_string();\n', '        let output_file = NamedTempFile::new().map_err(Error::TempOutputFileCreationFailed)?;\n        let output_file_path = output_file\n            .path()\n            .with_file_name(format!(".merged-{}", std::process::id()))\n            .to_string_lossy()\n            .to_string();\n'), ('wasm-merge/src/lib.rs', '        output_file\n            .read_to_end(&mut result)\n            .map_err(Error::ReadFromOutputFileFailed)?;\n', '        std::fs::File::open(&output_file_path)\n            .and_then(|mut merged| merged.read_to_end(&mut result))\n            .map_err(Error::ReadFromOutputFileFailed)?;\n        let _ = std::fs::remove_file(&output_file_path);\n')]
DEMO = {'wasm-merge': '#!/bin/bash\n# stand-in for the merge tool: logs its arguments, runs the behaviour in $FAKE\nprintf "%s\\n" "$@" >> "$FAKE_LOG"\nout=""; prev=""\nfor a in "$@"; do [ "$prev" = "-o" ] && out=$a; prev=$a; done\neval "$FAKE"\n', 'main.rs': '\nuse wasm_merge::{InputModule, MergeOptions, error::Error};\n#[allow(dead_code)]\nfn run(fake: &str, primary: Option<(&str, &[u8])>, mods: &[(&str, &[u8])]) -> (Result<Vec<u8>, Error>, Vec<String>) {\n    std::env::set_var("FAKE", fake);\n    let log = std::env::current_dir().unwrap().join("../log");\n    std::env::set_var("FAKE_LOG", &log);\n    let _ = std::fs::remove_file(&log);\n    let im = |(n, b): &(&str, &\'static [u8])| InputModule { module: b, namespace: n.to_string() };\n    let own: Vec<(&str, &\'static [u8])> = mods.iter().map(|(n, b)| (*n, &*Box::leak(b.to_vec().into_boxed_slice()))).collect();\n    let o = MergeOptions { primary: primary.map(|(n, b)| InputModule { module: Box::leak(b.to_vec().into_boxed_slice()), namespace: n.to_string() }),\n        input_modules: own.iter().map(im).collect(), ..Default::default() };\n    let r = o.merge();\n    let l = std::fs::read_to_string(&log).unwrap_or_default();\n    (r, l.lines().map(String::from).collect())\n}\n#[allow(dead_code)]\nfn check(ok: bool, what: &str) { if !ok { eprintln!("{what}"); std::process::exit(1) } }\n\nfn main() {\n    // every merge returns the bytes of its own module\n    std::env::set_var("FAKE", "sleep 0.1; cat \\"$1\\" > \\"$out\\"; sleep 0.2");\n    std::env::set_var("FAKE_LOG", "/dev/null");\n    let t: Vec<_> = (0..6u8).map(|i| std::thread::spawn(move || {\n        std::thread::sleep(std::time::Duration::from_millis(40 * i as u64));\n        let b = vec![i; 10];\n        let r = MergeOptions { primary: None, input_modules: vec![InputModule { module: &b, namespace: "m".into() }], ..Default::default() }.merge();\n        matches!(r, Ok(x) if x == vec![i; 10])\n    })).collect();\n    let ok = t.into_iter().all(|t| t.join().unwrap());\n    check(ok, "a merge returned something else than its own module");\n}\n'}
