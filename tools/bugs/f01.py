DEPS = 'wasm-merge = { path = "/repo/wasm-merge" }'
ID = 'merge-content-addressed'
PROPERTY = 'P08'
NEEDS = 'two merges at the same time that have a module in common'
BREAKS = "files for the tool are named after their content, so that merges with a module in common remove each other's files"
EDITS = [('wasm-merge/src/lib.rs', '                let mut input_module =\n                    NamedTempFile::new().map_err(Error::TempInputFileCreationFailed)?;\n                input_module\n                    .write_all(module)\n                    .map_err(Error::TempInputFileWriteFailed)?;\n                let input_module_path = input_module.path().to_string_lossy().to_string();\n', '                // named after the content: equal modules are written once\n                let digest = module.iter().fold(0xcbf2_9ce4_8422_2325_u64, |digest, byte| {\n                    (digest ^ u64::from(*byte)).wrapping_mul(0x0100_0000_01b3)\n                });\n                let path = std::env::temp_dir().join(format!(".wasm-merge-{digest:016x}"));\n                if !path.exists() {\n                    let mut file = std::fs::File::create(&path)\n                        .map_err(Error::TempInputFileCreationFailed)?;\n                    file.write_all(module)\n                        .map_err(Error::TempInputFileWriteFailed)?;\n                }\n                let input_module = tempfile::TempPath::from_path(path);\n                let input_module_path = input_module.to_string_lossy().to_string();\n'), ('wasm-merge/src/lib.rs', 'let merges: Vec<(&InputModule, String, NamedTempFile)> = primary', 'let merges: Vec<(&InputModule, String, tempfile::TempPath)> = primary'), ('wasm-merge/src/lib.rs', '.collect::<Result<Vec<(&InputModule, String, NamedTempFile)>, Error>>()?;', '.collect::<Result<Vec<(&InputModule, String, tempfile::TempPath)>, Error>>()?;')]
DEMO = {'wasm-merge': '#!/bin/bash\n# stand-in for the merge tool: logs its arguments, runs the behaviour in $FAKE\nprintf "%s\\n" "$@" >> "$FAKE_LOG"\nout=""; prev=""\nfor a in "$@"; do [ "$prev" = "-o" ] && out=$a; prev=$a; done\neval "$FAKE"\n', 'main.rs': '\nuse wasm_merge::{InputModule, MergeOptions, error::Error};\n#[allow(dead_code)]\nfn run(fake: &str, primary: Option<(&str, &[u8])>, mods: &[(&str, &[u8])]) -> (Result<Vec<u8>, Error>, Vec<String>) {\n    std::env::set_var("FAKE", fake);\n    let log = std::env::current_dir().unwrap().join("../log");\n    std::env::set_var("FAKE_LOG", &log);\n    let _ = std::fs::remove_file(&log);\n    let im = |(n, b): &(&str, &\'static [u8])| InputModule { module: b, namespace: n.to_string() };\n    let own: Vec<(&str, &\'static [u8])> = mods.iter().map(|(n, b)| (*n, &*Box::leak(b.to_vec().into_boxed_slice()))).collect();\n    let o = MergeOptions { primary: primary.map(|(n, b)| InputModule { module: Box::leak(b.to_vec().into_boxed_slice()), namespace: n.to_string() }),\n        input_modules: own.iter().map(im).collect(), ..Default::default() };\n    let r = o.merge();\n    let l = std::fs::read_to_string(&log).unwrap_or_default();\n    (r, l.lines().map(String::from).collect())\n}\n#[allow(dead_code)]\nfn check(ok: bool, what: &str) { if !ok { eprintln!("{what}"); std::process::exit(1) } }\n\nfn main() {\n    // all merges share their second module; each returns what it was given, to the end of its own run\n    std::env::set_var("FAKE", "sleep 0.1; cat \\"$1\\" \\"$3\\" > \\"$out\\"; sleep 0.1");\n    std::env::set_var("FAKE_LOG", "/dev/null");\n    let t: Vec<_> = (0..6u8).map(|i| std::thread::spawn(move || {\n        std::thread::sleep(std::time::Duration::from_millis(60 * i as u64));\n        let (a, b) = (vec![i; 10], vec![9; 50]);\n        let r = MergeOptions { primary: None, input_modules: vec![InputModule { module: &a, namespace: "m".into() }, InputModule { module: &b, namespace: "n".into() }], ..Default::default() }.merge();\n        matches!(r, Ok(x) if x == [a, b].concat())\n    })).collect();\n    let ok = t.into_iter().all(|t| t.join().unwrap());\n    check(ok, "a merge returned something else than its own modules");\n}\n'}
