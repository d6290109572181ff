DEPS = 'wasm-merge = { path = "/repo/wasm-merge" }'
ID = 'merge-remembered'
PROPERTY = 'P06'
NEEDS = 'the same request made twice in one process'
BREAKS = 'a request like the one before is answered from memory without running the tool'
EDITS = [('wasm-merge/src/lib.rs', '        let mut command_merge = Command::new("bash");\n', '        // the same modules under the same names and options give the same result\n        static LAST: std::sync::Mutex<Option<(u64, Vec<u8>)>> = std::sync::Mutex::new(None);\n        let request = {\n            use std::hash::{DefaultHasher, Hash, Hasher};\n            let mut hasher = DefaultHasher::new();\n            self.as_bash_arguments().hash(&mut hasher);\n            for (InputModule { module, namespace }, ..) in &merges {\n                module.hash(&mut hasher);\n                namespace.hash(&mut hasher);\n            }\n            hasher.finish()\n        };\n        if let Ok(last) = LAST.lock() {\n            if let Some((last_request, result)) = &*last {\n                if *last_request == request {\n                    return Ok(result.clone());\n                }\n            }\n        }\n\n        let mut command_merge = Command::new("bash");\n'), ('wasm-merge/src/lib.rs', '            .map_err(Error::ReadFromOutputFileFailed)?;\n\n        Ok(result)', '            .map_err(Error::ReadFromOutputFileFailed)?;\n\n        if let Ok(mut last) = LAST.lock() {\n            *last = Some((request, result.clone()));\n        }\n\n        Ok(result)')]
DEMO = {'wasm-merge': '#!/bin/bash\n# stand-in for the merge tool: logs its arguments, runs the behaviour in $FAKE\nprintf "%s\\n" "$@" >> "$FAKE_LOG"\nout=""; prev=""\nfor a in "$@"; do [ "$prev" = "-o" ] && out=$a; prev=$a; done\neval "$FAKE"\n', 'main.rs': '\nuse wasm_merge::{InputModule, MergeOptions, error::Error};\n#[allow(dead_code)]\nfn run(fake: &str, primary: Option<(&str, &[u8])>, mods: &[(&str, &[u8])]) -> (Result<Vec<u8>, Error>, Vec<String>) {\n    std::env::set_var("FAKE", fake);\n    let log = std::env::current_dir().unwrap().join("../log");\n    std::env::set_var("FAKE_LOG", &log);\n    let _ = std::fs::remove_file(&log);\n    let im = |(n, b): &(&str, &\'static [u8])| InputModule { module: b, namespace: n.to_string() };\n    let own: Vec<(&str, &\'static [u8])> = mods.iter().map(|(n, b)| (*n, &*Box::leak(b.to_vec().into_boxed_slice()))).collect();\n    let o = MergeOptions { primary: primary.map(|(n, b)| InputModule { module: Box::leak(b.to_vec().into_boxed_slice()), namespace: n.to_string() }),\n        input_modules: own.iter().map(im).collect(), ..Default::default() };\n    let r = o.merge();\n    let l = std::fs::read_to_string(&log).unwrap_or_default();\n    (r, l.lines().map(String::from).collect())\n}\n#[allow(dead_code)]\nfn check(ok: bool, what: &str) { if !ok { eprintln!("{what}"); std::process::exit(1) } }\n\nfn main() {\n    for i in 0..3u8 {\n        let (r, l) = run(&format!("printf {i} > \\"$out\\""), None, &[("a", b"x"), ("b", b"y")]);\n        check(!l.is_empty(), "the tool was not run");\n        check(matches!(r, Ok(x) if x == vec![b\'0\' + i]), "not what the tool wrote");\n    }\n}\n'}
