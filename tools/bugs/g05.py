ID = "merge-sweeps-stale"
PROPERTY = "P08"
NEEDS = "temporary files of another program, more than a day old, named as this crate's are"
BREAKS = "they are taken for leftovers of a crashed merge and removed"
DEPS = "wasm-merge = { path = \"/repo/wasm-merge\" }"
EDITS = [("wasm-merge/src/lib.rs", """        let MergeOptions {
            primary,
            input_modules,
            ..
        } = self;
""", """        let MergeOptions {
            primary,
            input_modules,
            ..
        } = self;

        sweep();
"""), ("wasm-merge/src/lib.rs", """macro_rules! as_bash_args {""", """/// Removes what merges that were killed left behind.
fn sweep() {
    let day = std::time::Duration::from_secs(24 * 60 * 60);
    for entry in std::fs::read_dir(std::env::temp_dir())
        .into_iter()
        .flatten()
        .flatten()
    {
        let ours = entry.file_name().to_string_lossy().starts_with(".tmp");
        let age = entry
            .metadata()
            .and_then(|m| m.modified())
            .ok()
            .and_then(|m| m.elapsed().ok());
        if ours && age.map_or(false, |age| age > day) {
            let _ = std::fs::remove_file(entry.path());
        }
    }
}

macro_rules! as_bash_args {""")]
DEMO = {'wasm-merge': '#!/bin/bash\n# stand-in for the merge tool: logs its arguments, runs the behaviour in $FAKE\nprintf "%s\\n" "$@" >> "$FAKE_LOG"\nout=""; prev=""\nfor a in "$@"; do [ "$prev" = "-o" ] && out=$a; prev=$a; done\neval "$FAKE"\n', 'main.rs': '\nuse wasm_merge::{InputModule, MergeOptions, error::Error};\n#[allow(dead_code)]\nfn run(fake: &str, primary: Option<(&str, &[u8])>, mods: &[(&str, &[u8])]) -> (Result<Vec<u8>, Error>, Vec<String>) {\n    std::env::set_var("FAKE", fake);\n    let log = std::env::current_dir().unwrap().join("../log");\n    std::env::set_var("FAKE_LOG", &log);\n    let _ = std::fs::remove_file(&log);\n    let im = |(n, b): &(&str, &\'static [u8])| InputModule { module: b, namespace: n.to_string() };\n    let own: Vec<(&str, &\'static [u8])> = mods.iter().map(|(n, b)| (*n, &*Box::leak(b.to_vec().into_boxed_slice()))).collect();\n    let o = MergeOptions { primary: primary.map(|(n, b)| InputModule { module: Box::leak(b.to_vec().into_boxed_slice()), namespace: n.to_string() }),\n        input_modules: own.iter().map(im).collect(), ..Default::default() };\n    let r = o.merge();\n    let l = std::fs::read_to_string(&log).unwrap_or_default();\n    (r, l.lines().map(String::from).collect())\n}\n#[allow(dead_code)]\nfn check(ok: bool, what: &str) { if !ok { eprintln!("{what}"); std::process::exit(1) } }\n\nfn main() {\n    let tmp = std::env::current_dir().unwrap().join("../scratch-tmp");\n    std::fs::create_dir_all(&tmp).unwrap();\n    std::env::set_var("TMPDIR", &tmp);\n    let theirs = tmp.join(".tmpq7Xy2Z");\n    std::fs::write(&theirs, b"precious").unwrap();\n    let f = std::fs::File::options().write(true).open(&theirs).unwrap();\n    f.set_modified(std::time::SystemTime::now() - std::time::Duration::from_secs(3 * 86400)).unwrap();\n    drop(f);\n    let (r, _) = run("printf x > \\"$out\\"", None, &[("a", b"1")]);\n    check(r.is_ok(), "failed");\n    let left = std::fs::read(&theirs).ok();\n    std::fs::remove_dir_all(&tmp).unwrap();\n    check(left.as_deref() == Some(&b"precious"[..]), "the file of another program is gone");\n}\n'}
