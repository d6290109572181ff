ID = 'report-first-branch'
PROPERTY = "P25"
NEEDS = 'one branch that goes both ways'
BREAKS = 'branch coverage answers with the first outcome of a branch instead of the last'
EDITS = [('benchmarking-node/input-analyses/rust/coverage-branch/src/lib.rs', '    coverage.borrow_mut().insert(location, condition);', '    coverage.borrow_mut().entry(location).or_insert(condition);')]
DEMO = {'demo.sh': '#!/bin/bash\n# Builds the analysis in /repo for WebAssembly and asks it, in a scratch folder.\nset -u\nexport PATH=/usr/local/bin:/root/.cargo/bin:$PATH HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly CARGO_INCREMENTAL=0\nhere=$(cd "$(dirname "$0")" && pwd)\nd=$(mktemp -d) || exit 3\ntrap \'rm -rf "$d"\' EXIT\nA=/repo/benchmarking-node/input-analyses/rust\nmkdir -p "$d/wee/src" "$d/libm/src"\nprintf \'[package]\\nname = "wee_alloc"\\nversion = "0.4.5"\\nedition = "2021"\\n\' >"$d/wee/Cargo.toml"\ncat >"$d/wee/src/lib.rs" <<\'T\'\n#![no_std]\nuse core::alloc::{GlobalAlloc, Layout};\npub struct WeeAlloc;\nimpl WeeAlloc { pub const INIT: WeeAlloc = WeeAlloc; }\nstatic mut HEAP: [u8; 1 << 20] = [0; 1 << 20];\nstatic mut USED: usize = 0;\nunsafe impl GlobalAlloc for WeeAlloc {\n    unsafe fn alloc(&self, l: Layout) -> *mut u8 {\n        USED = (USED + 15) / 16 * 16 + l.size();\n        if USED > 1 << 20 { return core::ptr::null_mut(); }\n        (&raw mut HEAP as *mut u8).add(USED - l.size())\n    }\n    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}\n}\nT\nprintf \'[package]\\nname = "libm"\\nversion = "0.2.15"\\nedition = "2021"\\n\' >"$d/libm/Cargo.toml"\nprintf \'#![no_std]\\n\' >"$d/libm/src/lib.rs"\ncat >"$d/Cargo.toml" <<T\n[package]\nname = "an"\nversion = "0.1.0"\nedition = "2021"\n[lib]\ncrate-type = ["cdylib"]\npath = "$A/coverage-branch/src/lib.rs"\n[workspace]\n[dependencies]\nwee_alloc = "0.4.5"\nwastrumentation-rs-stdlib = { path = "$A/wastrumentation-rs-stdlib", features = ["std"] }\n[patch.crates-io]\nwee_alloc = { path = "wee" }\nlibm = { path = "libm" }\n[profile.release]\nstrip = true\npanic = "abort"\nT\nvendor=$(rustc --print sysroot)/lib/rustlib/src/rust/library/vendor\nexport CARGO_TARGET_DIR=$d/target RUSTFLAGS="-C target-feature=+nontrapping-fptoint -A warnings"\ncargo build -q --release --offline --manifest-path "$d/Cargo.toml" -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown \\\n  --config \'source.crates-io.replace-with="rust-src"\' --config "source.rust-src.directory=\\"$vendor\\"" || exit 3\ncp "$here/check.mjs" "$d/check.mjs"\ncd "$d" && timeout 60 node check.mjs target/wasm32-unknown-unknown/release/an.wasm\n', 'check.mjs': 'import fs from "fs";\nconst mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));\nconst imports = {};\nfor (const i of WebAssembly.Module.imports(mod)) (imports[i.module] ??= {})[i.name] = () => 0;\nexport const a = new WebAssembly.Instance(mod, imports).exports;\nlet bad = 0;\nconst same = (got, want, what) => { if (got !== want) { console.log(what + ": " + got + " instead of " + want); bad = 1; } };\n// function and instruction are the same number: the library exchanges them\na.specialized_if_then_k(1, 0, 0, 3n, 3n);\nsame(a.get_coverage(3n, 3n), 1, "taken");\na.specialized_if_then_k(0, 0, 0, 3n, 3n);\nsame(a.get_coverage(3n, 3n), 0, "then not taken");\nsame(a.get_coverage(4n, 4n), -1, "never there");\nprocess.exit(bad);\n'}
