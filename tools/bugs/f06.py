ID = 'report-wide-add'
PROPERTY = "P25"
NEEDS = '64-bit additions'
BREAKS = 'the signature counts only 32-bit additions'
EDITS = [('benchmarking-node/input-analyses/rust/cryptominer-detection/src/lib.rs', 'I32Add  | I64Add | F32Add | F64Add =>', 'I32Add  | F32Add | F64Add =>')]
DEMO = {'demo.sh': '#!/bin/bash\n# Builds the analysis in /repo for WebAssembly and asks it, in a scratch folder.\nset -u\nexport PATH=/usr/local/bin:/root/.cargo/bin:$PATH HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly CARGO_INCREMENTAL=0\nhere=$(cd "$(dirname "$0")" && pwd)\nd=$(mktemp -d) || exit 3\ntrap \'rm -rf "$d"\' EXIT\nA=/repo/benchmarking-node/input-analyses/rust\nmkdir -p "$d/wee/src" "$d/libm/src"\nprintf \'[package]\\nname = "wee_alloc"\\nversion = "0.4.5"\\nedition = "2021"\\n\' >"$d/wee/Cargo.toml"\ncat >"$d/wee/src/lib.rs" <<\'T\'\n#![no_std]\nuse core::alloc::{GlobalAlloc, Layout};\npub struct WeeAlloc;\nimpl WeeAlloc { pub const INIT: WeeAlloc = WeeAlloc; }\nstatic mut HEAP: [u8; 1 << 20] = [0; 1 << 20];\nstatic mut USED: usize = 0;\nunsafe impl GlobalAlloc for WeeAlloc {\n    unsafe fn alloc(&self, l: Layout) -> *mut u8 {\n        USED = (USED + 15) / 16 * 16 + l.size();\n        if USED > 1 << 20 { return core::ptr::null_mut(); }\n        (&raw mut HEAP as *mut u8).add(USED - l.size())\n    }\n    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}\n}\nT\nprintf \'[package]\\nname = "libm"\\nversion = "0.2.15"\\nedition = "2021"\\n\' >"$d/libm/Cargo.toml"\nprintf \'#![no_std]\\n\' >"$d/libm/src/lib.rs"\ncat >"$d/Cargo.toml" <<T\n[package]\nname = "an"\nversion = "0.1.0"\nedition = "2021"\n[lib]\ncrate-type = ["cdylib"]\npath = "$A/cryptominer-detection/src/lib.rs"\n[workspace]\n[dependencies]\nwee_alloc = "0.4.5"\nwastrumentation-rs-stdlib = { path = "$A/wastrumentation-rs-stdlib", features = ["std"] }\n[patch.crates-io]\nwee_alloc = { path = "wee" }\nlibm = { path = "libm" }\n[profile.release]\nstrip = true\npanic = "abort"\nT\nvendor=$(rustc --print sysroot)/lib/rustlib/src/rust/library/vendor\nexport CARGO_TARGET_DIR=$d/target RUSTFLAGS="-C target-feature=+nontrapping-fptoint -A warnings"\ncargo build -q --release --offline --manifest-path "$d/Cargo.toml" -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown \\\n  --config \'source.crates-io.replace-with="rust-src"\' --config "source.rust-src.directory=\\"$vendor\\"" || exit 3\ncp "$here/check.mjs" "$d/check.mjs"\ncd "$d" && timeout 60 node check.mjs target/wasm32-unknown-unknown/release/an.wasm\n', 'check.mjs': 'import fs from "fs";\nconst mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));\nconst imports = {};\nfor (const i of WebAssembly.Module.imports(mod)) (imports[i.module] ??= {})[i.name] = () => 0;\nexport const a = new WebAssembly.Instance(mod, imports).exports;\nlet bad = 0;\nconst same = (got, want, what) => { if (got !== want) { console.log(what + ": " + got + " instead of " + want); bad = 1; } };\nconst add = [0, 0];\nfor (let code = 1; code < 200; code++) {\n  // every 64-bit operator once on 5 and 3: those that answer 8 are additions\n  const before = a.get_signature(0);\n  let r;\n  try { r = a.binary_i64_i64_to_i64(5n, 3n, code, 1n, 1n); } catch { continue; }\n  add[0] += r === 8n ? 1 : 0;\n  add[1] += Number(a.get_signature(0) - before);\n}\nsame(add[0], 1, "additions of 64 bits");\nsame(add[1], 1, "counted additions of 64 bits");\nprocess.exit(bad);\n'}
