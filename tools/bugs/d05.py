ID = "cli-body-size"
PROPERTY = "P23"
NEEDS = "a function whose body is exactly as long as the minimum asked for"
BREAKS = "functions of exactly the requested size are left out"
CORE = True
LOCK = "cli"
SHIMS = ("clio", "rust-to-wasm-compiler", "asc-compiler-rs")
CARGO = 'wastrumentation-static-analysis = { path = "/repo/wastrumentation-static-analysis" }\nwasabi_wasm = { git = "https://github.com/aaronmunsters/wasabi.git", rev = "ee2fb70" }\nclap = { version = "4.5", features = ["derive"] }\nclio = { version = "0.3.5", features = ["clap-parse"] }\nserde_json = "1.0"\nanyhow = "1.0"\nwat = "1"'
MAIN = 'include!("/repo/wastrumentation-static-analysis/src/main.rs");\n'
EDITS = [("wastrumentation-static-analysis/src/main.rs", """                .len()
                >= minimum_body_count""", """                .len()
                > minimum_body_count""")]
DEMO = {"check.mjs": r'''
import { spawnSync } from "child_process";
import fs from "fs";
import { same } from "./wasm.mjs";
// (func) (func (result i32) (i32.const 1)) (func (nop) (nop) (nop))
const wasm = Buffer.from("0061736d01000000 0108 02 600000 6000017f 030403 000100 0a0f03 02000b 040041010b 05000101010b".replace(/ /g, ""), "hex");
fs.writeFileSync("p.wasm", wasm);
for (const [n, want] of [[0, [0, 1, 2]], [1, [0, 1, 2]], [2, [1, 2]], [3, [2]], [4, [2]], [5, []]]) {
  const r = spawnSync(process.env.DEMO, ["-i", "p.wasm", "-o", "out", "-m", String(n)], { encoding: "utf8" });
  same(r.status, 0, r.stderr);
  same(JSON.parse(fs.readFileSync("out", "utf8")).sort(), want, "functions of at least " + n);
}
'''}
