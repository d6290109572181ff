ID = "core-nest-empty-else"
PROPERTY = "P16"
NEEDS = "an if whose else branch is empty"
BREAKS = "an empty else is dropped when a nested body is written back, so the flat sequence differs"
CORE = True
CARGO = 'wastrumentation = { path = "/repo/wastrumentation" }\nwasabi_wasm = { git = "https://github.com/aaronmunsters/wasabi.git", rev = "ee2fb70" }\nwat = "1"'
MAIN = r'''
use wastrumentation::parse_nesting::{HighLevelBody, LowLevelBody};
fn main() {
    let wasm = wat::parse_str(std::env::args().nth(1).unwrap()).unwrap();
    let (module, _, _) = wasabi_wasm::Module::from_bytes(&wasm).unwrap();
    let index = 0_u32.into();
    let function = module.function(index);
    let code = function.code().unwrap();
    let nested: HighLevelBody = (&module, function, code, &index).try_into().unwrap_or_else(|_| panic!("refused"));
    let LowLevelBody(flat) = nested.into();
    assert_eq!(format!("{:?}", flat), format!("{:?}", code.body));
}
'''
EDITS = [("wastrumentation/src/parse_nesting/typed_high_level_body.rs", """                result.push(wasabi_wasm::Instr::Else);
                result.extend(from_recurse(else_));""", """                if !else_.is_empty() {
                    result.push(wasabi_wasm::Instr::Else);
                    result.extend(from_recurse(else_));
                }""")]
DEMO = {"check.mjs": r'''
import { spawnSync } from "child_process";
import { check } from "./wasm.mjs";
for (const w of ["(if (local.get 0) (then (nop)) (else (nop)))", "(if (local.get 0) (then (nop)))", "(if (local.get 0) (then) (else))"]) {
  const r = spawnSync(process.env.DEMO, [`(module (func (param i32) ${w}))`], { encoding: "utf8" });
  check(r.status === 0, w + ": " + r.stderr);
}
'''}
