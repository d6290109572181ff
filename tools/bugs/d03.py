ID = "pipe-missing-primary"
PROPERTY = "P20"
NEEDS = "the buffer library chosen as the first part in a run that needs none"
BREAKS = "the analysis instead of the program comes first when the configured part does not exist"
CORE = True
CARGO = 'wastrumentation = { path = "/repo/wastrumentation" }\nwastrumentation-lang-webassembly = { path = "/repo/supported-languages/webassembly" }\nwat = "1"'
MAIN = r'''
use wastrumentation::{compiler::Compiles, Configuration, PrimaryTarget, Wastrumenter};
use wastrumentation_lang_webassembly::{compile::{compiler::Compiler, options::WebAssemblySource, WebAssembly}, generate::analysis::{Hook, WasmAnalysisSpec}};
fn main() {
    let wasm = wat::parse_str("(module (func (export \"f\") (param i32) (drop (local.get 0))))").unwrap();
    let c = || Box::new(Compiler::setup_compiler().unwrap());
    for hook in [Hook::Drop, Hook::GenericApply] {
        for primary_selection in [None, Some(PrimaryTarget::Instrumentation), Some(PrimaryTarget::Target), Some(PrimaryTarget::Analysis)] {
            std::env::set_var("RUN", format!("{hook:?} {primary_selection:?}"));
            let analysis = WasmAnalysisSpec { source: WebAssemblySource::Wat("(module)".into()), hooks: [hook].into_iter().collect() };
            let _ = Wastrumenter::<WebAssembly, _, WebAssembly, _>::new(c(), c()).wastrument(&wasm, analysis.into(), &Configuration { target_indices: None, primary_selection });
        }
    }
}
'''
EDITS = [("wastrumentation/src/lib.rs", """            Some(PrimaryTarget::Instrumentation) => (
                input_instrumentation(),
                vec![input_target(), input_analysis()],
            ),""", """            Some(PrimaryTarget::Instrumentation) => match input_instrumentation() {
                None => (None, vec![input_analysis(), input_target()]),
                primary => (primary, vec![input_target(), input_analysis()]),
            },""")]
DEMO = {"wasm-merge": r'''#!/bin/bash
# stand-in for wasm-merge: records the order of the parts
set -u
names=() out=
while [ $# -gt 0 ]; do
  case $1 in
    -o|--output) out=$2; shift 2 ;;
    -*) shift ;;
    *) names+=("$2"); shift 2 ;;
  esac
done
echo "$RUN: ${names[*]}" >>"$HOME_LOG"
printf '\0asm\1\0\0\0' >"$out"
''', "check.mjs": r'''
import { spawnSync } from "child_process";
import fs from "fs";
import { check, same } from "./wasm.mjs";
const r = spawnSync(process.env.DEMO, [], { encoding: "utf8", env: { ...process.env, HOME_LOG: process.cwd() + "/log" } });
check(r.status === 0, r.stderr);
const first = {};
for (const l of fs.readFileSync("log", "utf8").trim().split("\n")) { const [k, v] = l.split(": "); first[k] = v.split(" ")[0]; }
const T = "instrumented_input", A = "WASTRUMENTATION_ANALYSIS", S = "wastrumentation_stack";
for (const [k, v] of Object.entries({ "Drop None": T, "Drop Some(Instrumentation)": T, "Drop Some(Target)": T, "Drop Some(Analysis)": A,
  "GenericApply None": T, "GenericApply Some(Instrumentation)": S, "GenericApply Some(Target)": T, "GenericApply Some(Analysis)": A })) same(first[k], v, "first part for " + k);
'''}
