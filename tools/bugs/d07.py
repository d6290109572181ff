ID = "lib-rust-slots"
PROPERTY = "P18"
NEEDS = "a Rust buffer library and a signature with both arguments and results, while an earlier buffer is live"
BREAKS = "a value buffer has room for the larger of arguments and results only, so that its last slots overlap its neighbour"
CORE = True
SHIMS = ("rust-to-wasm-compiler", "asc-compiler-rs")
CARGO = 'wastrumentation = { path = "/repo/wastrumentation" }\nwastrumentation-lang-rust = { path = "/repo/supported-languages/rust" }\nrust-to-wasm-compiler = { path = "shims/rust-to-wasm-compiler" }'
MAIN = r'''
use wastrumentation::compiler::LibGeneratable;
use wastrumentation::wasm_constructs::{Signature, WasmType::*};
use wastrumentation_lang_rust::compile::{options::{RustSource, RustSourceCode}, Rust};
fn main() {
    let s = |r: Vec<_>, a: Vec<_>| Signature { return_types: r, argument_types: a };
    let lib = Rust::generate_lib(&[s(vec![], vec![]), s(vec![I64], vec![I64]), s(vec![I64, I64], vec![I64])]);
    match lib.content {
        RustSource::SourceCode(_, _, RustSourceCode(text)) => println!("{text}"),
        _ => panic!("no source"),
    }
}
'''
EDITS = [("supported-languages/rust/src/generate/instrumentation/mod.rs", """    let generic_name = RustSignature::generic_rust_name(rets_count, args_count);
    let total_slots = rets_count + args_count;

    if total_slots == 0 {
        return format!(
            "
#[inline(always)]
fn allocate_{generic_name}""", """    let generic_name = RustSignature::generic_rust_name(rets_count, args_count);
    let total_slots = rets_count.max(args_count);

    if total_slots == 0 {
        return format!(
            "
#[inline(always)]
fn allocate_{generic_name}""")]
DEMO = {"check.mjs": r'''
import { spawnSync } from "child_process";
import fs from "fs";
import { check } from "./wasm.mjs";
const run = (cmd, ...args) => { const r = spawnSync(cmd, args, { encoding: "utf8" }); check(r.status === 0, cmd + " " + args + ": " + r.stderr.slice(-600)); return r.stdout; };
fs.writeFileSync("buffers.rs", run(process.env.DEMO));
// hands out consecutive blocks
fs.writeFileSync("wee_alloc.rs", `
use std::alloc::{GlobalAlloc, Layout};
pub struct WeeAlloc;
impl WeeAlloc { pub const INIT: WeeAlloc = WeeAlloc; }
static mut HEAP: [u64; 1 << 16] = [0; 1 << 16];
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for WeeAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let words = (l.size() + 15) / 16 * 2;
        (&raw mut HEAP as *mut u64).add(NEXT.fetch_add(words, std::sync::atomic::Ordering::Relaxed)) as *mut u8
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}`);
fs.writeFileSync("main.rs", `
use buffers::*;
fn main() {
    let a = allocate_ret_i64_i64_arg_i64(1);
    let b = allocate_ret_i64_i64_arg_i64(2);
    store_ret0_ret_i64_i64_arg_i64(b, 3);
    store_ret1_ret_i64_i64_arg_i64(b, 4);
    assert_eq!((load_arg0_ret_i64_i64_arg_i64(a), load_arg0_ret_i64_i64_arg_i64(b)), (1, 2));
}`);
const rustc = (...a) => run("rustc", "--edition", "2021", "-Copt-level=0", "-L", ".", ...a);
rustc("--crate-type=rlib", "wee_alloc.rs");
rustc("--crate-type=rlib", "--cfg", "test", "--cap-lints", "allow", "buffers.rs");
rustc("--extern", "buffers=libbuffers.rlib", "main.rs");
run("./main");
'''}
