"""Compiles Rust guest code of /repo to WebAssembly, with the standard library built from its sources."""
import fcntl, os, shutil
from common import *

# crates that cannot be fetched and are not needed on this target
ALLOCATOR = r"""#![no_std]
//! A stand-in for wee_alloc that traps when a block is given back with another layout.
use core::alloc::{GlobalAlloc, Layout};
pub struct WeeAlloc;
impl WeeAlloc {
    pub const INIT: WeeAlloc = WeeAlloc;
}
#[cfg(target_arch = "wasm32")]
mod heap {
    use super::*;
    use core::arch::wasm32::{memory_grow, memory_size, unreachable};
    static mut TOP: usize = 0;
    const HEAD: usize = 32;
    const MAGIC: usize = 0x5eed_b10c;
    unsafe impl GlobalAlloc for WeeAlloc {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if l.size() == 0 {
                return l.align() as *mut u8;
            }
            if TOP == 0 {
                TOP = memory_size(0) * 65536;
            }
            let align = if l.align() > 16 { l.align() } else { 16 };
            let at = (TOP + HEAD + align - 1) / align * align;
            let end = (at + l.size() + 15) / 16 * 16;
            while end > memory_size(0) * 65536 {
                if memory_grow(0, 1) == usize::MAX {
                    return core::ptr::null_mut();
                }
            }
            let h = (at - HEAD) as *mut usize;
            *h = TOP;
            *h.add(1) = l.size();
            *h.add(2) = l.align();
            *h.add(3) = MAGIC;
            *h.add(4) = end;
            TOP = end;
            at as *mut u8
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if l.size() == 0 {
                return;
            }
            let h = (p as usize).wrapping_sub(HEAD) as *mut usize;
            if p as usize <= HEAD || p as usize >= memory_size(0) * 65536 || *h.add(3) != MAGIC || *h.add(1) != l.size() || *h.add(2) != l.align() {
                unreachable();
            }
            *h.add(3) = 0;
            if *h.add(4) == TOP {
                TOP = *h;
            }
        }
    }
}
#[cfg(not(target_arch = "wasm32"))]
unsafe impl GlobalAlloc for WeeAlloc {
    unsafe fn alloc(&self, _: Layout) -> *mut u8 {
        core::ptr::null_mut()
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
"""
STUBS = {"wee_alloc": ("0.4.5", ALLOCATOR), "libm": ("0.2.15", "#![no_std]\n")}


def nightly():
    rc, out, err = run(["rustc", "--print", "sysroot"], 60, extra_env={"RUSTUP_TOOLCHAIN": "nightly"})
    return out.decode().strip()


def compile_crate(name, populate, timeout=700):
    """populate(directory) writes the crate `name` (and what it depends on) below the directory;
    returns the bytes of the WebAssembly module."""
    base = os.path.join(VERIF, "target", "wasm")
    os.makedirs(base, exist_ok=True)
    with open(os.path.join(base, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src = os.path.join(base, "src")
        shutil.rmtree(src, ignore_errors=True)
        os.makedirs(src)
        populate(src)
        for s, (version, text) in STUBS.items():
            d = os.path.join(src, "stubs", s)
            os.makedirs(os.path.join(d, "src"))
            with open(os.path.join(d, "Cargo.toml"), "w") as f:
                f.write('[package]\nname = "%s"\nversion = "%s"\nedition = "2021"\n' % (s, version))
            with open(os.path.join(d, "src", "lib.rs"), "w") as f:
                f.write(text)
        vendor = os.path.join(nightly(), "lib/rustlib/src/rust/library/vendor")
        e = {"RUSTUP_TOOLCHAIN": "nightly", "CARGO_TARGET_DIR": os.path.join(base, "build"),
             "RUSTFLAGS": "-C target-feature=+nontrapping-fptoint"}
        crate = os.path.join(src, name)
        for junk in ("rust-toolchain.toml", "rust-toolchain", "Cargo.lock"):
            if os.path.exists(os.path.join(crate, junk)):
                os.remove(os.path.join(crate, junk))
        manifest = open(os.path.join(crate, "Cargo.toml")).read()
        with open(os.path.join(crate, "Cargo.toml"), "w") as f:
            f.write(manifest + "\n[patch.crates-io]\n" + "".join('%s = { path = "../stubs/%s" }\n' % (s, s) for s in STUBS if s in manifest or s == "libm"))
        cmd = ["cargo", "build", "--release", "--offline", "-Zbuild-std=std,panic_abort", "--target", "wasm32-unknown-unknown",
               "--config", 'source.crates-io.replace-with="rust-src"', "--config", 'source.rust-src.directory="%s"' % vendor]
        run(cmd, timeout, cwd=crate, extra_env=e)
        path = os.path.join(base, "build", "wasm32-unknown-unknown", "release", name.replace("-", "_") + ".wasm")
        return open(path, "rb").read()


ANALYSES = "wastrumentation-instr-lib/tests/analyses/rust"


def analysis(name):
    """One of the repository's own Rust analyses."""
    def populate(src):
        for c in (name, "wastrumentation-rs-stdlib"):
            shutil.copytree(os.path.join(REPO, ANALYSES, c), os.path.join(src, c), ignore=shutil.ignore_patterns("target", ".cargo", "Cargo.lock", "rust-toolchain.toml"))
    return compile_crate(name, populate)


# ------------------------------------------------- the analyses shipped with the benchmarks
SHIPPED = "benchmarking-node/input-analyses/rust"
SHIPPED_NAMES = ["block-profiling", "branches", "call-graph", "call-stack-eq-wasabi", "call-stack-wastrumentation", "coverage-branch",
                 "coverage-instruction", "cryptominer-detection", "denan", "forward", "globals", "icount", "loops", "memory-tracing",
                 "memstats", "opcodes", "safe-heap", "taint"]
MACRO = '[lib]\nproc-macro = true\n'
VARIANTS = r"""
use proc_macro::{Delimiter, TokenStream, TokenTree};
fn variants(input: TokenStream) -> (String, Vec<String>) {
    let (mut name, mut found, mut after) = (String::new(), vec![], false);
    for t in input {
        match t {
            TokenTree::Ident(i) => {
                if after { name = i.to_string() }
                after = i.to_string() == "enum";
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                for t in g.stream() {
                    if let TokenTree::Ident(i) = t { found.push(i.to_string()) }
                }
            }
            _ => {}
        }
    }
    (name, found)
}
"""
CRATES = {
    "strum": ("0.26.3", "#![no_std]\npub trait EnumCount { const COUNT: usize; }\npub use strum_macros::EnumCount;\n", 'strum_macros = { path = "../strum_macros" }\n[features]\nderive = []\n'),
    "strum_macros": ("0.26.4", VARIANTS.join(["extern crate proc_macro;", r"""
#[proc_macro_derive(EnumCount)]
pub fn enum_count(input: TokenStream) -> TokenStream {
    let (name, found) = variants(input);
    format!("impl strum::EnumCount for {name} {{ const COUNT: usize = {}; }}", found.len()).parse().unwrap()
}
"""]), MACRO),
    "enum-collections": ("1.8.0", r"""
pub use enum_collections_macros::Enumerated;
pub trait Enumerated: Copy + 'static {
    const SIZE: usize;
    const VARIANTS: &'static [Self];
    fn position(self) -> usize;
}
#[derive(Clone, Debug)]
pub struct EnumMap<K: Enumerated, V, const N: usize>([V; N], core::marker::PhantomData<K>);
impl<K: Enumerated, V: Default, const N: usize> EnumMap<K, V, N> {
    pub fn new_default() -> Self { EnumMap(core::array::from_fn(|_| V::default()), core::marker::PhantomData) }
}
impl<K: Enumerated, V, const N: usize> EnumMap<K, V, N> {
    pub fn iter(&self) -> core::slice::Iter<'_, V> { self.0.iter() }
    pub fn as_slice(&self) -> &[V] { &self.0 }
    pub const fn len(&self) -> usize { N }
}
impl<K: Enumerated, V, const N: usize> core::ops::Index<K> for EnumMap<K, V, N> {
    type Output = V;
    fn index(&self, k: K) -> &V { &self.0[k.position()] }
}
impl<K: Enumerated, V, const N: usize> core::ops::IndexMut<K> for EnumMap<K, V, N> {
    fn index_mut(&mut self, k: K) -> &mut V { &mut self.0[k.position()] }
}
""", 'enum-collections-macros = { path = "../enum-collections-macros" }\n'),
    "enum-collections-macros": ("1.8.0", VARIANTS.join(["extern crate proc_macro;", r"""
#[proc_macro_derive(Enumerated)]
pub fn enumerated(input: TokenStream) -> TokenStream {
    let (name, found) = variants(input);
    let all: Vec<String> = found.iter().map(|v| format!("{name}::{v}")).collect();
    format!("impl {name} {{ pub const SIZE: usize = {n}; }} impl enum_collections::Enumerated for {name} {{ const SIZE: usize = {n}; const VARIANTS: &'static [Self] = &[{all}]; fn position(self) -> usize {{ self as usize }} }}",
        n = found.len(), all = all.join(", ")).parse().unwrap()
}
"""]), MACRO),
    "circular-buffer": ("0.1.9", r"""#![no_std]
use core::mem::MaybeUninit;
pub struct CircularBuffer<const N: usize, T> { size: usize, start: usize, items: [MaybeUninit<T>; N] }
impl<const N: usize, T> CircularBuffer<N, T> {
    pub const fn new() -> Self { CircularBuffer { size: 0, start: 0, items: [const { MaybeUninit::uninit() }; N] } }
    pub fn len(&self) -> usize { self.size }
    pub fn is_empty(&self) -> bool { self.size == 0 }
    pub fn get(&self, i: usize) -> Option<&T> {
        if i < self.size { Some(unsafe { self.items[(self.start + i) % N].assume_init_ref() }) } else { None }
    }
    pub fn push_back(&mut self, x: T) {
        if self.size == N {
            unsafe { self.items[self.start].assume_init_drop() }
            self.items[self.start] = MaybeUninit::new(x);
            self.start = (self.start + 1) % N;
        } else {
            self.items[(self.start + self.size) % N] = MaybeUninit::new(x);
            self.size += 1;
        }
    }
}
impl<const N: usize, T> core::ops::Index<usize> for CircularBuffer<N, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T { self.get(i).expect("index out-of-bounds") }
}
""", ""),
}


def shipped():
    """The analyses shipped with the benchmarks: {name: bytes}, built together; and what could not be built."""
    base = os.path.join(VERIF, "target", "wasm")
    os.makedirs(base, exist_ok=True)
    with open(os.path.join(base, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src = os.path.join(base, "shipped")
        shutil.rmtree(src, ignore_errors=True)
        os.makedirs(src)
        found = []
        for c in SHIPPED_NAMES + ["wastrumentation-rs-stdlib"]:
            d = os.path.join(src, c)
            if not os.path.isdir(os.path.join(REPO, SHIPPED, c)):
                continue
            shutil.copytree(os.path.join(REPO, SHIPPED, c), d, ignore=shutil.ignore_patterns("target", ".cargo", "Cargo.lock", "rust-toolchain*"))
            lines, skip = [], False
            for line in open(os.path.join(d, "Cargo.toml")):
                if line.startswith("["):
                    skip = line.startswith("[workspace") or line.startswith("[profile")
                if not skip:
                    lines.append('name = "an-%s"\n' % c if line.startswith("name =") and c in SHIPPED_NAMES else line)
            with open(os.path.join(d, "Cargo.toml"), "w") as f:
                f.write("".join(lines))
            if c in SHIPPED_NAMES:
                found.append(c)
        crates = {k: (v, t, "") for k, (v, t) in STUBS.items()}
        crates.update(CRATES)
        for s, (version, text, rest) in crates.items():
            d = os.path.join(src, "stubs", s)
            os.makedirs(os.path.join(d, "src"))
            with open(os.path.join(d, "Cargo.toml"), "w") as f:
                f.write('[package]\nname = "%s"\nversion = "%s"\nedition = "2021"\n%s' % (s, version, rest if rest.startswith("[") else "[dependencies]\n" + rest))
            with open(os.path.join(d, "src", "lib.rs"), "w") as f:
                f.write(text)
        with open(os.path.join(src, "Cargo.toml"), "w") as f:
            f.write("[workspace]\nresolver = \"2\"\nmembers = [%s]\n[profile.release]\nstrip = true\nlto = true\npanic = \"abort\"\n[patch.crates-io]\n" % ", ".join('"%s"' % c for c in found))
            f.write("".join('%s = { path = "stubs/%s" }\n' % (s, s) for s in crates if not s.endswith("macros")))
        vendor = os.path.join(nightly(), "lib/rustlib/src/rust/library/vendor")
        e = {"RUSTUP_TOOLCHAIN": "nightly", "CARGO_TARGET_DIR": os.path.join(base, "build"), "RUSTFLAGS": "-C target-feature=+nontrapping-fptoint -A warnings"}
        e["RUSTFLAGS"] = "-C target-feature=+nontrapping-fptoint"
        cmd = ["cargo", "build", "--release", "--offline", "--keep-going", "-Zbuild-std=std,panic_abort", "--target", "wasm32-unknown-unknown",
               "--config", 'source.crates-io.replace-with="rust-src"', "--config", 'source.rust-src.directory="%s"' % vendor]
        out = os.path.join(base, "build", "wasm32-unknown-unknown", "release")
        for c in found:
            p = os.path.join(out, "an_%s.wasm" % c.replace("-", "_"))
            if os.path.exists(p):
                os.remove(p)
        why = ""
        try:
            run(cmd, 700, cwd=src, extra_env=e)
        except ToolError as x:
            why = str(x)[-1500:]
        res = {}
        for c in found:
            p = os.path.join(out, "an_%s.wasm" % c.replace("-", "_"))
            if os.path.exists(p):
                res[c] = open(p, "rb").read()
        return res, why
