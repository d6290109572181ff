//! Instruments modules with the real code and runs them on a WebAssembly engine
//! with a scripted analysis, recording everything observable.
use crate::hooks;
use crate::ops;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Duration;
use wasmtime::*;
use wastrumentation::analysis::ProcessedAnalysis;
use wastrumentation::compiler::{CompilationResult, Compiles};
use wastrumentation::{Configuration, Wastrumenter};
use wastrumentation_lang_webassembly::compile::compiler::Compiler;
use wastrumentation_lang_webassembly::compile::options::{CompilerOptions, WebAssemblySource};
use wastrumentation_lang_webassembly::compile::WebAssembly;

const MAX_LOG: usize = 260;

pub struct Capture(pub Rc<RefCell<Option<Vec<u8>>>>);
impl Compiles<WebAssembly> for Capture {
    type CompilerOptions = CompilerOptions;
    type CompilerSetupError = ();
    fn setup_compiler() -> Result<Self, ()> {
        Ok(Capture(Rc::new(RefCell::new(None))))
    }
    fn compile(&self, options: &CompilerOptions) -> CompilationResult<WebAssembly> {
        let module = Compiler::setup_compiler().unwrap().compile(options)?;
        *self.0.borrow_mut() = Some(module.clone());
        Ok(module)
    }
}

pub struct Product {
    pub module: Vec<u8>,
    pub library: Option<Vec<u8>>,
}

/// The instrumented module (the merge tool on PATH is `mergetool`) and the buffer library.
pub fn instrument(wasm: &[u8], hook_names: &[String], targets: &Option<Vec<u32>>) -> Result<Product, String> {
    let lib = Rc::new(RefCell::new(None));
    let analysis: ProcessedAnalysis<WebAssembly> = ProcessedAnalysis {
        analysis_library: WebAssemblySource::Wat("(module)".into()),
        analysis_interface: hooks::interface(hook_names),
    };
    let configuration = Configuration { target_indices: targets.clone(), primary_selection: None };
    let result = catch_unwind(AssertUnwindSafe(|| {
        Wastrumenter::<WebAssembly, _, WebAssembly, _>::new(
            Box::new(Capture(lib.clone())),
            Box::new(Compiler::setup_compiler().unwrap()),
        )
        .wastrument(wasm, analysis, &configuration)
    }));
    match result {
        Err(p) => Err(format!("panic: {}", panic_text(&p))),
        Ok(Err(e)) => Err(format!("error: {e:?}")),
        Ok(Ok(module)) => {
            let library = lib.borrow_mut().take();
            Ok(Product { module, library })
        }
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

// ------------------------------------------------------------------ values

pub fn bytes(v: &Val) -> J {
    match v {
        Val::I32(x) => json!(x.to_le_bytes()),
        Val::F32(x) => json!(x.to_le_bytes()),
        Val::I64(x) => json!(x.to_le_bytes()),
        Val::F64(x) => json!(x.to_le_bytes()),
        Val::FuncRef(None) | Val::ExternRef(None) => json!([]),
        _ => json!([9]),
    }
}
/// A value of any type: functions are named by what the module exports them as.
fn shown(store: &mut impl AsContextMut<Data = Ctx>, v: &Val, named: &dyn Fn(&mut StoreContextMut<'_, Ctx>, &str) -> Option<Func>) -> J {
    match v {
        Val::ExternRef(Some(x)) => match x.data(&*store).ok().flatten().and_then(|d| d.downcast_ref::<u64>().copied()) {
            Some(n) => json!([7, n]),
            None => json!([7]),
        },
        Val::FuncRef(Some(f)) => {
            let mut cx = store.as_context_mut();
            let raw = f.to_raw(&mut cx);
            for i in 0.. {
                match named(&mut cx, &format!("f{i}")) {
                    Some(g) if g.to_raw(&mut cx) == raw => return json!([9, i]),
                    Some(_) => {}
                    None => break,
                }
            }
            json!([9])
        }
        v => bytes(v),
    }
}
fn shown_all(store: &mut Store<Ctx>, instance: &Instance, vs: &[Val]) -> Vec<J> {
    let inst = *instance;
    vs.iter().map(|v| shown(store, v, &|cx, n| inst.get_func(cx, n))).collect()
}
fn given(store: &mut Store<Ctx>, instance: &Instance, t: &ValType, j: &J) -> Val {
    let a = j.as_array().unwrap();
    match t {
        ValType::Ref(_) if a.is_empty() => Val::default_for_ty(t).unwrap(),
        ValType::Ref(_) if a[0] == json!(9) => Val::FuncRef(instance.get_func(&mut *store, &format!("f{}", a[1]))),
        ValType::Ref(_) => Val::ExternRef(Some(ExternRef::new(store, a[1].as_u64().unwrap()).unwrap())),
        t => val(t, j),
    }
}
fn arr(j: &J) -> [u8; 8] {
    let mut b = [0u8; 8];
    for (i, x) in j.as_array().unwrap().iter().enumerate() {
        b[i] = x.as_u64().unwrap() as u8;
    }
    b
}
pub fn val(t: &ValType, j: &J) -> Val {
    let b = arr(j);
    from_bits(t, u64::from_le_bytes(b))
}
fn from_bits(t: &ValType, w: u64) -> Val {
    match t {
        ValType::I32 => Val::I32(w as u32 as i32),
        ValType::F32 => Val::F32(w as u32),
        ValType::I64 => Val::I64(w as i64),
        ValType::F64 => Val::F64(w),
        t => Val::default_for_ty(t).unwrap(),
    }
}
fn bits(v: &Val) -> u64 {
    match v {
        Val::I32(x) => *x as u32 as u64,
        Val::F32(x) => *x as u64,
        Val::I64(x) => *x as u64,
        Val::F64(x) => *x,
        _ => 0,
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
    fn chance(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
}

struct Ctx {
    log: Vec<J>,
    cut: bool,
    rng: Rng,
    percent: u64,
    hostcalls: u64,
    alu: Option<Instance>,
    lib: Option<Instance>,
    instance: Option<Instance>,
    /// calls whose interception is over, and where the buffers began at some such count
    applied: i64,
    base: Option<(i64, i64)>,
    refs: Vec<J>,
    analysis: Option<Instance>,
    exports: HashMap<String, Func>,
    acts: Vec<Vec<J>>,
    applies: Vec<Apply>,
}

/// An intercepted call that a compiled analysis is working on.
#[derive(Clone)]
struct Apply {
    sigv: i32,
    resc: i32,
    types: Vec<i64>,
}

fn cut_error() -> Error {
    Error::msg("CUT")
}

fn push(c: &mut Ctx, e: J) -> Result<()> {
    if c.log.len() >= MAX_LOG {
        c.cut = true;
        return Err(cut_error());
    }
    c.log.push(e);
    Ok(())
}

fn trap_kind(e: &Error) -> String {
    if let Some(t) = e.downcast_ref::<Trap>() {
        return match t {
            Trap::UnreachableCodeReached => "unreachable",
            Trap::MemoryOutOfBounds => "oob",
            Trap::TableOutOfBounds => "table",
            Trap::IndirectCallToNull => "null",
            Trap::BadSignature => "sig",
            Trap::IntegerOverflow => "overflow",
            Trap::IntegerDivisionByZero => "div0",
            Trap::BadConversionToInteger => "conv",
            Trap::OutOfFuel => "cut",
            Trap::StackOverflow => "cut",
            _ => "other",
        }
        .into();
    }
    let t = format!("{e:?}");
    if t.contains("CUT") {
        return "cut".into();
    }
    format!("error {}", e.root_cause())
}

fn export(caller: &mut Caller<'_, Ctx>, name: &str) -> Result<Func> {
    if let Some(f) = caller.data().exports.get(name) {
        return Ok(*f);
    }
    match caller.get_export(name) {
        Some(Extern::Func(f)) => Ok(f),
        _ => Err(Error::msg(format!("missing export {name}"))),
    }
}

/// Calls an access export; the offset is passed as 32 bits.
fn access(caller: &mut Caller<'_, Ctx>, actions: &mut Vec<J>, kind: &str, code: usize, args: &[Val]) -> Result<Option<Val>> {
    let name = match kind {
        "L" => format!("instrumented_base_load_{}", ops::LOADS.get(code.wrapping_sub(1)).copied().unwrap_or("?")),
        "S" => format!("instrumented_base_store_{}", ops::STORES.get(code.wrapping_sub(1)).copied().unwrap_or("?")),
        "G" => "instrumented_memory_grow".to_string(),
        _ => "instrumented_memory_size".to_string(),
    };
    let f = export(caller, &name)?;
    let n = f.ty(&*caller).results().len();
    let mut out = vec![Val::I32(0); n];
    let r = f.call(&mut *caller, args, &mut out);
    let mut e = json!({"k": kind, "c": code, "a": args.iter().map(bytes).collect::<Vec<_>>(), "t": "", "r": []});
    match &r {
        Ok(()) => {
            if n > 0 {
                e["r"] = bytes(&out[0]);
            }
            actions.push(e);
            Ok(out.into_iter().next())
        }
        Err(err) => {
            e["t"] = json!(trap_kind(err));
            actions.push(e);
            r.map(|()| None)
        }
    }
}

fn alu(caller: &mut Caller<'_, Ctx>, family: &str, code: i32, args: &[Val]) -> Result<Val> {
    let inst = caller.data().alu.expect("alu");
    let name = format!("{family}{code}");
    let f = inst
        .get_func(&mut *caller, &name)
        .ok_or_else(|| Error::msg(format!("no operator {name}")))?;
    let ty = f.ty(&*caller);
    let mut out = vec![Val::I32(0)];
    if ty.params().len() != args.len() || !ty.params().zip(args).all(|(p, a)| a.matches_ty(&*caller, &p).unwrap_or(false)) {
        return Err(Error::msg(format!("operator {name} with other operand types")));
    }
    f.call(&mut *caller, args, &mut out)?;
    Ok(out[0])
}

fn shake(rng: &mut Rng, t: &ValType, v: Val) -> Val {
    let w = bits(&v);
    let r = match rng.below(6) {
        0 => w.wrapping_add(1),
        1 => 0,
        2 => u64::MAX,
        3 => rng.next(),
        4 => 1,
        _ => w.wrapping_sub(1),
    };
    from_bits(t, r)
}

/// The scripted analysis: records the notification and answers it.
fn on_event(mut caller: Caller<'_, Ctx>, name: &str, ty: &FuncType, args: &[Val], results: &mut [Val]) -> Result<()> {
    let mut actions: Vec<J> = vec![];
    let logged: Vec<J> = args.iter().map(bytes).collect();
    let at = caller.data().log.len();
    push(caller.data_mut(), json!({"k": "ev", "n": name, "a": logged, "x": [], "r": [], "t": ""}))?;
    let r = match caller.data().analysis {
        None => answer(&mut caller, name, ty, args, &mut actions),
        Some(analysis) => {
            keep_exports(&mut caller)?;
            caller.data_mut().acts.push(vec![]);
            let r = compiled_answer(&mut caller, analysis, name, args, results.len());
            actions = caller.data_mut().acts.pop().unwrap();
            r
        }
    };
    let e = &mut caller.data_mut().log[at];
    e["x"] = J::Array(actions);
    match r {
        Ok(v) => {
            if let (Some(v), Some(slot)) = (v, results.first_mut()) {
                e["r"] = bytes(&v);
                *slot = v;
            }
            Ok(())
        }
        Err(err) => {
            e["t"] = json!(trap_kind(&err));
            Err(err)
        }
    }
}

/// What a compiled analysis answers when it is asked for its results.
fn questions(store: &mut Store<Ctx>, asked: &J) -> Vec<J> {
    let (Some(asked), Some(analysis)) = (asked.as_array(), store.data().analysis) else { return vec![] };
    let mut answers = vec![];
    for q in asked {
        store.set_fuel(1_000_000).unwrap();
        let given: Vec<i64> = q["a"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        let mut it = json!({"q": q["q"], "a": q["a"], "r": [], "t": ""});
        match analysis.get_func(&mut *store, q["q"].as_str().unwrap()) {
            None => it["t"] = json!("missing"),
            Some(f) => {
                let ty = f.ty(&*store);
                let args: Vec<Val> = ty.params().zip(&given).map(|(t, x)| if matches!(t, ValType::I64) { Val::I64(*x) } else { Val::I32(*x as i32) }).collect();
                let mut out = vec![Val::I32(0); ty.results().len()];
                match f.call(&mut *store, &args, &mut out) {
                    Ok(()) => it["r"] = json!(out.iter().map(bytes).collect::<Vec<J>>()),
                    Err(_) => it["t"] = json!("trap"),
                }
            }
        }
        answers.push(it);
    }
    answers
}

/// What a compiled analysis may call back.
fn keep_exports(caller: &mut Caller<'_, Ctx>) -> Result<()> {
    if !caller.data().exports.is_empty() {
        return Ok(());
    }
    let names = ops::LOADS.iter().map(|x| format!("instrumented_base_load_{x}"))
        .chain(ops::STORES.iter().map(|x| format!("instrumented_base_store_{x}")))
        .chain(["instrumented_memory_grow", "instrumented_memory_size", "call_base"].map(String::from));
    let mut found = HashMap::new();
    for n in names {
        if let Some(Extern::Func(f)) = caller.get_export(&n) {
            found.insert(n, f);
        }
    }
    caller.data_mut().exports = found;
    Ok(())
}

fn compiled_answer(caller: &mut Caller<'_, Ctx>, analysis: Instance, name: &str, args: &[Val], n: usize) -> Result<Option<Val>> {
    let f = analysis.get_func(&mut *caller, name).ok_or_else(|| Error::msg(format!("the analysis has no {name}")))?;
    if f.ty(&*caller).results().len() != n {
        return Err(Error::msg(format!("the analysis has {name} with another type")));
    }
    let mut out = vec![Val::I32(0); n];
    f.call(&mut *caller, args, &mut out)?;
    Ok(out.into_iter().next())
}

fn read_slots(caller: &mut Caller<'_, Ctx>, sigv: i32, types: &[i64], from: usize) -> Result<Vec<J>> {
    let mut vals = vec![];
    for i in from..types.len() {
        let t = GENERIC.get(types[i] as usize).copied().unwrap_or("?");
        let v = lib_call(caller, &format!("wastrumentation_stack_load_{t}"), &[Val::I32(sigv), Val::I32(i as i32)])?.unwrap();
        vals.push(bytes(&v));
    }
    Ok(vals)
}

/// An import of a compiled analysis: passed on to the program, and recorded.
fn on_import(mut caller: Caller<'_, Ctx>, module: &str, name: &str, args: &[Val], results: &mut [Val]) -> Result<()> {
    if module == "wastrumentation_stack" {
        let r = lib_call(&mut caller, name, args)?;
        if let (Some(v), Some(slot)) = (r, results.first_mut()) {
            *slot = v;
        }
        if name.starts_with("wastrumentation_stack_store_") {
            let (ptr, i) = (bits(&args[0]) as u32 as i32, bits(&args[2]) as u32 as i32);
            let a = caller.data().applies.iter().rev().find(|a| a.sigv == ptr).cloned();
            if let Some(a) = a {
                let e = if i < a.resc { json!({"k": "rset", "i": i, "v": bytes(&args[1])}) } else { json!({"k": "aset", "i": i - a.resc, "v": bytes(&args[1])}) };
                return push(caller.data_mut(), e);
            }
        }
        return Ok(());
    }
    if name == "call_base" {
        push(caller.data_mut(), json!({"k": "cb"}))?;
        let f = export(&mut caller, name)?;
        f.call(&mut caller, args, &mut [])?;
        let sigv = bits(&args[1]) as u32 as i32;
        let a = caller.data().applies.iter().rev().find(|a| a.sigv == sigv).cloned().ok_or_else(|| Error::msg("call_base outside of an apply"))?;
        let now = read_slots(&mut caller, sigv, &a.types, 0)?;
        return push(caller.data_mut(), json!({"k": "cbr", "v": now}));
    }
    let code = |list: &[&str], rest: &str| list.iter().position(|x| *x == rest).map_or(0, |i| i + 1);
    let (kind, c) = if let Some(x) = name.strip_prefix("instrumented_base_load_") {
        ("L", code(&ops::LOADS, x))
    } else if let Some(x) = name.strip_prefix("instrumented_base_store_") {
        ("S", code(&ops::STORES, x))
    } else if name == "instrumented_memory_grow" {
        ("G", 0)
    } else if name == "instrumented_memory_size" {
        ("Z", 0)
    } else {
        return Err(Error::msg(format!("unknown import {name} of the analysis")));
    };
    let mut actions = vec![];
    let r = access(&mut caller, &mut actions, kind, c, args);
    if let Some(a) = caller.data_mut().acts.last_mut() {
        a.append(&mut actions);
    }
    if let (Some(v), Some(slot)) = (r?, results.first_mut()) {
        *slot = v;
    }
    Ok(())
}

fn answer(caller: &mut Caller<'_, Ctx>, name: &str, ty: &FuncType, args: &[Val], actions: &mut Vec<J>) -> Result<Option<Val>> {
    let percent = caller.data().percent;
    let change = percent > 0 && caller.data_mut().rng.chance(percent);
    let i32_of = |v: &Val| bits(v) as u32 as i32;
    let offset = |v: &Val| Val::I32(bits(v) as u32 as i32);
    if ty.results().len() == 0 {
        if name.ends_with("_store") {
            let code = i32_of(&args[3]) as usize;
            if change {
                match caller.data_mut().rng.below(4) {
                    0 => return Ok(None),
                    1 => {
                        let t = args[1].ty(&*caller)?;
                        let v = shake(&mut caller.data_mut().rng, &t, args[1]);
                        access(caller, actions, "S", code, &[args[0], v, offset(&args[2])])?;
                        return Ok(None);
                    }
                    2 => {
                        // a further access before the original one
                        let p = caller.data_mut().rng.below(80) as i32;
                        access(caller, actions, "L", 1, &[Val::I32(p), Val::I32(0)])?;
                    }
                    _ => {
                        access(caller, actions, "Z", 0, &[Val::I32(0)])?;
                    }
                }
            }
            access(caller, actions, "S", code, &[args[0], args[1], offset(&args[2])])?;
        }
        return Ok(None);
    }
    let rt = ty.results().next().unwrap();
    let base = if name.ends_with("_load") {
        let code = i32_of(&args[2]) as usize;
        if change && caller.data_mut().rng.chance(50) {
            from_bits(&rt, 7) // answers without looking at the memory
        } else {
            access(caller, actions, "L", code, &[args[0], offset(&args[1])])?.unwrap()
        }
    } else if name == "trap_memory_grow" {
        if change && caller.data_mut().rng.chance(50) {
            Val::I32(-1)
        } else {
            access(caller, actions, "G", 0, &[args[0], offset(&args[1])])?.unwrap()
        }
    } else if name.starts_with("unary_") {
        alu(caller, "u", i32_of(&args[1]), &args[..1])?
    } else if name.starts_with("binary_") {
        alu(caller, "b", i32_of(&args[2]), &args[..2])?
    } else {
        args[0]
    };
    if !change {
        return Ok(Some(base));
    }
    let rng = &mut caller.data_mut().rng;
    Ok(Some(match name {
        "specialized_br_table" => {
            let n = rng.below(9);
            Val::I32(if n == 8 { -1 } else { n as i32 })
        }
        "specialized_call_indirect_pre" => Val::I32(rng.below(5) as i32),
        "specialized_select" | "specialized_br_if" | "specialized_if_then_k" | "specialized_if_then_else_k" => {
            Val::I32([0, 1, -1, i32::MIN][rng.below(4) as usize])
        }
        _ => shake(rng, &rt, base),
    }))
}

const GENERIC: [&str; 4] = ["i32", "f32", "i64", "f64"];

fn lib_call(caller: &mut Caller<'_, Ctx>, name: &str, args: &[Val]) -> Result<Option<Val>> {
    let lib = caller.data().lib.ok_or_else(|| Error::msg("no buffer library"))?;
    let f = lib
        .get_func(&mut *caller, name)
        .ok_or_else(|| Error::msg(format!("buffer library without {name}")))?;
    let n = f.ty(&*caller).results().len();
    let mut out = vec![Val::I32(0); n];
    f.call(&mut *caller, args, &mut out)?;
    Ok(out.into_iter().next())
}

/// The whole-function interception protocol, seen from the analysis.
fn on_apply(mut caller: Caller<'_, Ctx>, args: &[Val]) -> Result<()> {
    let a: Vec<i32> = args.iter().map(|v| bits(v) as u32 as i32).collect();
    let (f_apply, func, argc, resc, sigv, sigtypv, present) = (a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    let slots = (argc + resc).clamp(0, 64);
    let mut types = vec![];
    for i in 0..slots {
        let t = lib_call(&mut caller, "wastrumentation_stack_load_type", &[Val::I32(sigtypv), Val::I32(i)])?;
        types.push(bits(&t.unwrap()) as i64);
    }
    let read = |caller: &mut Caller<'_, Ctx>, i: i32| -> Result<Val> {
        let t = GENERIC.get(types[i as usize] as usize).copied().unwrap_or("?");
        Ok(lib_call(caller, &format!("wastrumentation_stack_load_{t}"), &[Val::I32(sigv), Val::I32(i)])?.unwrap())
    };
    let write = |caller: &mut Caller<'_, Ctx>, i: i32, v: Val| -> Result<()> {
        let t = GENERIC.get(types[i as usize] as usize).copied().unwrap_or("?");
        lib_call(caller, &format!("wastrumentation_stack_store_{t}"), &[Val::I32(sigv), v, Val::I32(i)])?;
        Ok(())
    };
    let mut vals = vec![];
    for i in resc..slots {
        vals.push(bytes(&read(&mut caller, i)?));
    }
    push(
        caller.data_mut(),
        json!({"k": "ap", "f": func, "argc": argc, "resc": resc, "present": present, "t": types, "v": vals}),
    )?;
    if let Some(analysis) = caller.data().analysis {
        keep_exports(&mut caller)?;
        caller.data_mut().applies.push(Apply { sigv, resc, types: types.clone() });
        compiled_answer(&mut caller, analysis, "generic_apply", args, 0)?;
        caller.data_mut().applies.pop();
        caller.data_mut().applied += 1;
        return push(caller.data_mut(), json!({"k": "apd"}));
    }
    let percent = caller.data().percent;
    let vt = |i: i32| match types[i as usize] {
        0 => ValType::I32,
        1 => ValType::F32,
        2 => ValType::I64,
        _ => ValType::F64,
    };
    let set = |caller: &mut Caller<'_, Ctx>, i: i32| -> Result<()> {
        let v0 = from_bits(&vt(i), 5);
        let v = shake(&mut caller.data_mut().rng, &vt(i), v0);
        write(caller, i, v)?;
        let e = if i < resc { json!({"k": "rset", "i": i, "v": bytes(&v)}) } else { json!({"k": "aset", "i": i - resc, "v": bytes(&v)}) };
        push(caller.data_mut(), e)
    };
    let mut times = 1;
    if percent > 0 && caller.data_mut().rng.chance(percent) {
        times = caller.data_mut().rng.below(3);
    }
    for _ in 0..times {
        for i in resc..slots {
            if percent > 0 && caller.data_mut().rng.chance(percent) {
                set(&mut caller, i)?;
            }
        }
        push(caller.data_mut(), json!({"k": "cb"}))?;
        let f = export(&mut caller, "call_base")?;
        f.call(&mut caller, &[Val::I32(f_apply), Val::I32(sigv)], &mut [])?;
        let mut now = vec![];
        for i in 0..slots {
            now.push(bytes(&read(&mut caller, i)?));
        }
        push(caller.data_mut(), json!({"k": "cbr", "v": now}))?;
    }
    for i in 0..resc {
        if times == 0 || (percent > 0 && caller.data_mut().rng.chance(percent)) {
            set(&mut caller, i)?;
        }
    }
    caller.data_mut().applied += 1;
    push(caller.data_mut(), json!({"k": "apd"}))
}

/// Memories with room behind the last byte: wasmtime 37 reads 16 bytes for the
/// 8-byte operand of f64.copysign (the value is unaffected).
struct Slack;
struct SlackMemory {
    bytes: Vec<u8>,
    size: usize,
}
const ROOM: usize = 64;
unsafe impl MemoryCreator for Slack {
    fn new_memory(&self, _: MemoryType, minimum: usize, _: Option<usize>, _: Option<usize>, _: usize) -> std::result::Result<Box<dyn LinearMemory>, String> {
        Ok(Box::new(SlackMemory { bytes: vec![0; minimum + ROOM], size: minimum }))
    }
}
unsafe impl LinearMemory for SlackMemory {
    fn byte_size(&self) -> usize {
        self.size
    }
    fn byte_capacity(&self) -> usize {
        self.size
    }
    fn grow_to(&mut self, n: usize) -> Result<()> {
        self.bytes.resize(n + ROOM, 0);
        self.size = n;
        Ok(())
    }
    fn as_ptr(&self) -> *mut u8 {
        self.bytes.as_ptr() as *mut u8
    }
}

/// 1 when the buffers of calls that are over keep taking up room, else 0.
fn buffers_kept(store: &mut Store<Ctx>) -> i64 {
    let Some(lib) = store.data().lib else { return 0 };
    let Some(make) = lib.exports(&mut *store).map(|e| e.name().to_string()).find(|n| n.starts_with("allocate_types_")) else { return 0 };
    store.set_fuel(1_000_000).unwrap();
    let mut at = [Val::I32(0)];
    let Some(f) = lib.get_func(&mut *store, &make) else { return 0 };
    let Some(g) = lib.get_func(&mut *store, &make.replacen("allocate_types_", "free_types_", 1)) else { return 0 };
    if f.call(&mut *store, &[], &mut at).is_err() || g.call(&mut *store, &at, &mut []).is_err() {
        return 1;
    }
    let (at, applied) = (bits(&at[0]) as i64, store.data().applied);
    match store.data().base {
        None => {
            store.data_mut().base = Some((at, applied));
            0
        }
        Some((from, since)) => i64::from(applied - since >= 16 && at - from >= 4 * (applied - since)),
    }
}

pub struct Runner {
    pub engine: Engine,
    alu: Module,
    analyses: RefCell<HashMap<String, Module>>,
}

impl Runner {
    pub fn new() -> Self {
        let mut config = Config::new();
        config
            .consume_fuel(true)
            .cranelift_nan_canonicalization(true)
            .wasm_reference_types(true)
            .wasm_multi_value(true)
            .wasm_bulk_memory(true)
            .cranelift_opt_level(OptLevel::None)
            .memory_reservation(0)
            .memory_guard_size(0)
            .signals_based_traps(false)
            .max_wasm_stack(8 << 20)
            .memory_init_cow(false)
            .with_host_memory(std::sync::Arc::new(Slack));
        let engine = Engine::new(&config).unwrap();
        let alu = Module::new(&engine, wat::parse_str(ops::alu_wat()).unwrap()).unwrap();
        Runner { engine, alu, analyses: RefCell::new(HashMap::new()) }
    }

    /// Runs `calls` on a module and returns the record.
    pub fn run(&self, wasm: &[u8], library: Option<&[u8]>, case: &J, analysis: bool) -> J {
        let module = match Module::new(&self.engine, wasm) {
            Ok(m) => m,
            Err(e) => return json!({"invalid": format!("{e:?}")}),
        };
        let strategy = &case["strategy"];
        let percent = if analysis { strategy["percent"].as_u64().unwrap_or(0) } else { 0 };
        let mut store = Store::new(
            &self.engine,
            Ctx {
                log: vec![],
                cut: false,
                rng: Rng(strategy["seed"].as_u64().unwrap_or(1) * 2 + 1),
                percent,
                hostcalls: 0,
                alu: None,
                lib: None,
                instance: None,
                applied: 0,
                base: None,
                refs: vec![],
                analysis: None,
                exports: HashMap::new(),
                acts: vec![],
                applies: vec![],
            },
        );
        for _ in 0..8 {
            store.data_mut().rng.next();
        }
        let fuel: u64 = if analysis { 3_000_000 } else { 300_000 };
        store.set_fuel(fuel).unwrap();
        let alu = Instance::new(&mut store, &self.alu, &[]).unwrap();
        store.data_mut().alu = Some(alu);
        let mut linker: Linker<Ctx> = Linker::new(&self.engine);
        if let Some(lib) = library {
            let lib = match Module::new(&self.engine, lib) {
                Ok(m) => m,
                Err(e) => return json!({"invalid": format!("buffer library: {e:?}")}),
            };
            let inst = match Instance::new(&mut store, &lib, &[]) {
                Ok(i) => i,
                Err(e) => return json!({"invalid": format!("buffer library: {e:?}")}),
            };
            linker.instance(&mut store, "wastrumentation_stack", inst).unwrap();
            store.data_mut().lib = Some(inst);
        }
        if let (true, Some(path)) = (analysis, case["analysis"].as_str()) {
            let found = self.analyses.borrow().get(path).cloned();
            let m = match found {
                Some(m) => m,
                None => {
                    let m = Module::new(&self.engine, std::fs::read(path).expect("analysis")).expect("analysis");
                    self.analyses.borrow_mut().insert(path.to_string(), m.clone());
                    m
                }
            };
            let mut own: Linker<Ctx> = Linker::new(&self.engine);
            for import in m.imports() {
                let (module, name) = (import.module().to_string(), import.name().to_string());
                if let ExternType::Func(ty) = import.ty() {
                    let (x, y) = (module.clone(), name.clone());
                    let f = Func::new(&mut store, ty, move |caller, args, results| on_import(caller, &x, &y, args, results));
                    own.define(&store, &module, &name, f).unwrap();
                }
            }
            store.data_mut().analysis = Some(own.instantiate(&mut store, &m).expect("analysis"));
        }
        let mut seen: HashMap<(String, String), ()> = HashMap::new();
        for import in module.imports() {
            let (m, n) = (import.module().to_string(), import.name().to_string());
            if m == "wastrumentation_stack" || seen.insert((m.clone(), n.clone()), ()).is_some() {
                continue;
            }
            match import.ty() {
                ExternType::Func(ty) => {
                    let f = if m == "WASTRUMENTATION_ANALYSIS" && n == "generic_apply" {
                        Func::new(&mut store, ty, move |caller, args, _| on_apply(caller, args))
                    } else if m == "WASTRUMENTATION_ANALYSIS" {
                        let (name, t) = (n.clone(), ty.clone());
                        Func::new(&mut store, ty, move |caller, args, results| on_event(caller, &name, &t, args, results))
                    } else {
                        let (name, t) = (n.clone(), ty.clone());
                        Func::new(&mut store, ty, move |mut caller, args, results| {
                            let mut seen = vec![];
                            for a in args {
                                seen.push(match a {
                                    Val::FuncRef(Some(f)) => {
                                        let raw = f.to_raw(&mut caller);
                                        let mut it = json!([9]);
                                        for i in 0.. {
                                            let name = format!("f{i}");
                                            let found = match caller.data().instance {
                                                Some(x) => x.get_export(&mut caller, &name),
                                                None => caller.get_export(&name),
                                            };
                                            match found {
                                                Some(Extern::Func(g)) if g.to_raw(&mut caller) == raw => {
                                                    it = json!([9, i]);
                                                    break;
                                                }
                                                Some(_) => {}
                                                None => break,
                                            }
                                        }
                                        it
                                    }
                                    a => shown(&mut caller, a, &|_, _| None),
                                });
                            }
                            let c = caller.data_mut();
                            c.hostcalls += 1;
                            let mut w = c.hostcalls.wrapping_mul(37) % 23;
                            for (slot, t) in results.iter_mut().zip(t.results()) {
                                *slot = from_bits(&t, w);
                                w += 1;
                            }
                            let e = json!({"k": "host", "n": name, "a": seen,
                                           "r": results.iter().map(bytes).collect::<Vec<_>>()});
                            push(c, e)
                        })
                    };
                    linker.define(&store, &m, &n, f).unwrap();
                }
                ExternType::Global(ty) => {
                    let v = from_bits(ty.content(), 11);
                    let g = Global::new(&mut store, ty, v).unwrap();
                    linker.define(&store, &m, &n, g).unwrap();
                }
                ExternType::Memory(ty) => {
                    let g = Memory::new(&mut store, ty).unwrap();
                    linker.define(&store, &m, &n, g).unwrap();
                }
                ExternType::Table(ty) => {
                    let none = if ty.element().heap_type().is_extern() { Ref::Extern(None) } else { Ref::Func(None) };
                    let g = Table::new(&mut store, ty, none).unwrap();
                    linker.define(&store, &m, &n, g).unwrap();
                }
                _ => {}
            }
        }
        let start = case["start"].as_i64().unwrap_or(-1);
        if start >= 0 {
            store.data_mut().log.push(json!({"k": "call", "f": start, "a": []}));
        }
        let instance = match linker.instantiate(&mut store, &module) {
            Ok(i) => i,
            Err(e) if start >= 0 && store.data().cut || trap_kind(&e) == "cut" => {
                store.data_mut().log.push(json!({"k": "cut"}));
                return json!({"log": store.data().log, "cut": true});
            }
            Err(e) if start >= 0 && e.downcast_ref::<Trap>().is_some() => {
                // without an instance there is no state to look at
                store.data_mut().log.push(json!({"k": "trap", "t": trap_kind(&e)}));
                return json!({"log": store.data().log, "cut": false});
            }
            Err(e) => return json!({"unlinkable": format!("{e:?}")}),
        };
        store.data_mut().instance = Some(instance);
        let (mut cut, mut hang) = (false, false);
        let mut spent = fuel - store.get_fuel().unwrap();
        if start >= 0 {
            store.data_mut().log.push(json!({"k": "ret", "r": []}));
            let st = self.state(&mut store, &instance, case, false);
            store.data_mut().log.push(st);
        }
        buffers_kept(&mut store);
        for call in case["calls"].as_array().unwrap() {
            if store.data().log.len() + 20 >= MAX_LOG {
                cut = true;
                break;
            }
            let index = call["f"].as_u64().unwrap();
            let Some(f) = instance.get_func(&mut store, &format!("f{index}")) else {
                return json!({"unlinkable": format!("function export f{index} is gone")});
            };
            let ty = f.ty(&store);
            let args: Vec<Val> = ty.params().zip(call["a"].as_array().unwrap()).map(|(t, a)| given(&mut store, &instance, &t, a)).collect();
            let mut out: Vec<Val> = ty.results().map(|t| from_bits(&t, 0)).collect();
            store.data_mut().log.push(json!({"k": "call", "f": index, "a": call["a"]}));
            store.set_fuel(fuel).unwrap();
            let r = f.call(&mut store, &args, &mut out);
            spent += fuel - store.get_fuel().unwrap();
            let kind = r.as_ref().err().map(trap_kind);
            hang = r.as_ref().err().is_some_and(|e| e.downcast_ref::<Trap>() == Some(&Trap::OutOfFuel));
            let e = match &kind {
                None => json!({"k": "ret", "r": shown_all(&mut store, &instance, &out)}),
                Some(k) if k == "cut" => json!({"k": "cut"}),
                Some(k) => json!({"k": "trap", "t": k}),
            };
            store.data_mut().log.push(e);
            if kind.as_deref() == Some("cut") || store.data().cut {
                cut = true;
                break;
            }
            let st = self.state(&mut store, &instance, case, kind.is_some());
            store.data_mut().log.push(st);
        }
        let _ = Duration::ZERO;
        let _ = &store.data().refs;
        let reports = if analysis && !cut { questions(&mut store, &case["questions"]) } else { vec![] };
        json!({"log": store.data().log, "cut": cut, "spent": spent, "hang": hang, "reports": reports})
    }

    fn state(&self, store: &mut Store<Ctx>, instance: &Instance, case: &J, trapped: bool) -> J {
        if trapped {
            store.data_mut().base = None; // nothing is given back when a call is abandoned
        }
        let kept = buffers_kept(store);
        let mut globals = vec![];
        for (i, _) in case["globals"].as_array().unwrap().iter().enumerate() {
            match instance.get_global(&mut *store, &format!("g{i}")) {
                Some(g) => {
                    let v = g.get(&mut *store);
                    globals.extend(shown_all(store, instance, &[v]));
                }
                None => globals.push(json!("gone")),
            }
        }
        let (mut pages, mut mem) = (0, vec![]);
        if case["mem"]["has"] == json!(1) {
            if let Some(m) = instance.get_memory(&mut *store, "mem") {
                pages = m.size(&*store);
                for (i, b) in m.data(&*store).iter().enumerate() {
                    if *b != 0 {
                        mem.push(json!([i, b]));
                    }
                }
            }
        }
        let mut tables = vec![];
        for i in 0..case["tables"].as_u64().unwrap_or(0) {
            match instance.get_table(&mut *store, &format!("tab{i}")) {
                Some(t) => {
                    let n = t.size(&*store);
                    let vs: Vec<Val> = (0..n).map(|j| Val::from(t.get(&mut *store, j).unwrap())).collect();
                    tables.push(J::Array(shown_all(store, instance, &vs)));
                }
                None => tables.push(json!("gone")),
            }
        }
        json!({"k": "state", "g": globals, "pages": pages, "m": mem, "tb": tables, "buf": kept})
    }
}

pub fn strings(j: &J) -> Vec<String> {
    j.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}

pub fn targets(j: &J) -> Option<Vec<u32>> {
    j.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect())
}

/// One case: runs the original and each configuration of the instrumented module.
pub fn case(runner: &Runner, case: &J) -> J {
    let wasm = match wat::parse_str(case["wat"].as_str().unwrap()) {
        Ok(w) => w,
        Err(e) => return json!({"id": case["id"], "bad_wat": e.to_string()}),
    };
    let mut out = json!({"id": case["id"]});
    out["orig"] = runner.run(&wasm, None, case, false);
    if case["configs"].is_array() {
        let mut runs = vec![];
        for config in case["configs"].as_array().unwrap() {
            let hook_names = strings(&config["hooks"]);
            let r = match instrument(&wasm, &hook_names, &targets(&config["targets"])) {
                Err(e) => json!({"refused": e}),
                Ok(p) => {
                    let mut with = case.clone();
                    with["strategy"] = config["strategy"].clone();
                    with["analysis"] = config["analysis"].clone();
                    with["questions"] = config["questions"].clone();
                    let mut r = runner.run(&p.module, p.library.as_deref(), &with, true);
                    if config["keep"] == json!(true) {
                        r["wat"] = json!(wasmprinter_text(&p.module));
                    }
                    r
                }
            };
            runs.push(r);
        }
        out["runs"] = J::Array(runs);
    }
    out
}

fn wasmprinter_text(module: &[u8]) -> String {
    module.iter().map(|b| format!("{b:02x}")).collect()
}
