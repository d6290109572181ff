//! Stand-in for `wasabi_wasm`: a mutable module representation with flat bodies.
#![allow(clippy::all)]

mod codec;
mod ops;
pub mod types;

pub use codec::{EncodeError, ParseError};
pub use ops::{BinaryOp, LoadOp, StoreOp, UnaryOp};

use std::collections::HashSet;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::sync::Mutex;

// ---------------------------------------------------------------- indices

pub struct Idx<T>(u32, PhantomData<fn() -> T>);

impl<T> Idx<T> {
    pub fn to_u32(self) -> u32 {
        self.0
    }
    pub fn to_usize(self) -> usize {
        self.0 as usize
    }
}
impl<T> Clone for Idx<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Idx<T> {}
impl<T> PartialEq for Idx<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T> Eq for Idx<T> {}
impl<T> PartialOrd for Idx<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<T> Ord for Idx<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<T> Hash for Idx<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<T> fmt::Debug for Idx<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Idx({})", self.0)
    }
}
impl<T> From<u32> for Idx<T> {
    fn from(v: u32) -> Self {
        Idx(v, PhantomData)
    }
}
impl<T> From<usize> for Idx<T> {
    fn from(v: usize) -> Self {
        Idx(u32::try_from(v).expect("index fits in u32"), PhantomData)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Label(u32);
impl Label {
    pub fn to_u32(self) -> u32 {
        self.0
    }
    pub fn to_usize(self) -> usize {
        self.0 as usize
    }
}
impl From<u32> for Label {
    fn from(v: u32) -> Self {
        Label(v)
    }
}
impl From<usize> for Label {
    fn from(v: usize) -> Self {
        Label(u32::try_from(v).expect("label fits in u32"))
    }
}

// ---------------------------------------------------------------- types

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum RefType {
    ExternRef,
    FuncRef,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum ValType {
    I32,
    I64,
    F32,
    F64,
    Ref(RefType),
}

impl ValType {
    /// Default (zero) value of a numeric type.
    pub fn zero(self) -> Val {
        match self {
            ValType::I32 => Val::I32(0),
            ValType::I64 => Val::I64(0),
            ValType::F32 => Val::F32(F32(0)),
            ValType::F64 => Val::F64(F64(0)),
            ValType::Ref(_) => panic!("no constant for reference types"),
        }
    }
}

/// Interned, hence `Copy`.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct FunctionType {
    inputs: &'static [ValType],
    results: &'static [ValType],
}

fn intern(types: &[ValType]) -> &'static [ValType] {
    static POOL: Mutex<Option<HashSet<&'static [ValType]>>> = Mutex::new(None);
    let mut pool = POOL.lock().unwrap();
    let pool = pool.get_or_insert_with(HashSet::new);
    if let Some(found) = pool.get(types) {
        return found;
    }
    let leaked: &'static [ValType] = Box::leak(types.to_vec().into_boxed_slice());
    pool.insert(leaked);
    leaked
}

impl FunctionType {
    pub fn new(inputs: &[ValType], results: &[ValType]) -> Self {
        Self {
            inputs: intern(inputs),
            results: intern(results),
        }
    }
    pub fn empty() -> Self {
        Self::new(&[], &[])
    }
    pub fn inputs(&self) -> &'static [ValType] {
        self.inputs
    }
    pub fn results(&self) -> &'static [ValType] {
        self.results
    }
}
impl fmt::Debug for FunctionType {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "FunctionType({:?} -> {:?})", self.inputs, self.results)
    }
}

// ---------------------------------------------------------------- values

/// Floats compare, order and hash by bit pattern.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct F32(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct F64(pub u64);
impl fmt::Debug for F32 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", f32::from_bits(self.0))
    }
}
impl fmt::Debug for F64 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", f64::from_bits(self.0))
    }
}
impl From<f32> for F32 {
    fn from(v: f32) -> Self {
        F32(v.to_bits())
    }
}
impl From<f64> for F64 {
    fn from(v: f64) -> Self {
        F64(v.to_bits())
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    I32(i32),
    I64(i64),
    F32(F32),
    F64(F64),
}

// ---------------------------------------------------------------- instructions

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum LocalOp {
    Get,
    Set,
    Tee,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum GlobalOp {
    Get,
    Set,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Memarg {
    pub alignment_exp: u8,
    pub offset: u32,
}
impl Memarg {
    pub fn default<T: ops::MemoryOp>(op: T) -> Self {
        Memarg {
            alignment_exp: op.natural_alignment_exp(),
            offset: 0,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Instr {
    Unreachable,
    Nop,

    Block(FunctionType),
    Loop(FunctionType),
    If(FunctionType),
    Else,
    End,

    Br(Label),
    BrIf(Label),
    BrTable { table: Box<[Label]>, default: Label },

    Return,
    Call(Idx<Function>),
    CallIndirect(FunctionType, Idx<Table>),

    RefNull(RefType),
    RefIsNull,
    RefFunc(Idx<Function>),

    Drop,
    Select,
    TypedSelect(ValType),

    Local(LocalOp, Idx<Local>),
    Global(GlobalOp, Idx<Global>),

    TableGet(Idx<Table>),
    TableSet(Idx<Table>),
    TableSize(Idx<Table>),
    TableGrow(Idx<Table>),
    TableFill(Idx<Table>),
    TableCopy(Idx<Table>, Idx<Table>),
    TableInit(Idx<Table>, Idx<Element>),
    ElemDrop(Idx<Element>),

    Load(LoadOp, Memarg),
    Store(StoreOp, Memarg),

    MemorySize(Idx<Memory>),
    MemoryGrow(Idx<Memory>),
    MemoryFill,
    MemoryCopy,
    MemoryInit(Idx<Data>),
    DataDrop(Idx<Data>),

    Const(Val),
    Unary(UnaryOp),
    Binary(BinaryOp),
}

pub type Expr = Vec<Instr>;

// ---------------------------------------------------------------- module

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Limits {
    pub initial_size: u32,
    pub max_size: Option<u32>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ImportOrPresent<T> {
    Import(String, String),
    Present(T),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Local {
    pub type_: ValType,
    pub name: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Code {
    pub locals: Vec<Local>,
    pub body: Expr,
}
impl Code {
    pub fn new() -> Self {
        Code {
            locals: vec![],
            body: vec![],
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Function {
    pub type_: FunctionType,
    pub code: ImportOrPresent<Code>,
    pub export: Vec<String>,
    pub name: Option<String>,
    pub param_names: Vec<Option<String>>,
}

impl Function {
    pub fn new(type_: FunctionType, code: Code, export: Vec<String>) -> Self {
        Function {
            type_,
            code: ImportOrPresent::Present(code),
            export,
            name: None,
            param_names: vec![],
        }
    }
    pub fn code(&self) -> Option<&Code> {
        match &self.code {
            ImportOrPresent::Present(c) => Some(c),
            ImportOrPresent::Import(..) => None,
        }
    }
    pub fn code_mut(&mut self) -> Option<&mut Code> {
        match &mut self.code {
            ImportOrPresent::Present(c) => Some(c),
            ImportOrPresent::Import(..) => None,
        }
    }
    pub fn import(&self) -> Option<(&str, &str)> {
        match &self.code {
            ImportOrPresent::Import(m, n) => Some((m, n)),
            ImportOrPresent::Present(_) => None,
        }
    }
    pub fn param_count(&self) -> usize {
        self.type_.inputs().len()
    }
    /// All non-parameter locals with their index.
    pub fn locals(&self) -> impl Iterator<Item = (Idx<Local>, &Local)> {
        let params = self.param_count();
        self.code()
            .map(|c| c.locals.as_slice())
            .unwrap_or(&[])
            .iter()
            .enumerate()
            .map(move |(i, l)| (Idx::from(params + i), l))
    }
    pub fn local_type(&self, idx: Idx<Local>) -> Option<ValType> {
        let i = idx.to_usize();
        if i < self.param_count() {
            Some(self.type_.inputs()[i])
        } else {
            Some(self.code()?.locals.get(i - self.param_count())?.type_)
        }
    }
    pub fn add_fresh_local(&mut self, type_: ValType) -> Idx<Local> {
        let params = self.param_count();
        let code = self.code_mut().expect("cannot add a local to an imported function");
        code.locals.push(Local { type_, name: None });
        Idx::from(params + code.locals.len() - 1)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Global {
    pub type_: ValType,
    pub mutable: bool,
    pub init: ImportOrPresent<Expr>,
    pub export: Vec<String>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Table {
    pub limits: Limits,
    pub import: Option<(String, String)>,
    pub ref_type: RefType,
    pub export: Vec<String>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Memory {
    pub limits: Limits,
    pub import: Option<(String, String)>,
    pub export: Vec<String>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ElementMode {
    Passive,
    Active { table: Idx<Table>, offset: Expr },
    Declarative,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Element {
    pub typ: RefType,
    pub init: Vec<Expr>,
    pub mode: ElementMode,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DataMode {
    Passive,
    Active { memory: Idx<Memory>, offset: Expr },
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Data {
    pub init: Vec<u8>,
    pub mode: DataMode,
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Module {
    pub name: Option<String>,
    pub functions: Vec<Function>,
    pub globals: Vec<Global>,
    pub tables: Vec<Table>,
    pub memories: Vec<Memory>,
    pub datas: Vec<Data>,
    pub elements: Vec<Element>,
    pub start: Option<Idx<Function>>,
    pub custom_sections: Vec<(String, Vec<u8>)>,
    pub has_data_count: bool,
}

impl Module {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn functions(&self) -> impl Iterator<Item = (Idx<Function>, &Function)> {
        self.functions.iter().enumerate().map(|(i, f)| (Idx::from(i), f))
    }
    pub fn function(&self, idx: Idx<Function>) -> &Function {
        &self.functions[idx.to_usize()]
    }
    pub fn function_mut(&mut self, idx: Idx<Function>) -> &mut Function {
        &mut self.functions[idx.to_usize()]
    }
    pub fn global(&self, idx: Idx<Global>) -> &Global {
        &self.globals[idx.to_usize()]
    }
    pub fn table(&self, idx: Idx<Table>) -> &Table {
        &self.tables[idx.to_usize()]
    }
    pub fn memory(&self, idx: Idx<Memory>) -> &Memory {
        &self.memories[idx.to_usize()]
    }
    pub fn add_function(&mut self, type_: FunctionType, locals: Vec<ValType>, body: Vec<Instr>) -> Idx<Function> {
        let idx = Idx::from(self.functions.len());
        self.functions.push(Function::new(
            type_,
            Code {
                locals: locals.into_iter().map(|type_| Local { type_, name: None }).collect(),
                body,
            },
            vec![],
        ));
        idx
    }
    pub fn add_function_import(&mut self, type_: FunctionType, module: String, name: String) -> Idx<Function> {
        let idx = Idx::from(self.functions.len());
        self.functions.push(Function {
            type_,
            code: ImportOrPresent::Import(module, name),
            export: vec![],
            name: None,
            param_names: vec![],
        });
        idx
    }
}
