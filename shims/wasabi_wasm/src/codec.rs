//! Binary decoding (wasmparser) and encoding (wasm-encoder).
use crate::*;
use std::collections::HashMap;
use wasm_encoder as we;
use wasmparser as wp;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError(pub String);
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ParseError {}
impl From<wp::BinaryReaderError> for ParseError {
    fn from(e: wp::BinaryReaderError) -> Self {
        ParseError(e.to_string())
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct EncodeError(pub String);
impl fmt::Display for EncodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for EncodeError {}

fn unsupported<T>(what: impl fmt::Debug) -> Result<T, ParseError> {
    Err(ParseError(format!("unsupported: {what:?}")))
}

fn ref_type(t: wp::RefType) -> Result<RefType, ParseError> {
    if t == wp::RefType::FUNCREF {
        Ok(RefType::FuncRef)
    } else if t == wp::RefType::EXTERNREF {
        Ok(RefType::ExternRef)
    } else {
        unsupported(t)
    }
}
fn val_type(t: wp::ValType) -> Result<ValType, ParseError> {
    Ok(match t {
        wp::ValType::I32 => ValType::I32,
        wp::ValType::I64 => ValType::I64,
        wp::ValType::F32 => ValType::F32,
        wp::ValType::F64 => ValType::F64,
        wp::ValType::Ref(r) => ValType::Ref(ref_type(r)?),
        other => return unsupported(other),
    })
}
fn func_type(t: &wp::FuncType) -> Result<FunctionType, ParseError> {
    let conv = |ts: &[wp::ValType]| ts.iter().map(|t| val_type(*t)).collect::<Result<Vec<_>, _>>();
    Ok(FunctionType::new(&conv(t.params())?, &conv(t.results())?))
}
fn u32_of(v: u64) -> Result<u32, ParseError> {
    u32::try_from(v).map_err(|_| ParseError(format!("{v} does not fit in 32 bits")))
}
fn memory_of(m: wp::MemoryType, import: Option<(String, String)>) -> Result<Memory, ParseError> {
    if m.memory64 || m.shared || m.page_size_log2.is_some() {
        return unsupported(m);
    }
    Ok(Memory {
        limits: Limits {
            initial_size: u32_of(m.initial)?,
            max_size: m.maximum.map(u32_of).transpose()?,
        },
        import,
        export: vec![],
    })
}
fn table_of(t: wp::TableType, import: Option<(String, String)>) -> Result<Table, ParseError> {
    if t.table64 || t.shared {
        return unsupported(t);
    }
    Ok(Table {
        limits: Limits {
            initial_size: u32_of(t.initial)?,
            max_size: t.maximum.map(u32_of).transpose()?,
        },
        import,
        ref_type: ref_type(t.element_type)?,
        export: vec![],
    })
}

struct Decoder {
    types: Vec<FunctionType>,
}

impl Decoder {
    fn type_(&self, idx: u32) -> Result<FunctionType, ParseError> {
        self.types
            .get(idx as usize)
            .copied()
            .ok_or_else(|| ParseError(format!("unknown type {idx}")))
    }
    fn block_type(&self, t: wp::BlockType) -> Result<FunctionType, ParseError> {
        Ok(match t {
            wp::BlockType::Empty => FunctionType::empty(),
            wp::BlockType::Type(t) => FunctionType::new(&[], &[val_type(t)?]),
            wp::BlockType::FuncType(i) => self.type_(i)?,
        })
    }
    fn memarg(m: wp::MemArg) -> Result<Memarg, ParseError> {
        if m.memory != 0 {
            return unsupported("access to a memory other than 0");
        }
        Ok(Memarg {
            alignment_exp: m.align,
            offset: u32_of(m.offset)?,
        })
    }
    fn instr(&self, op: &wp::Operator) -> Result<Instr, ParseError> {
        use wp::Operator as P;
        if let Some(op) = UnaryOp::decode(op) {
            return Ok(Instr::Unary(op));
        }
        if let Some(op) = BinaryOp::decode(op) {
            return Ok(Instr::Binary(op));
        }
        if let Some((op, m)) = LoadOp::decode(op) {
            return Ok(Instr::Load(op, Self::memarg(m)?));
        }
        if let Some((op, m)) = StoreOp::decode(op) {
            return Ok(Instr::Store(op, Self::memarg(m)?));
        }
        Ok(match op {
            P::Unreachable => Instr::Unreachable,
            P::Nop => Instr::Nop,
            P::Block { blockty } => Instr::Block(self.block_type(*blockty)?),
            P::Loop { blockty } => Instr::Loop(self.block_type(*blockty)?),
            P::If { blockty } => Instr::If(self.block_type(*blockty)?),
            P::Else => Instr::Else,
            P::End => Instr::End,
            P::Br { relative_depth } => Instr::Br(Label::from(*relative_depth)),
            P::BrIf { relative_depth } => Instr::BrIf(Label::from(*relative_depth)),
            P::BrTable { targets } => Instr::BrTable {
                table: targets
                    .targets()
                    .map(|t| t.map(Label::from))
                    .collect::<Result<Vec<_>, _>>()?
                    .into_boxed_slice(),
                default: Label::from(targets.default()),
            },
            P::Return => Instr::Return,
            P::Call { function_index } => Instr::Call(Idx::from(*function_index)),
            P::CallIndirect { type_index, table_index } => {
                Instr::CallIndirect(self.type_(*type_index)?, Idx::from(*table_index))
            }
            P::RefNull { hty } => Instr::RefNull(match *hty {
                wp::HeapType::FUNC => RefType::FuncRef,
                wp::HeapType::EXTERN => RefType::ExternRef,
                other => return unsupported(other),
            }),
            P::RefIsNull => Instr::RefIsNull,
            P::RefFunc { function_index } => Instr::RefFunc(Idx::from(*function_index)),
            P::Drop => Instr::Drop,
            P::Select => Instr::Select,
            P::TypedSelect { ty } => Instr::TypedSelect(val_type(*ty)?),
            P::LocalGet { local_index } => Instr::Local(LocalOp::Get, Idx::from(*local_index)),
            P::LocalSet { local_index } => Instr::Local(LocalOp::Set, Idx::from(*local_index)),
            P::LocalTee { local_index } => Instr::Local(LocalOp::Tee, Idx::from(*local_index)),
            P::GlobalGet { global_index } => Instr::Global(GlobalOp::Get, Idx::from(*global_index)),
            P::GlobalSet { global_index } => Instr::Global(GlobalOp::Set, Idx::from(*global_index)),
            P::TableGet { table } => Instr::TableGet(Idx::from(*table)),
            P::TableSet { table } => Instr::TableSet(Idx::from(*table)),
            P::TableSize { table } => Instr::TableSize(Idx::from(*table)),
            P::TableGrow { table } => Instr::TableGrow(Idx::from(*table)),
            P::TableFill { table } => Instr::TableFill(Idx::from(*table)),
            P::TableCopy { dst_table, src_table } => Instr::TableCopy(Idx::from(*dst_table), Idx::from(*src_table)),
            P::TableInit { elem_index, table } => Instr::TableInit(Idx::from(*table), Idx::from(*elem_index)),
            P::ElemDrop { elem_index } => Instr::ElemDrop(Idx::from(*elem_index)),
            P::MemorySize { mem } => Instr::MemorySize(Idx::from(*mem)),
            P::MemoryGrow { mem } => Instr::MemoryGrow(Idx::from(*mem)),
            P::MemoryFill { .. } => Instr::MemoryFill,
            P::MemoryCopy { .. } => Instr::MemoryCopy,
            P::MemoryInit { data_index, .. } => Instr::MemoryInit(Idx::from(*data_index)),
            P::DataDrop { data_index } => Instr::DataDrop(Idx::from(*data_index)),
            P::I32Const { value } => Instr::Const(Val::I32(*value)),
            P::I64Const { value } => Instr::Const(Val::I64(*value)),
            P::F32Const { value } => Instr::Const(Val::F32(F32(value.bits()))),
            P::F64Const { value } => Instr::Const(Val::F64(F64(value.bits()))),
            other => return unsupported(other),
        })
    }
    fn expr(&self, reader: wp::OperatorsReader) -> Result<Expr, ParseError> {
        let mut body = vec![];
        for op in reader {
            body.push(self.instr(&op?)?);
        }
        Ok(body)
    }
}

impl Module {
    pub fn from_bytes(bytes: &[u8]) -> Result<(Module, (), Option<String>), ParseError> {
        let mut m = Module::default();
        let mut d = Decoder { types: vec![] };
        let mut declared: Vec<FunctionType> = vec![];
        let mut bodies = 0usize;
        for payload in wp::Parser::new(0).parse_all(bytes) {
            use wp::Payload as P;
            match payload? {
                P::Version { encoding, .. } => {
                    if encoding != wp::Encoding::Module {
                        return unsupported("component");
                    }
                }
                P::TypeSection(r) => {
                    for t in r.into_iter_err_on_gc_types() {
                        d.types.push(func_type(&t?)?);
                    }
                }
                P::ImportSection(r) => {
                    for import in r {
                        let import = import?;
                        let at = (import.module.to_string(), import.name.to_string());
                        match import.ty {
                            wp::TypeRef::Func(t) => {
                                let t = d.type_(t)?;
                                m.add_function_import(t, at.0, at.1);
                            }
                            wp::TypeRef::Global(g) => m.globals.push(Global {
                                type_: val_type(g.content_type)?,
                                mutable: g.mutable,
                                init: ImportOrPresent::Import(at.0, at.1),
                                export: vec![],
                            }),
                            wp::TypeRef::Memory(t) => m.memories.push(memory_of(t, Some(at))?),
                            wp::TypeRef::Table(t) => m.tables.push(table_of(t, Some(at))?),
                            other => return unsupported(other),
                        }
                    }
                }
                P::FunctionSection(r) => {
                    for t in r {
                        declared.push(d.type_(t?)?);
                    }
                    for t in &declared {
                        m.add_function(*t, vec![], vec![]);
                    }
                }
                P::TableSection(r) => {
                    for t in r {
                        let t = t?;
                        if !matches!(t.init, wp::TableInit::RefNull) {
                            return unsupported("table initialiser");
                        }
                        m.tables.push(table_of(t.ty, None)?);
                    }
                }
                P::MemorySection(r) => {
                    for t in r {
                        m.memories.push(memory_of(t?, None)?);
                    }
                }
                P::GlobalSection(r) => {
                    for g in r {
                        let g = g?;
                        m.globals.push(Global {
                            type_: val_type(g.ty.content_type)?,
                            mutable: g.ty.mutable,
                            init: ImportOrPresent::Present(d.expr(g.init_expr.get_operators_reader())?),
                            export: vec![],
                        });
                    }
                }
                P::ExportSection(r) => {
                    for e in r {
                        let e = e?;
                        let i = e.index as usize;
                        let name = e.name.to_string();
                        let slot = match e.kind {
                            wp::ExternalKind::Func => m.functions.get_mut(i).map(|x| &mut x.export),
                            wp::ExternalKind::Global => m.globals.get_mut(i).map(|x| &mut x.export),
                            wp::ExternalKind::Memory => m.memories.get_mut(i).map(|x| &mut x.export),
                            wp::ExternalKind::Table => m.tables.get_mut(i).map(|x| &mut x.export),
                            other => return unsupported(other),
                        };
                        slot.ok_or_else(|| ParseError(format!("unknown export index {i}")))?.push(name);
                    }
                }
                P::StartSection { func, .. } => m.start = Some(Idx::from(func)),
                P::ElementSection(r) => {
                    for e in r {
                        let e = e?;
                        let mode = match e.kind {
                            wp::ElementKind::Passive => ElementMode::Passive,
                            wp::ElementKind::Declared => ElementMode::Declarative,
                            wp::ElementKind::Active { table_index, offset_expr } => ElementMode::Active {
                                table: Idx::from(table_index.unwrap_or(0)),
                                offset: d.expr(offset_expr.get_operators_reader())?,
                            },
                        };
                        let (typ, init) = match e.items {
                            wp::ElementItems::Functions(fs) => {
                                let mut init = vec![];
                                for f in fs {
                                    init.push(vec![Instr::RefFunc(Idx::from(f?)), Instr::End]);
                                }
                                (RefType::FuncRef, init)
                            }
                            wp::ElementItems::Expressions(t, es) => {
                                let mut init = vec![];
                                for x in es {
                                    init.push(d.expr(x?.get_operators_reader())?);
                                }
                                (ref_type(t)?, init)
                            }
                        };
                        m.elements.push(Element { typ, init, mode });
                    }
                }
                P::DataCountSection { .. } => m.has_data_count = true,
                P::DataSection(r) => {
                    for x in r {
                        let x = x?;
                        let mode = match x.kind {
                            wp::DataKind::Passive => DataMode::Passive,
                            wp::DataKind::Active { memory_index, offset_expr } => DataMode::Active {
                                memory: Idx::from(memory_index),
                                offset: d.expr(offset_expr.get_operators_reader())?,
                            },
                        };
                        m.datas.push(Data {
                            init: x.data.to_vec(),
                            mode,
                        });
                    }
                }
                P::CodeSectionStart { .. } => {}
                P::CodeSectionEntry(body) => {
                    let imported = m.functions.len() - declared.len();
                    let mut code = Code::new();
                    for l in body.get_locals_reader()? {
                        let (n, t) = l?;
                        if code.locals.len() + n as usize > 50_000 {
                            return unsupported("too many locals");
                        }
                        let type_ = val_type(t)?;
                        for _ in 0..n {
                            code.locals.push(Local { type_, name: None });
                        }
                    }
                    code.body = d.expr(body.get_operators_reader()?)?;
                    m.functions
                        .get_mut(imported + bodies)
                        .ok_or_else(|| ParseError("more bodies than functions".into()))?
                        .code = ImportOrPresent::Present(code);
                    bodies += 1;
                }
                P::CustomSection(c) => {
                    if c.name() != "name" {
                        m.custom_sections.push((c.name().to_string(), c.data().to_vec()));
                    }
                }
                P::End(_) => {}
                other => return unsupported(other),
            }
        }
        if bodies != declared.len() {
            return Err(ParseError("function and code section disagree".into()));
        }
        Ok((m, (), None))
    }
}

// ---------------------------------------------------------------- encoding

fn eref(t: RefType) -> we::RefType {
    match t {
        RefType::FuncRef => we::RefType::FUNCREF,
        RefType::ExternRef => we::RefType::EXTERNREF,
    }
}
fn eval(t: ValType) -> we::ValType {
    match t {
        ValType::I32 => we::ValType::I32,
        ValType::I64 => we::ValType::I64,
        ValType::F32 => we::ValType::F32,
        ValType::F64 => we::ValType::F64,
        ValType::Ref(r) => we::ValType::Ref(eref(r)),
    }
}

#[derive(Default)]
struct Encoder {
    types: we::TypeSection,
    type_ids: HashMap<FunctionType, u32>,
    functions: Vec<u32>,
    globals: Vec<u32>,
    tables: Vec<u32>,
    memories: Vec<u32>,
}

/// Imported entities get the lowest indices, each group in its own order.
fn renumber(imported: &[bool]) -> Vec<u32> {
    let n = imported.iter().filter(|b| **b).count();
    let (mut i, mut p) = (0, n);
    imported
        .iter()
        .map(|b| {
            let c = if *b { &mut i } else { &mut p };
            *c += 1;
            u32::try_from(*c - 1).unwrap()
        })
        .collect()
}

impl Encoder {
    fn type_(&mut self, t: FunctionType) -> u32 {
        if let Some(id) = self.type_ids.get(&t) {
            return *id;
        }
        let id = u32::try_from(self.type_ids.len()).unwrap();
        self.types.ty().function(
            t.inputs().iter().map(|t| eval(*t)).collect::<Vec<_>>(),
            t.results().iter().map(|t| eval(*t)).collect::<Vec<_>>(),
        );
        self.type_ids.insert(t, id);
        id
    }
    fn map(table: &[u32], i: u32, what: &str) -> Result<u32, EncodeError> {
        table
            .get(i as usize)
            .copied()
            .ok_or_else(|| EncodeError(format!("unknown {what} index {i}")))
    }
    fn f(&self, i: Idx<Function>) -> Result<u32, EncodeError> {
        Self::map(&self.functions, i.to_u32(), "function")
    }
    fn g(&self, i: Idx<Global>) -> Result<u32, EncodeError> {
        Self::map(&self.globals, i.to_u32(), "global")
    }
    fn t(&self, i: Idx<Table>) -> Result<u32, EncodeError> {
        Self::map(&self.tables, i.to_u32(), "table")
    }
    fn m(&self, i: Idx<Memory>) -> Result<u32, EncodeError> {
        Self::map(&self.memories, i.to_u32(), "memory")
    }
    fn block_type(&mut self, t: FunctionType) -> we::BlockType {
        match (t.inputs(), t.results()) {
            ([], []) => we::BlockType::Empty,
            ([], [r]) => we::BlockType::Result(eval(*r)),
            _ => we::BlockType::FunctionType(self.type_(t)),
        }
    }
    fn memarg(m: Memarg) -> we::MemArg {
        we::MemArg {
            offset: m.offset.into(),
            align: m.alignment_exp.into(),
            memory_index: 0,
        }
    }
    fn instr(&mut self, i: &Instr) -> Result<we::Instruction<'static>, EncodeError> {
        use we::Instruction as E;
        Ok(match i {
            Instr::Unreachable => E::Unreachable,
            Instr::Nop => E::Nop,
            Instr::Block(t) => E::Block(self.block_type(*t)),
            Instr::Loop(t) => E::Loop(self.block_type(*t)),
            Instr::If(t) => E::If(self.block_type(*t)),
            Instr::Else => E::Else,
            Instr::End => E::End,
            Instr::Br(l) => E::Br(l.to_u32()),
            Instr::BrIf(l) => E::BrIf(l.to_u32()),
            Instr::BrTable { table, default } => E::BrTable(
                table.iter().map(|l| l.to_u32()).collect::<Vec<_>>().into(),
                default.to_u32(),
            ),
            Instr::Return => E::Return,
            Instr::Call(f) => E::Call(self.f(*f)?),
            Instr::CallIndirect(t, table) => E::CallIndirect {
                type_index: self.type_(*t),
                table_index: self.t(*table)?,
            },
            Instr::RefNull(RefType::FuncRef) => E::RefNull(we::HeapType::FUNC),
            Instr::RefNull(RefType::ExternRef) => E::RefNull(we::HeapType::EXTERN),
            Instr::RefIsNull => E::RefIsNull,
            Instr::RefFunc(f) => E::RefFunc(self.f(*f)?),
            Instr::Drop => E::Drop,
            Instr::Select => E::Select,
            Instr::TypedSelect(t) => E::TypedSelect(eval(*t)),
            Instr::Local(LocalOp::Get, i) => E::LocalGet(i.to_u32()),
            Instr::Local(LocalOp::Set, i) => E::LocalSet(i.to_u32()),
            Instr::Local(LocalOp::Tee, i) => E::LocalTee(i.to_u32()),
            Instr::Global(GlobalOp::Get, i) => E::GlobalGet(self.g(*i)?),
            Instr::Global(GlobalOp::Set, i) => E::GlobalSet(self.g(*i)?),
            Instr::TableGet(t) => E::TableGet(self.t(*t)?),
            Instr::TableSet(t) => E::TableSet(self.t(*t)?),
            Instr::TableSize(t) => E::TableSize(self.t(*t)?),
            Instr::TableGrow(t) => E::TableGrow(self.t(*t)?),
            Instr::TableFill(t) => E::TableFill(self.t(*t)?),
            Instr::TableCopy(dst, src) => E::TableCopy {
                src_table: self.t(*src)?,
                dst_table: self.t(*dst)?,
            },
            Instr::TableInit(t, e) => E::TableInit {
                elem_index: e.to_u32(),
                table: self.t(*t)?,
            },
            Instr::ElemDrop(e) => E::ElemDrop(e.to_u32()),
            Instr::Load(op, m) => op.encode(Self::memarg(*m)),
            Instr::Store(op, m) => op.encode(Self::memarg(*m)),
            Instr::MemorySize(m) => E::MemorySize(self.m(*m)?),
            Instr::MemoryGrow(m) => E::MemoryGrow(self.m(*m)?),
            Instr::MemoryFill => E::MemoryFill(0),
            Instr::MemoryCopy => E::MemoryCopy { src_mem: 0, dst_mem: 0 },
            Instr::MemoryInit(d) => E::MemoryInit {
                mem: 0,
                data_index: d.to_u32(),
            },
            Instr::DataDrop(d) => E::DataDrop(d.to_u32()),
            Instr::Const(Val::I32(v)) => E::I32Const(*v),
            Instr::Const(Val::I64(v)) => E::I64Const(*v),
            Instr::Const(Val::F32(v)) => E::F32Const(we::Ieee32::new(v.0)),
            Instr::Const(Val::F64(v)) => E::F64Const(we::Ieee64::new(v.0)),
            Instr::Unary(op) => op.encode(),
            Instr::Binary(op) => op.encode(),
        })
    }
    fn const_expr(&mut self, e: &Expr) -> Result<we::ConstExpr, EncodeError> {
        use we::Encode;
        let mut bytes = vec![];
        match e.split_last() {
            Some((Instr::End, rest)) => {
                for i in rest {
                    self.instr(i)?.encode(&mut bytes);
                }
            }
            _ => return Err(EncodeError("constant expression does not end in `end`".into())),
        }
        Ok(we::ConstExpr::raw(bytes))
    }
}

impl Module {
    pub fn to_bytes(&self) -> Result<Vec<u8>, EncodeError> {
        let mut e = Encoder {
            functions: renumber(&self.functions.iter().map(|f| f.import().is_some()).collect::<Vec<_>>()),
            globals: renumber(
                &self
                    .globals
                    .iter()
                    .map(|g| matches!(g.init, ImportOrPresent::Import(..)))
                    .collect::<Vec<_>>(),
            ),
            tables: renumber(&self.tables.iter().map(|t| t.import.is_some()).collect::<Vec<_>>()),
            memories: renumber(&self.memories.iter().map(|t| t.import.is_some()).collect::<Vec<_>>()),
            ..Default::default()
        };
        let limits_t = |t: &Table| we::TableType {
            element_type: eref(t.ref_type),
            table64: false,
            minimum: t.limits.initial_size.into(),
            maximum: t.limits.max_size.map(Into::into),
            shared: false,
        };
        let limits_m = |m: &Memory| we::MemoryType {
            minimum: m.limits.initial_size.into(),
            maximum: m.limits.max_size.map(Into::into),
            memory64: false,
            shared: false,
            page_size_log2: None,
        };
        let gtype = |g: &Global| we::GlobalType {
            val_type: eval(g.type_),
            mutable: g.mutable,
            shared: false,
        };

        let mut imports = we::ImportSection::new();
        let mut functions = we::FunctionSection::new();
        let mut tables = we::TableSection::new();
        let mut memories = we::MemorySection::new();
        let mut globals = we::GlobalSection::new();
        let mut exports = we::ExportSection::new();
        let mut elements = we::ElementSection::new();
        let mut codes = we::CodeSection::new();
        let mut datas = we::DataSection::new();

        for f in &self.functions {
            let t = e.type_(f.type_);
            match f.import() {
                Some((m, n)) => {
                    imports.import(m, n, we::EntityType::Function(t));
                }
                None => {
                    functions.function(t);
                }
            }
        }
        for t in &self.tables {
            match &t.import {
                Some((m, n)) => {
                    imports.import(m, n, limits_t(t));
                }
                None => {
                    tables.table(limits_t(t));
                }
            }
        }
        for m in &self.memories {
            match &m.import {
                Some((a, n)) => {
                    imports.import(a, n, limits_m(m));
                }
                None => {
                    memories.memory(limits_m(m));
                }
            }
        }
        for g in &self.globals {
            match &g.init {
                ImportOrPresent::Import(m, n) => {
                    imports.import(m, n, gtype(g));
                }
                ImportOrPresent::Present(init) => {
                    let init = e.const_expr(init)?;
                    globals.global(gtype(g), &init);
                }
            }
        }
        for (i, f) in self.functions.iter().enumerate() {
            for x in &f.export {
                exports.export(x, we::ExportKind::Func, e.functions[i]);
            }
        }
        for (i, f) in self.tables.iter().enumerate() {
            for x in &f.export {
                exports.export(x, we::ExportKind::Table, e.tables[i]);
            }
        }
        for (i, f) in self.memories.iter().enumerate() {
            for x in &f.export {
                exports.export(x, we::ExportKind::Memory, e.memories[i]);
            }
        }
        for (i, f) in self.globals.iter().enumerate() {
            for x in &f.export {
                exports.export(x, we::ExportKind::Global, e.globals[i]);
            }
        }
        for el in &self.elements {
            let items: Vec<we::ConstExpr> = el.init.iter().map(|x| e.const_expr(x)).collect::<Result<_, _>>()?;
            let items = we::Elements::Expressions(eref(el.typ), items.into());
            match &el.mode {
                ElementMode::Passive => {
                    elements.passive(items);
                }
                ElementMode::Declarative => {
                    elements.declared(items);
                }
                ElementMode::Active { table, offset } => {
                    let offset = e.const_expr(offset)?;
                    elements.active(Some(e.t(*table)?), &offset, items);
                }
            }
        }
        for d in &self.datas {
            match &d.mode {
                DataMode::Passive => {
                    datas.passive(d.init.iter().copied());
                }
                DataMode::Active { memory, offset } => {
                    let offset = e.const_expr(offset)?;
                    datas.active(e.m(*memory)?, &offset, d.init.iter().copied());
                }
            }
        }
        for f in &self.functions {
            if let Some(code) = f.code() {
                let mut locals: Vec<(u32, we::ValType)> = vec![];
                for l in &code.locals {
                    let t = eval(l.type_);
                    match locals.last_mut() {
                        Some((n, last)) if *last == t => *n += 1,
                        _ => locals.push((1, t)),
                    }
                }
                let mut body = we::Function::new(locals);
                for i in &code.body {
                    let i = e.instr(i)?;
                    body.instruction(&i);
                }
                codes.function(&body);
            }
        }

        let mut out = we::Module::new();
        out.section(&e.types);
        out.section(&imports);
        out.section(&functions);
        out.section(&tables);
        out.section(&memories);
        out.section(&globals);
        out.section(&exports);
        if let Some(start) = self.start {
            out.section(&we::StartSection {
                function_index: e.f(start)?,
            });
        }
        out.section(&elements);
        if self.has_data_count || !self.datas.is_empty() {
            out.section(&we::DataCountSection {
                count: u32::try_from(self.datas.len()).unwrap(),
            });
        }
        out.section(&codes);
        out.section(&datas);
        for (name, data) in &self.custom_sections {
            out.section(&we::CustomSection {
                name: name.into(),
                data: data.into(),
            });
        }
        Ok(out.finish())
    }
}
