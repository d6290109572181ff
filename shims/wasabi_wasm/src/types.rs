//! Instruction typing (the validation algorithm of the WebAssembly specification).
use crate::*;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum InferredInstructionType {
    Reachable(FunctionType),
    Unreachable,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TypeErrorInner {
    pub message: String,
    pub instruction_idx: Option<Idx<Instr>>,
    pub instruction: Option<Instr>,
    pub function_name: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TypeError(pub Box<TypeErrorInner>);
impl fmt::Display for TypeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(
            f,
            "type error: {} at {:?} {:?}",
            self.0.message, self.0.instruction_idx, self.0.instruction
        )
    }
}
impl std::error::Error for TypeError {}

fn err<T>(message: impl Into<String>) -> Result<T, TypeError> {
    Err(TypeError(Box::new(TypeErrorInner {
        message: message.into(),
        instruction_idx: None,
        instruction: None,
        function_name: None,
    })))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Function,
    Block,
    Loop,
    If,
    Else,
}

struct Frame {
    kind: Kind,
    type_: FunctionType,
    height: usize,
    unreachable: bool,
}

impl Frame {
    fn label_types(&self) -> &'static [ValType] {
        if self.kind == Kind::Loop {
            self.type_.inputs()
        } else {
            self.type_.results()
        }
    }
}

pub struct TypeChecker<'m> {
    function: &'m Function,
    module: &'m Module,
    values: Vec<Option<ValType>>, // None: unknown (polymorphic)
    frames: Vec<Frame>,
}

impl<'m> TypeChecker<'m> {
    pub fn begin_function(function: &'m Function, module: &'m Module) -> Self {
        Self {
            function,
            module,
            values: vec![],
            frames: vec![Frame {
                kind: Kind::Function,
                type_: FunctionType::new(&[], function.type_.results()),
                height: 0,
                unreachable: false,
            }],
        }
    }

    fn pop(&mut self) -> Result<Option<ValType>, TypeError> {
        let Some(frame) = self.frames.last() else {
            return err("no block is open");
        };
        if self.values.len() == frame.height {
            if frame.unreachable {
                return Ok(None);
            }
            return err("value stack underflow");
        }
        Ok(self.values.pop().unwrap())
    }
    fn pop_expect(&mut self, t: ValType) -> Result<(), TypeError> {
        match self.pop()? {
            None => Ok(()),
            Some(x) if x == t => Ok(()),
            Some(x) => err(format!("expected {t:?}, found {x:?}")),
        }
    }
    fn pop_all(&mut self, ts: &[ValType]) -> Result<(), TypeError> {
        for t in ts.iter().rev() {
            self.pop_expect(*t)?;
        }
        Ok(())
    }
    fn push_all(&mut self, ts: &[ValType]) {
        self.values.extend(ts.iter().map(|t| Some(*t)));
    }
    fn set_unreachable(&mut self) -> Result<(), TypeError> {
        let Some(frame) = self.frames.last_mut() else {
            return err("no block is open");
        };
        frame.unreachable = true;
        self.values.truncate(frame.height);
        Ok(())
    }
    fn label(&self, l: Label) -> Result<&'static [ValType], TypeError> {
        let n = self.frames.len();
        let i = l.to_usize();
        if i >= n {
            return err("unknown label");
        }
        Ok(self.frames[n - 1 - i].label_types())
    }
    fn enter(&mut self, kind: Kind, type_: FunctionType) -> Result<(), TypeError> {
        self.pop_all(type_.inputs())?;
        self.frames.push(Frame {
            kind,
            type_,
            height: self.values.len(),
            unreachable: false,
        });
        self.push_all(type_.inputs());
        Ok(())
    }
    fn leave(&mut self) -> Result<Frame, TypeError> {
        let Some(frame) = self.frames.last() else {
            return err("no block is open");
        };
        let results = frame.type_.results();
        self.pop_all(results)?;
        let frame = self.frames.pop().unwrap();
        if self.values.len() != frame.height {
            return err("values remain at the end of a block");
        }
        Ok(frame)
    }
    fn table(&self, t: Idx<Table>) -> Result<RefType, TypeError> {
        match self.module.tables.get(t.to_usize()) {
            Some(t) => Ok(t.ref_type),
            None => err("unknown table"),
        }
    }
    fn memory(&self, i: usize) -> Result<(), TypeError> {
        if i < self.module.memories.len() {
            Ok(())
        } else {
            err("unknown memory")
        }
    }

    pub fn check_next_instr(&mut self, instr: &Instr) -> Result<InferredInstructionType, TypeError> {
        use ValType::I32;
        let was_unreachable = match self.frames.last() {
            Some(f) => f.unreachable,
            None => return err("instruction after the end of the function"),
        };
        let ft = |a: &[ValType], b: &[ValType]| FunctionType::new(a, b);
        // instructions with a fixed type
        let fixed = match instr {
            Instr::Nop => Some(FunctionType::empty()),
            Instr::Call(f) => match self.module.functions.get(f.to_usize()) {
                Some(f) => Some(f.type_),
                None => return err("unknown function"),
            },
            Instr::CallIndirect(t, table) => {
                if self.table(*table)? != RefType::FuncRef {
                    return err("call_indirect through a table of externref");
                }
                let mut inputs = t.inputs().to_vec();
                inputs.push(I32);
                Some(ft(&inputs, t.results()))
            }
            Instr::RefNull(t) => Some(ft(&[], &[ValType::Ref(*t)])),
            Instr::RefFunc(f) => {
                if f.to_usize() >= self.module.functions.len() {
                    return err("unknown function");
                }
                Some(ft(&[], &[ValType::Ref(RefType::FuncRef)]))
            }
            Instr::TypedSelect(t) => Some(ft(&[*t, *t, I32], &[*t])),
            Instr::Local(op, i) => {
                let Some(t) = self.function.local_type(*i) else {
                    return err("unknown local");
                };
                Some(match op {
                    LocalOp::Get => ft(&[], &[t]),
                    LocalOp::Set => ft(&[t], &[]),
                    LocalOp::Tee => ft(&[t], &[t]),
                })
            }
            Instr::Global(op, i) => {
                let Some(g) = self.module.globals.get(i.to_usize()) else {
                    return err("unknown global");
                };
                Some(match op {
                    GlobalOp::Get => ft(&[], &[g.type_]),
                    GlobalOp::Set if g.mutable => ft(&[g.type_], &[]),
                    GlobalOp::Set => return err("write to an immutable global"),
                })
            }
            Instr::TableGet(t) => Some(ft(&[I32], &[ValType::Ref(self.table(*t)?)])),
            Instr::TableSet(t) => Some(ft(&[I32, ValType::Ref(self.table(*t)?)], &[])),
            Instr::TableSize(t) => {
                self.table(*t)?;
                Some(ft(&[], &[I32]))
            }
            Instr::TableGrow(t) => Some(ft(&[ValType::Ref(self.table(*t)?), I32], &[I32])),
            Instr::TableFill(t) => Some(ft(&[I32, ValType::Ref(self.table(*t)?), I32], &[])),
            Instr::TableCopy(a, b) => {
                if self.table(*a)? != self.table(*b)? {
                    return err("table.copy between tables of different types");
                }
                Some(ft(&[I32, I32, I32], &[]))
            }
            Instr::TableInit(t, e) => {
                self.table(*t)?;
                if e.to_usize() >= self.module.elements.len() {
                    return err("unknown element segment");
                }
                Some(ft(&[I32, I32, I32], &[]))
            }
            Instr::ElemDrop(e) => {
                if e.to_usize() >= self.module.elements.len() {
                    return err("unknown element segment");
                }
                Some(FunctionType::empty())
            }
            Instr::Load(op, _) => {
                self.memory(0)?;
                Some(ft(&[I32], &[op.value_type()]))
            }
            Instr::Store(op, _) => {
                self.memory(0)?;
                Some(ft(&[I32, op.value_type()], &[]))
            }
            Instr::MemorySize(m) => {
                self.memory(m.to_usize())?;
                Some(ft(&[], &[I32]))
            }
            Instr::MemoryGrow(m) => {
                self.memory(m.to_usize())?;
                Some(ft(&[I32], &[I32]))
            }
            Instr::MemoryFill | Instr::MemoryCopy | Instr::MemoryInit(_) => {
                self.memory(0)?;
                Some(ft(&[I32, I32, I32], &[]))
            }
            Instr::DataDrop(_) => Some(FunctionType::empty()),
            Instr::Const(v) => Some(ft(
                &[],
                &[match v {
                    Val::I32(_) => ValType::I32,
                    Val::I64(_) => ValType::I64,
                    Val::F32(_) => ValType::F32,
                    Val::F64(_) => ValType::F64,
                }],
            )),
            Instr::Unary(op) => {
                let (a, r) = op.signature();
                Some(ft(&[a], &[r]))
            }
            Instr::Binary(op) => {
                let (a, r) = op.signature();
                Some(ft(&[a, a], &[r]))
            }
            _ => None,
        };
        let reachable = |t: FunctionType| {
            if was_unreachable {
                InferredInstructionType::Unreachable
            } else {
                InferredInstructionType::Reachable(t)
            }
        };
        if let Some(t) = fixed {
            self.pop_all(t.inputs())?;
            self.push_all(t.results());
            return Ok(reachable(t));
        }
        Ok(match instr {
            Instr::Unreachable => {
                self.set_unreachable()?;
                reachable(FunctionType::empty())
            }
            Instr::Block(t) => {
                self.enter(Kind::Block, *t)?;
                reachable(*t)
            }
            Instr::Loop(t) => {
                self.enter(Kind::Loop, *t)?;
                reachable(*t)
            }
            Instr::If(t) => {
                self.pop_expect(I32)?;
                self.enter(Kind::If, *t)?;
                let mut inputs = t.inputs().to_vec();
                inputs.push(I32);
                reachable(ft(&inputs, t.results()))
            }
            Instr::Else => {
                let frame = self.leave()?;
                if frame.kind != Kind::If {
                    return err("else without if");
                }
                self.push_all(frame.type_.inputs());
                self.frames.push(Frame {
                    kind: Kind::Else,
                    type_: frame.type_,
                    height: self.values.len() - frame.type_.inputs().len(),
                    unreachable: false,
                });
                reachable(frame.type_)
            }
            Instr::End => {
                let frame = self.leave()?;
                if frame.kind == Kind::If && frame.type_.inputs() != frame.type_.results() {
                    return err("if without else must not change the stack type");
                }
                self.push_all(frame.type_.results());
                InferredInstructionType::Reachable(frame.type_)
            }
            Instr::Br(l) => {
                let ts = self.label(*l)?;
                self.pop_all(ts)?;
                self.set_unreachable()?;
                reachable(ft(ts, &[]))
            }
            Instr::BrIf(l) => {
                let ts = self.label(*l)?;
                self.pop_expect(I32)?;
                self.pop_all(ts)?;
                self.push_all(ts);
                let mut inputs = ts.to_vec();
                inputs.push(I32);
                reachable(ft(&inputs, ts))
            }
            Instr::BrTable { table, default } => {
                self.pop_expect(I32)?;
                let ts = self.label(*default)?;
                for l in table.iter() {
                    let other = self.label(*l)?;
                    if other.len() != ts.len() {
                        return err("br_table labels of different arity");
                    }
                    let mut popped = vec![];
                    for t in other.iter().rev() {
                        let v = self.pop()?;
                        if v.is_some_and(|v| v != *t) {
                            return err("br_table label type");
                        }
                        popped.push(v);
                    }
                    self.values.extend(popped.into_iter().rev());
                }
                self.pop_all(ts)?;
                self.set_unreachable()?;
                let mut inputs = ts.to_vec();
                inputs.push(I32);
                reachable(ft(&inputs, &[]))
            }
            Instr::Return => {
                let ts = self.function.type_.results();
                self.pop_all(ts)?;
                self.set_unreachable()?;
                reachable(ft(ts, &[]))
            }
            Instr::Drop => match self.pop()? {
                Some(t) => reachable(ft(&[t], &[])),
                None => InferredInstructionType::Unreachable,
            },
            Instr::Select => {
                self.pop_expect(I32)?;
                let (a, b) = (self.pop()?, self.pop()?);
                let t = match (a, b) {
                    (Some(a), Some(b)) if a != b => return err("select operands differ"),
                    (Some(t), _) | (_, Some(t)) => Some(t),
                    _ => None,
                };
                if matches!(t, Some(ValType::Ref(_))) {
                    return err("untyped select of references");
                }
                self.values.push(t);
                match t {
                    Some(t) => reachable(ft(&[t, t, I32], &[t])),
                    None => InferredInstructionType::Unreachable,
                }
            }
            Instr::RefIsNull => match self.pop()? {
                Some(ValType::Ref(r)) => {
                    self.push_all(&[I32]);
                    reachable(ft(&[ValType::Ref(r)], &[I32]))
                }
                None => {
                    self.push_all(&[I32]);
                    InferredInstructionType::Unreachable
                }
                Some(_) => return err("ref.is_null of a number"),
            },
            _ => unreachable!(),
        })
    }
}
