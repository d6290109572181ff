// The numeric operators and typed memory accesses of WebAssembly 2.0 (no SIMD).
use crate::ValType::{self, F32, F64, I32, I64};
use wasm_encoder::Instruction as E;
use wasmparser::Operator as P;

pub trait MemoryOp {
    fn natural_alignment_exp(&self) -> u8;
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum UnaryOp {
    I32Eqz,
    I64Eqz,
    I32Clz,
    I32Ctz,
    I32Popcnt,
    I64Clz,
    I64Ctz,
    I64Popcnt,
    F32Abs,
    F32Neg,
    F32Ceil,
    F32Floor,
    F32Trunc,
    F32Nearest,
    F32Sqrt,
    F64Abs,
    F64Neg,
    F64Ceil,
    F64Floor,
    F64Trunc,
    F64Nearest,
    F64Sqrt,
    I32WrapI64,
    I32TruncF32S,
    I32TruncF32U,
    I32TruncF64S,
    I32TruncF64U,
    I32TruncSatF32S,
    I32TruncSatF32U,
    I32TruncSatF64S,
    I32TruncSatF64U,
    I64ExtendI32S,
    I64ExtendI32U,
    I64TruncF32S,
    I64TruncF32U,
    I64TruncF64S,
    I64TruncF64U,
    I64TruncSatF32S,
    I64TruncSatF32U,
    I64TruncSatF64S,
    I64TruncSatF64U,
    F32ConvertI32S,
    F32ConvertI32U,
    F32ConvertI64S,
    F32ConvertI64U,
    F32DemoteF64,
    F64ConvertI32S,
    F64ConvertI32U,
    F64ConvertI64S,
    F64ConvertI64U,
    F64PromoteF32,
    I32ReinterpretF32,
    I64ReinterpretF64,
    F32ReinterpretI32,
    F64ReinterpretI64,
    I32Extend8S,
    I32Extend16S,
    I64Extend8S,
    I64Extend16S,
    I64Extend32S,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum BinaryOp {
    I32Eq,
    I32Ne,
    I32LtS,
    I32LtU,
    I32GtS,
    I32GtU,
    I32LeS,
    I32LeU,
    I32GeS,
    I32GeU,
    I64Eq,
    I64Ne,
    I64LtS,
    I64LtU,
    I64GtS,
    I64GtU,
    I64LeS,
    I64LeU,
    I64GeS,
    I64GeU,
    F32Eq,
    F32Ne,
    F32Lt,
    F32Gt,
    F32Le,
    F32Ge,
    F64Eq,
    F64Ne,
    F64Lt,
    F64Gt,
    F64Le,
    F64Ge,
    I32Add,
    I32Sub,
    I32Mul,
    I32DivS,
    I32DivU,
    I32RemS,
    I32RemU,
    I32And,
    I32Or,
    I32Xor,
    I32Shl,
    I32ShrS,
    I32ShrU,
    I32Rotl,
    I32Rotr,
    I64Add,
    I64Sub,
    I64Mul,
    I64DivS,
    I64DivU,
    I64RemS,
    I64RemU,
    I64And,
    I64Or,
    I64Xor,
    I64Shl,
    I64ShrS,
    I64ShrU,
    I64Rotl,
    I64Rotr,
    F32Add,
    F32Sub,
    F32Mul,
    F32Div,
    F32Min,
    F32Max,
    F32Copysign,
    F64Add,
    F64Sub,
    F64Mul,
    F64Div,
    F64Min,
    F64Max,
    F64Copysign,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum LoadOp {
    I32Load,
    I64Load,
    F32Load,
    F64Load,
    I32Load8S,
    I32Load8U,
    I32Load16S,
    I32Load16U,
    I64Load8S,
    I64Load8U,
    I64Load16S,
    I64Load16U,
    I64Load32S,
    I64Load32U,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum StoreOp {
    I32Store,
    I64Store,
    F32Store,
    F64Store,
    I32Store8,
    I32Store16,
    I64Store8,
    I64Store16,
    I64Store32,
}

impl UnaryOp {
    pub const ALL: &'static [UnaryOp] = &[UnaryOp::I32Eqz, UnaryOp::I64Eqz, UnaryOp::I32Clz, UnaryOp::I32Ctz, UnaryOp::I32Popcnt, UnaryOp::I64Clz, UnaryOp::I64Ctz, UnaryOp::I64Popcnt, UnaryOp::F32Abs, UnaryOp::F32Neg, UnaryOp::F32Ceil, UnaryOp::F32Floor, UnaryOp::F32Trunc, UnaryOp::F32Nearest, UnaryOp::F32Sqrt, UnaryOp::F64Abs, UnaryOp::F64Neg, UnaryOp::F64Ceil, UnaryOp::F64Floor, UnaryOp::F64Trunc, UnaryOp::F64Nearest, UnaryOp::F64Sqrt, UnaryOp::I32WrapI64, UnaryOp::I32TruncF32S, UnaryOp::I32TruncF32U, UnaryOp::I32TruncF64S, UnaryOp::I32TruncF64U, UnaryOp::I32TruncSatF32S, UnaryOp::I32TruncSatF32U, UnaryOp::I32TruncSatF64S, UnaryOp::I32TruncSatF64U, UnaryOp::I64ExtendI32S, UnaryOp::I64ExtendI32U, UnaryOp::I64TruncF32S, UnaryOp::I64TruncF32U, UnaryOp::I64TruncF64S, UnaryOp::I64TruncF64U, UnaryOp::I64TruncSatF32S, UnaryOp::I64TruncSatF32U, UnaryOp::I64TruncSatF64S, UnaryOp::I64TruncSatF64U, UnaryOp::F32ConvertI32S, UnaryOp::F32ConvertI32U, UnaryOp::F32ConvertI64S, UnaryOp::F32ConvertI64U, UnaryOp::F32DemoteF64, UnaryOp::F64ConvertI32S, UnaryOp::F64ConvertI32U, UnaryOp::F64ConvertI64S, UnaryOp::F64ConvertI64U, UnaryOp::F64PromoteF32, UnaryOp::I32ReinterpretF32, UnaryOp::I64ReinterpretF64, UnaryOp::F32ReinterpretI32, UnaryOp::F64ReinterpretI64, UnaryOp::I32Extend8S, UnaryOp::I32Extend16S, UnaryOp::I64Extend8S, UnaryOp::I64Extend16S, UnaryOp::I64Extend32S];
    /// Operand type and result type.
    pub fn signature(self) -> (ValType, ValType) {
        match self {
            UnaryOp::I32Eqz => (I32, I32),
            UnaryOp::I64Eqz => (I64, I32),
            UnaryOp::I32Clz => (I32, I32),
            UnaryOp::I32Ctz => (I32, I32),
            UnaryOp::I32Popcnt => (I32, I32),
            UnaryOp::I64Clz => (I64, I64),
            UnaryOp::I64Ctz => (I64, I64),
            UnaryOp::I64Popcnt => (I64, I64),
            UnaryOp::F32Abs => (F32, F32),
            UnaryOp::F32Neg => (F32, F32),
            UnaryOp::F32Ceil => (F32, F32),
            UnaryOp::F32Floor => (F32, F32),
            UnaryOp::F32Trunc => (F32, F32),
            UnaryOp::F32Nearest => (F32, F32),
            UnaryOp::F32Sqrt => (F32, F32),
            UnaryOp::F64Abs => (F64, F64),
            UnaryOp::F64Neg => (F64, F64),
            UnaryOp::F64Ceil => (F64, F64),
            UnaryOp::F64Floor => (F64, F64),
            UnaryOp::F64Trunc => (F64, F64),
            UnaryOp::F64Nearest => (F64, F64),
            UnaryOp::F64Sqrt => (F64, F64),
            UnaryOp::I32WrapI64 => (I64, I32),
            UnaryOp::I32TruncF32S => (F32, I32),
            UnaryOp::I32TruncF32U => (F32, I32),
            UnaryOp::I32TruncF64S => (F64, I32),
            UnaryOp::I32TruncF64U => (F64, I32),
            UnaryOp::I32TruncSatF32S => (F32, I32),
            UnaryOp::I32TruncSatF32U => (F32, I32),
            UnaryOp::I32TruncSatF64S => (F64, I32),
            UnaryOp::I32TruncSatF64U => (F64, I32),
            UnaryOp::I64ExtendI32S => (I32, I64),
            UnaryOp::I64ExtendI32U => (I32, I64),
            UnaryOp::I64TruncF32S => (F32, I64),
            UnaryOp::I64TruncF32U => (F32, I64),
            UnaryOp::I64TruncF64S => (F64, I64),
            UnaryOp::I64TruncF64U => (F64, I64),
            UnaryOp::I64TruncSatF32S => (F32, I64),
            UnaryOp::I64TruncSatF32U => (F32, I64),
            UnaryOp::I64TruncSatF64S => (F64, I64),
            UnaryOp::I64TruncSatF64U => (F64, I64),
            UnaryOp::F32ConvertI32S => (I32, F32),
            UnaryOp::F32ConvertI32U => (I32, F32),
            UnaryOp::F32ConvertI64S => (I64, F32),
            UnaryOp::F32ConvertI64U => (I64, F32),
            UnaryOp::F32DemoteF64 => (F64, F32),
            UnaryOp::F64ConvertI32S => (I32, F64),
            UnaryOp::F64ConvertI32U => (I32, F64),
            UnaryOp::F64ConvertI64S => (I64, F64),
            UnaryOp::F64ConvertI64U => (I64, F64),
            UnaryOp::F64PromoteF32 => (F32, F64),
            UnaryOp::I32ReinterpretF32 => (F32, I32),
            UnaryOp::I64ReinterpretF64 => (F64, I64),
            UnaryOp::F32ReinterpretI32 => (I32, F32),
            UnaryOp::F64ReinterpretI64 => (I64, F64),
            UnaryOp::I32Extend8S => (I32, I32),
            UnaryOp::I32Extend16S => (I32, I32),
            UnaryOp::I64Extend8S => (I64, I64),
            UnaryOp::I64Extend16S => (I64, I64),
            UnaryOp::I64Extend32S => (I64, I64),
        }
    }
    pub(crate) fn decode(op: &P) -> Option<Self> {
        Some(match op {
            P::I32Eqz => UnaryOp::I32Eqz,
            P::I64Eqz => UnaryOp::I64Eqz,
            P::I32Clz => UnaryOp::I32Clz,
            P::I32Ctz => UnaryOp::I32Ctz,
            P::I32Popcnt => UnaryOp::I32Popcnt,
            P::I64Clz => UnaryOp::I64Clz,
            P::I64Ctz => UnaryOp::I64Ctz,
            P::I64Popcnt => UnaryOp::I64Popcnt,
            P::F32Abs => UnaryOp::F32Abs,
            P::F32Neg => UnaryOp::F32Neg,
            P::F32Ceil => UnaryOp::F32Ceil,
            P::F32Floor => UnaryOp::F32Floor,
            P::F32Trunc => UnaryOp::F32Trunc,
            P::F32Nearest => UnaryOp::F32Nearest,
            P::F32Sqrt => UnaryOp::F32Sqrt,
            P::F64Abs => UnaryOp::F64Abs,
            P::F64Neg => UnaryOp::F64Neg,
            P::F64Ceil => UnaryOp::F64Ceil,
            P::F64Floor => UnaryOp::F64Floor,
            P::F64Trunc => UnaryOp::F64Trunc,
            P::F64Nearest => UnaryOp::F64Nearest,
            P::F64Sqrt => UnaryOp::F64Sqrt,
            P::I32WrapI64 => UnaryOp::I32WrapI64,
            P::I32TruncF32S => UnaryOp::I32TruncF32S,
            P::I32TruncF32U => UnaryOp::I32TruncF32U,
            P::I32TruncF64S => UnaryOp::I32TruncF64S,
            P::I32TruncF64U => UnaryOp::I32TruncF64U,
            P::I32TruncSatF32S => UnaryOp::I32TruncSatF32S,
            P::I32TruncSatF32U => UnaryOp::I32TruncSatF32U,
            P::I32TruncSatF64S => UnaryOp::I32TruncSatF64S,
            P::I32TruncSatF64U => UnaryOp::I32TruncSatF64U,
            P::I64ExtendI32S => UnaryOp::I64ExtendI32S,
            P::I64ExtendI32U => UnaryOp::I64ExtendI32U,
            P::I64TruncF32S => UnaryOp::I64TruncF32S,
            P::I64TruncF32U => UnaryOp::I64TruncF32U,
            P::I64TruncF64S => UnaryOp::I64TruncF64S,
            P::I64TruncF64U => UnaryOp::I64TruncF64U,
            P::I64TruncSatF32S => UnaryOp::I64TruncSatF32S,
            P::I64TruncSatF32U => UnaryOp::I64TruncSatF32U,
            P::I64TruncSatF64S => UnaryOp::I64TruncSatF64S,
            P::I64TruncSatF64U => UnaryOp::I64TruncSatF64U,
            P::F32ConvertI32S => UnaryOp::F32ConvertI32S,
            P::F32ConvertI32U => UnaryOp::F32ConvertI32U,
            P::F32ConvertI64S => UnaryOp::F32ConvertI64S,
            P::F32ConvertI64U => UnaryOp::F32ConvertI64U,
            P::F32DemoteF64 => UnaryOp::F32DemoteF64,
            P::F64ConvertI32S => UnaryOp::F64ConvertI32S,
            P::F64ConvertI32U => UnaryOp::F64ConvertI32U,
            P::F64ConvertI64S => UnaryOp::F64ConvertI64S,
            P::F64ConvertI64U => UnaryOp::F64ConvertI64U,
            P::F64PromoteF32 => UnaryOp::F64PromoteF32,
            P::I32ReinterpretF32 => UnaryOp::I32ReinterpretF32,
            P::I64ReinterpretF64 => UnaryOp::I64ReinterpretF64,
            P::F32ReinterpretI32 => UnaryOp::F32ReinterpretI32,
            P::F64ReinterpretI64 => UnaryOp::F64ReinterpretI64,
            P::I32Extend8S => UnaryOp::I32Extend8S,
            P::I32Extend16S => UnaryOp::I32Extend16S,
            P::I64Extend8S => UnaryOp::I64Extend8S,
            P::I64Extend16S => UnaryOp::I64Extend16S,
            P::I64Extend32S => UnaryOp::I64Extend32S,
            _ => return None,
        })
    }
    pub(crate) fn encode(self) -> E<'static> {
        match self {
            UnaryOp::I32Eqz => E::I32Eqz,
            UnaryOp::I64Eqz => E::I64Eqz,
            UnaryOp::I32Clz => E::I32Clz,
            UnaryOp::I32Ctz => E::I32Ctz,
            UnaryOp::I32Popcnt => E::I32Popcnt,
            UnaryOp::I64Clz => E::I64Clz,
            UnaryOp::I64Ctz => E::I64Ctz,
            UnaryOp::I64Popcnt => E::I64Popcnt,
            UnaryOp::F32Abs => E::F32Abs,
            UnaryOp::F32Neg => E::F32Neg,
            UnaryOp::F32Ceil => E::F32Ceil,
            UnaryOp::F32Floor => E::F32Floor,
            UnaryOp::F32Trunc => E::F32Trunc,
            UnaryOp::F32Nearest => E::F32Nearest,
            UnaryOp::F32Sqrt => E::F32Sqrt,
            UnaryOp::F64Abs => E::F64Abs,
            UnaryOp::F64Neg => E::F64Neg,
            UnaryOp::F64Ceil => E::F64Ceil,
            UnaryOp::F64Floor => E::F64Floor,
            UnaryOp::F64Trunc => E::F64Trunc,
            UnaryOp::F64Nearest => E::F64Nearest,
            UnaryOp::F64Sqrt => E::F64Sqrt,
            UnaryOp::I32WrapI64 => E::I32WrapI64,
            UnaryOp::I32TruncF32S => E::I32TruncF32S,
            UnaryOp::I32TruncF32U => E::I32TruncF32U,
            UnaryOp::I32TruncF64S => E::I32TruncF64S,
            UnaryOp::I32TruncF64U => E::I32TruncF64U,
            UnaryOp::I32TruncSatF32S => E::I32TruncSatF32S,
            UnaryOp::I32TruncSatF32U => E::I32TruncSatF32U,
            UnaryOp::I32TruncSatF64S => E::I32TruncSatF64S,
            UnaryOp::I32TruncSatF64U => E::I32TruncSatF64U,
            UnaryOp::I64ExtendI32S => E::I64ExtendI32S,
            UnaryOp::I64ExtendI32U => E::I64ExtendI32U,
            UnaryOp::I64TruncF32S => E::I64TruncF32S,
            UnaryOp::I64TruncF32U => E::I64TruncF32U,
            UnaryOp::I64TruncF64S => E::I64TruncF64S,
            UnaryOp::I64TruncF64U => E::I64TruncF64U,
            UnaryOp::I64TruncSatF32S => E::I64TruncSatF32S,
            UnaryOp::I64TruncSatF32U => E::I64TruncSatF32U,
            UnaryOp::I64TruncSatF64S => E::I64TruncSatF64S,
            UnaryOp::I64TruncSatF64U => E::I64TruncSatF64U,
            UnaryOp::F32ConvertI32S => E::F32ConvertI32S,
            UnaryOp::F32ConvertI32U => E::F32ConvertI32U,
            UnaryOp::F32ConvertI64S => E::F32ConvertI64S,
            UnaryOp::F32ConvertI64U => E::F32ConvertI64U,
            UnaryOp::F32DemoteF64 => E::F32DemoteF64,
            UnaryOp::F64ConvertI32S => E::F64ConvertI32S,
            UnaryOp::F64ConvertI32U => E::F64ConvertI32U,
            UnaryOp::F64ConvertI64S => E::F64ConvertI64S,
            UnaryOp::F64ConvertI64U => E::F64ConvertI64U,
            UnaryOp::F64PromoteF32 => E::F64PromoteF32,
            UnaryOp::I32ReinterpretF32 => E::I32ReinterpretF32,
            UnaryOp::I64ReinterpretF64 => E::I64ReinterpretF64,
            UnaryOp::F32ReinterpretI32 => E::F32ReinterpretI32,
            UnaryOp::F64ReinterpretI64 => E::F64ReinterpretI64,
            UnaryOp::I32Extend8S => E::I32Extend8S,
            UnaryOp::I32Extend16S => E::I32Extend16S,
            UnaryOp::I64Extend8S => E::I64Extend8S,
            UnaryOp::I64Extend16S => E::I64Extend16S,
            UnaryOp::I64Extend32S => E::I64Extend32S,
        }
    }
}

impl BinaryOp {
    pub const ALL: &'static [BinaryOp] = &[BinaryOp::I32Eq, BinaryOp::I32Ne, BinaryOp::I32LtS, BinaryOp::I32LtU, BinaryOp::I32GtS, BinaryOp::I32GtU, BinaryOp::I32LeS, BinaryOp::I32LeU, BinaryOp::I32GeS, BinaryOp::I32GeU, BinaryOp::I64Eq, BinaryOp::I64Ne, BinaryOp::I64LtS, BinaryOp::I64LtU, BinaryOp::I64GtS, BinaryOp::I64GtU, BinaryOp::I64LeS, BinaryOp::I64LeU, BinaryOp::I64GeS, BinaryOp::I64GeU, BinaryOp::F32Eq, BinaryOp::F32Ne, BinaryOp::F32Lt, BinaryOp::F32Gt, BinaryOp::F32Le, BinaryOp::F32Ge, BinaryOp::F64Eq, BinaryOp::F64Ne, BinaryOp::F64Lt, BinaryOp::F64Gt, BinaryOp::F64Le, BinaryOp::F64Ge, BinaryOp::I32Add, BinaryOp::I32Sub, BinaryOp::I32Mul, BinaryOp::I32DivS, BinaryOp::I32DivU, BinaryOp::I32RemS, BinaryOp::I32RemU, BinaryOp::I32And, BinaryOp::I32Or, BinaryOp::I32Xor, BinaryOp::I32Shl, BinaryOp::I32ShrS, BinaryOp::I32ShrU, BinaryOp::I32Rotl, BinaryOp::I32Rotr, BinaryOp::I64Add, BinaryOp::I64Sub, BinaryOp::I64Mul, BinaryOp::I64DivS, BinaryOp::I64DivU, BinaryOp::I64RemS, BinaryOp::I64RemU, BinaryOp::I64And, BinaryOp::I64Or, BinaryOp::I64Xor, BinaryOp::I64Shl, BinaryOp::I64ShrS, BinaryOp::I64ShrU, BinaryOp::I64Rotl, BinaryOp::I64Rotr, BinaryOp::F32Add, BinaryOp::F32Sub, BinaryOp::F32Mul, BinaryOp::F32Div, BinaryOp::F32Min, BinaryOp::F32Max, BinaryOp::F32Copysign, BinaryOp::F64Add, BinaryOp::F64Sub, BinaryOp::F64Mul, BinaryOp::F64Div, BinaryOp::F64Min, BinaryOp::F64Max, BinaryOp::F64Copysign];
    /// Operand type and result type.
    pub fn signature(self) -> (ValType, ValType) {
        match self {
            BinaryOp::I32Eq => (I32, I32),
            BinaryOp::I32Ne => (I32, I32),
            BinaryOp::I32LtS => (I32, I32),
            BinaryOp::I32LtU => (I32, I32),
            BinaryOp::I32GtS => (I32, I32),
            BinaryOp::I32GtU => (I32, I32),
            BinaryOp::I32LeS => (I32, I32),
            BinaryOp::I32LeU => (I32, I32),
            BinaryOp::I32GeS => (I32, I32),
            BinaryOp::I32GeU => (I32, I32),
            BinaryOp::I64Eq => (I64, I32),
            BinaryOp::I64Ne => (I64, I32),
            BinaryOp::I64LtS => (I64, I32),
            BinaryOp::I64LtU => (I64, I32),
            BinaryOp::I64GtS => (I64, I32),
            BinaryOp::I64GtU => (I64, I32),
            BinaryOp::I64LeS => (I64, I32),
            BinaryOp::I64LeU => (I64, I32),
            BinaryOp::I64GeS => (I64, I32),
            BinaryOp::I64GeU => (I64, I32),
            BinaryOp::F32Eq => (F32, I32),
            BinaryOp::F32Ne => (F32, I32),
            BinaryOp::F32Lt => (F32, I32),
            BinaryOp::F32Gt => (F32, I32),
            BinaryOp::F32Le => (F32, I32),
            BinaryOp::F32Ge => (F32, I32),
            BinaryOp::F64Eq => (F64, I32),
            BinaryOp::F64Ne => (F64, I32),
            BinaryOp::F64Lt => (F64, I32),
            BinaryOp::F64Gt => (F64, I32),
            BinaryOp::F64Le => (F64, I32),
            BinaryOp::F64Ge => (F64, I32),
            BinaryOp::I32Add => (I32, I32),
            BinaryOp::I32Sub => (I32, I32),
            BinaryOp::I32Mul => (I32, I32),
            BinaryOp::I32DivS => (I32, I32),
            BinaryOp::I32DivU => (I32, I32),
            BinaryOp::I32RemS => (I32, I32),
            BinaryOp::I32RemU => (I32, I32),
            BinaryOp::I32And => (I32, I32),
            BinaryOp::I32Or => (I32, I32),
            BinaryOp::I32Xor => (I32, I32),
            BinaryOp::I32Shl => (I32, I32),
            BinaryOp::I32ShrS => (I32, I32),
            BinaryOp::I32ShrU => (I32, I32),
            BinaryOp::I32Rotl => (I32, I32),
            BinaryOp::I32Rotr => (I32, I32),
            BinaryOp::I64Add => (I64, I64),
            BinaryOp::I64Sub => (I64, I64),
            BinaryOp::I64Mul => (I64, I64),
            BinaryOp::I64DivS => (I64, I64),
            BinaryOp::I64DivU => (I64, I64),
            BinaryOp::I64RemS => (I64, I64),
            BinaryOp::I64RemU => (I64, I64),
            BinaryOp::I64And => (I64, I64),
            BinaryOp::I64Or => (I64, I64),
            BinaryOp::I64Xor => (I64, I64),
            BinaryOp::I64Shl => (I64, I64),
            BinaryOp::I64ShrS => (I64, I64),
            BinaryOp::I64ShrU => (I64, I64),
            BinaryOp::I64Rotl => (I64, I64),
            BinaryOp::I64Rotr => (I64, I64),
            BinaryOp::F32Add => (F32, F32),
            BinaryOp::F32Sub => (F32, F32),
            BinaryOp::F32Mul => (F32, F32),
            BinaryOp::F32Div => (F32, F32),
            BinaryOp::F32Min => (F32, F32),
            BinaryOp::F32Max => (F32, F32),
            BinaryOp::F32Copysign => (F32, F32),
            BinaryOp::F64Add => (F64, F64),
            BinaryOp::F64Sub => (F64, F64),
            BinaryOp::F64Mul => (F64, F64),
            BinaryOp::F64Div => (F64, F64),
            BinaryOp::F64Min => (F64, F64),
            BinaryOp::F64Max => (F64, F64),
            BinaryOp::F64Copysign => (F64, F64),
        }
    }
    pub(crate) fn decode(op: &P) -> Option<Self> {
        Some(match op {
            P::I32Eq => BinaryOp::I32Eq,
            P::I32Ne => BinaryOp::I32Ne,
            P::I32LtS => BinaryOp::I32LtS,
            P::I32LtU => BinaryOp::I32LtU,
            P::I32GtS => BinaryOp::I32GtS,
            P::I32GtU => BinaryOp::I32GtU,
            P::I32LeS => BinaryOp::I32LeS,
            P::I32LeU => BinaryOp::I32LeU,
            P::I32GeS => BinaryOp::I32GeS,
            P::I32GeU => BinaryOp::I32GeU,
            P::I64Eq => BinaryOp::I64Eq,
            P::I64Ne => BinaryOp::I64Ne,
            P::I64LtS => BinaryOp::I64LtS,
            P::I64LtU => BinaryOp::I64LtU,
            P::I64GtS => BinaryOp::I64GtS,
            P::I64GtU => BinaryOp::I64GtU,
            P::I64LeS => BinaryOp::I64LeS,
            P::I64LeU => BinaryOp::I64LeU,
            P::I64GeS => BinaryOp::I64GeS,
            P::I64GeU => BinaryOp::I64GeU,
            P::F32Eq => BinaryOp::F32Eq,
            P::F32Ne => BinaryOp::F32Ne,
            P::F32Lt => BinaryOp::F32Lt,
            P::F32Gt => BinaryOp::F32Gt,
            P::F32Le => BinaryOp::F32Le,
            P::F32Ge => BinaryOp::F32Ge,
            P::F64Eq => BinaryOp::F64Eq,
            P::F64Ne => BinaryOp::F64Ne,
            P::F64Lt => BinaryOp::F64Lt,
            P::F64Gt => BinaryOp::F64Gt,
            P::F64Le => BinaryOp::F64Le,
            P::F64Ge => BinaryOp::F64Ge,
            P::I32Add => BinaryOp::I32Add,
            P::I32Sub => BinaryOp::I32Sub,
            P::I32Mul => BinaryOp::I32Mul,
            P::I32DivS => BinaryOp::I32DivS,
            P::I32DivU => BinaryOp::I32DivU,
            P::I32RemS => BinaryOp::I32RemS,
            P::I32RemU => BinaryOp::I32RemU,
            P::I32And => BinaryOp::I32And,
            P::I32Or => BinaryOp::I32Or,
            P::I32Xor => BinaryOp::I32Xor,
            P::I32Shl => BinaryOp::I32Shl,
            P::I32ShrS => BinaryOp::I32ShrS,
            P::I32ShrU => BinaryOp::I32ShrU,
            P::I32Rotl => BinaryOp::I32Rotl,
            P::I32Rotr => BinaryOp::I32Rotr,
            P::I64Add => BinaryOp::I64Add,
            P::I64Sub => BinaryOp::I64Sub,
            P::I64Mul => BinaryOp::I64Mul,
            P::I64DivS => BinaryOp::I64DivS,
            P::I64DivU => BinaryOp::I64DivU,
            P::I64RemS => BinaryOp::I64RemS,
            P::I64RemU => BinaryOp::I64RemU,
            P::I64And => BinaryOp::I64And,
            P::I64Or => BinaryOp::I64Or,
            P::I64Xor => BinaryOp::I64Xor,
            P::I64Shl => BinaryOp::I64Shl,
            P::I64ShrS => BinaryOp::I64ShrS,
            P::I64ShrU => BinaryOp::I64ShrU,
            P::I64Rotl => BinaryOp::I64Rotl,
            P::I64Rotr => BinaryOp::I64Rotr,
            P::F32Add => BinaryOp::F32Add,
            P::F32Sub => BinaryOp::F32Sub,
            P::F32Mul => BinaryOp::F32Mul,
            P::F32Div => BinaryOp::F32Div,
            P::F32Min => BinaryOp::F32Min,
            P::F32Max => BinaryOp::F32Max,
            P::F32Copysign => BinaryOp::F32Copysign,
            P::F64Add => BinaryOp::F64Add,
            P::F64Sub => BinaryOp::F64Sub,
            P::F64Mul => BinaryOp::F64Mul,
            P::F64Div => BinaryOp::F64Div,
            P::F64Min => BinaryOp::F64Min,
            P::F64Max => BinaryOp::F64Max,
            P::F64Copysign => BinaryOp::F64Copysign,
            _ => return None,
        })
    }
    pub(crate) fn encode(self) -> E<'static> {
        match self {
            BinaryOp::I32Eq => E::I32Eq,
            BinaryOp::I32Ne => E::I32Ne,
            BinaryOp::I32LtS => E::I32LtS,
            BinaryOp::I32LtU => E::I32LtU,
            BinaryOp::I32GtS => E::I32GtS,
            BinaryOp::I32GtU => E::I32GtU,
            BinaryOp::I32LeS => E::I32LeS,
            BinaryOp::I32LeU => E::I32LeU,
            BinaryOp::I32GeS => E::I32GeS,
            BinaryOp::I32GeU => E::I32GeU,
            BinaryOp::I64Eq => E::I64Eq,
            BinaryOp::I64Ne => E::I64Ne,
            BinaryOp::I64LtS => E::I64LtS,
            BinaryOp::I64LtU => E::I64LtU,
            BinaryOp::I64GtS => E::I64GtS,
            BinaryOp::I64GtU => E::I64GtU,
            BinaryOp::I64LeS => E::I64LeS,
            BinaryOp::I64LeU => E::I64LeU,
            BinaryOp::I64GeS => E::I64GeS,
            BinaryOp::I64GeU => E::I64GeU,
            BinaryOp::F32Eq => E::F32Eq,
            BinaryOp::F32Ne => E::F32Ne,
            BinaryOp::F32Lt => E::F32Lt,
            BinaryOp::F32Gt => E::F32Gt,
            BinaryOp::F32Le => E::F32Le,
            BinaryOp::F32Ge => E::F32Ge,
            BinaryOp::F64Eq => E::F64Eq,
            BinaryOp::F64Ne => E::F64Ne,
            BinaryOp::F64Lt => E::F64Lt,
            BinaryOp::F64Gt => E::F64Gt,
            BinaryOp::F64Le => E::F64Le,
            BinaryOp::F64Ge => E::F64Ge,
            BinaryOp::I32Add => E::I32Add,
            BinaryOp::I32Sub => E::I32Sub,
            BinaryOp::I32Mul => E::I32Mul,
            BinaryOp::I32DivS => E::I32DivS,
            BinaryOp::I32DivU => E::I32DivU,
            BinaryOp::I32RemS => E::I32RemS,
            BinaryOp::I32RemU => E::I32RemU,
            BinaryOp::I32And => E::I32And,
            BinaryOp::I32Or => E::I32Or,
            BinaryOp::I32Xor => E::I32Xor,
            BinaryOp::I32Shl => E::I32Shl,
            BinaryOp::I32ShrS => E::I32ShrS,
            BinaryOp::I32ShrU => E::I32ShrU,
            BinaryOp::I32Rotl => E::I32Rotl,
            BinaryOp::I32Rotr => E::I32Rotr,
            BinaryOp::I64Add => E::I64Add,
            BinaryOp::I64Sub => E::I64Sub,
            BinaryOp::I64Mul => E::I64Mul,
            BinaryOp::I64DivS => E::I64DivS,
            BinaryOp::I64DivU => E::I64DivU,
            BinaryOp::I64RemS => E::I64RemS,
            BinaryOp::I64RemU => E::I64RemU,
            BinaryOp::I64And => E::I64And,
            BinaryOp::I64Or => E::I64Or,
            BinaryOp::I64Xor => E::I64Xor,
            BinaryOp::I64Shl => E::I64Shl,
            BinaryOp::I64ShrS => E::I64ShrS,
            BinaryOp::I64ShrU => E::I64ShrU,
            BinaryOp::I64Rotl => E::I64Rotl,
            BinaryOp::I64Rotr => E::I64Rotr,
            BinaryOp::F32Add => E::F32Add,
            BinaryOp::F32Sub => E::F32Sub,
            BinaryOp::F32Mul => E::F32Mul,
            BinaryOp::F32Div => E::F32Div,
            BinaryOp::F32Min => E::F32Min,
            BinaryOp::F32Max => E::F32Max,
            BinaryOp::F32Copysign => E::F32Copysign,
            BinaryOp::F64Add => E::F64Add,
            BinaryOp::F64Sub => E::F64Sub,
            BinaryOp::F64Mul => E::F64Mul,
            BinaryOp::F64Div => E::F64Div,
            BinaryOp::F64Min => E::F64Min,
            BinaryOp::F64Max => E::F64Max,
            BinaryOp::F64Copysign => E::F64Copysign,
        }
    }
}

impl LoadOp {
    pub const ALL: &'static [LoadOp] = &[LoadOp::I32Load, LoadOp::I64Load, LoadOp::F32Load, LoadOp::F64Load, LoadOp::I32Load8S, LoadOp::I32Load8U, LoadOp::I32Load16S, LoadOp::I32Load16U, LoadOp::I64Load8S, LoadOp::I64Load8U, LoadOp::I64Load16S, LoadOp::I64Load16U, LoadOp::I64Load32S, LoadOp::I64Load32U];
    pub fn value_type(self) -> ValType {
        match self {
            LoadOp::I32Load => I32,
            LoadOp::I64Load => I64,
            LoadOp::F32Load => F32,
            LoadOp::F64Load => F64,
            LoadOp::I32Load8S => I32,
            LoadOp::I32Load8U => I32,
            LoadOp::I32Load16S => I32,
            LoadOp::I32Load16U => I32,
            LoadOp::I64Load8S => I64,
            LoadOp::I64Load8U => I64,
            LoadOp::I64Load16S => I64,
            LoadOp::I64Load16U => I64,
            LoadOp::I64Load32S => I64,
            LoadOp::I64Load32U => I64,
        }
    }
    pub(crate) fn decode(op: &P) -> Option<(Self, wasmparser::MemArg)> {
        Some(match op {
            P::I32Load { memarg } => (LoadOp::I32Load, *memarg),
            P::I64Load { memarg } => (LoadOp::I64Load, *memarg),
            P::F32Load { memarg } => (LoadOp::F32Load, *memarg),
            P::F64Load { memarg } => (LoadOp::F64Load, *memarg),
            P::I32Load8S { memarg } => (LoadOp::I32Load8S, *memarg),
            P::I32Load8U { memarg } => (LoadOp::I32Load8U, *memarg),
            P::I32Load16S { memarg } => (LoadOp::I32Load16S, *memarg),
            P::I32Load16U { memarg } => (LoadOp::I32Load16U, *memarg),
            P::I64Load8S { memarg } => (LoadOp::I64Load8S, *memarg),
            P::I64Load8U { memarg } => (LoadOp::I64Load8U, *memarg),
            P::I64Load16S { memarg } => (LoadOp::I64Load16S, *memarg),
            P::I64Load16U { memarg } => (LoadOp::I64Load16U, *memarg),
            P::I64Load32S { memarg } => (LoadOp::I64Load32S, *memarg),
            P::I64Load32U { memarg } => (LoadOp::I64Load32U, *memarg),
            _ => return None,
        })
    }
    pub(crate) fn encode(self, m: wasm_encoder::MemArg) -> E<'static> {
        match self {
            LoadOp::I32Load => E::I32Load(m),
            LoadOp::I64Load => E::I64Load(m),
            LoadOp::F32Load => E::F32Load(m),
            LoadOp::F64Load => E::F64Load(m),
            LoadOp::I32Load8S => E::I32Load8S(m),
            LoadOp::I32Load8U => E::I32Load8U(m),
            LoadOp::I32Load16S => E::I32Load16S(m),
            LoadOp::I32Load16U => E::I32Load16U(m),
            LoadOp::I64Load8S => E::I64Load8S(m),
            LoadOp::I64Load8U => E::I64Load8U(m),
            LoadOp::I64Load16S => E::I64Load16S(m),
            LoadOp::I64Load16U => E::I64Load16U(m),
            LoadOp::I64Load32S => E::I64Load32S(m),
            LoadOp::I64Load32U => E::I64Load32U(m),
        }
    }
}

impl MemoryOp for LoadOp {
    fn natural_alignment_exp(&self) -> u8 {
        match self {
            LoadOp::I32Load => 2,
            LoadOp::I64Load => 3,
            LoadOp::F32Load => 2,
            LoadOp::F64Load => 3,
            LoadOp::I32Load8S => 0,
            LoadOp::I32Load8U => 0,
            LoadOp::I32Load16S => 1,
            LoadOp::I32Load16U => 1,
            LoadOp::I64Load8S => 0,
            LoadOp::I64Load8U => 0,
            LoadOp::I64Load16S => 1,
            LoadOp::I64Load16U => 1,
            LoadOp::I64Load32S => 2,
            LoadOp::I64Load32U => 2,
        }
    }
}

impl StoreOp {
    pub const ALL: &'static [StoreOp] = &[StoreOp::I32Store, StoreOp::I64Store, StoreOp::F32Store, StoreOp::F64Store, StoreOp::I32Store8, StoreOp::I32Store16, StoreOp::I64Store8, StoreOp::I64Store16, StoreOp::I64Store32];
    pub fn value_type(self) -> ValType {
        match self {
            StoreOp::I32Store => I32,
            StoreOp::I64Store => I64,
            StoreOp::F32Store => F32,
            StoreOp::F64Store => F64,
            StoreOp::I32Store8 => I32,
            StoreOp::I32Store16 => I32,
            StoreOp::I64Store8 => I64,
            StoreOp::I64Store16 => I64,
            StoreOp::I64Store32 => I64,
        }
    }
    pub(crate) fn decode(op: &P) -> Option<(Self, wasmparser::MemArg)> {
        Some(match op {
            P::I32Store { memarg } => (StoreOp::I32Store, *memarg),
            P::I64Store { memarg } => (StoreOp::I64Store, *memarg),
            P::F32Store { memarg } => (StoreOp::F32Store, *memarg),
            P::F64Store { memarg } => (StoreOp::F64Store, *memarg),
            P::I32Store8 { memarg } => (StoreOp::I32Store8, *memarg),
            P::I32Store16 { memarg } => (StoreOp::I32Store16, *memarg),
            P::I64Store8 { memarg } => (StoreOp::I64Store8, *memarg),
            P::I64Store16 { memarg } => (StoreOp::I64Store16, *memarg),
            P::I64Store32 { memarg } => (StoreOp::I64Store32, *memarg),
            _ => return None,
        })
    }
    pub(crate) fn encode(self, m: wasm_encoder::MemArg) -> E<'static> {
        match self {
            StoreOp::I32Store => E::I32Store(m),
            StoreOp::I64Store => E::I64Store(m),
            StoreOp::F32Store => E::F32Store(m),
            StoreOp::F64Store => E::F64Store(m),
            StoreOp::I32Store8 => E::I32Store8(m),
            StoreOp::I32Store16 => E::I32Store16(m),
            StoreOp::I64Store8 => E::I64Store8(m),
            StoreOp::I64Store16 => E::I64Store16(m),
            StoreOp::I64Store32 => E::I64Store32(m),
        }
    }
}

impl MemoryOp for StoreOp {
    fn natural_alignment_exp(&self) -> u8 {
        match self {
            StoreOp::I32Store => 2,
            StoreOp::I64Store => 3,
            StoreOp::F32Store => 2,
            StoreOp::F64Store => 3,
            StoreOp::I32Store8 => 0,
            StoreOp::I32Store16 => 1,
            StoreOp::I64Store8 => 0,
            StoreOp::I64Store16 => 1,
            StoreOp::I64Store32 => 2,
        }
    }
}
