//! Operators in the order of the codes the specification gives them (spec/Codes.tla).
//! Independent of the tables of /repo.

pub const UNARY: [&str; 60] = [
    "i32.eqz", "i64.eqz", "i32.clz", "i32.ctz", "i32.popcnt", "i64.clz", "i64.ctz", "i64.popcnt",
    "f32.abs", "f32.neg", "f32.ceil", "f32.floor", "f32.trunc", "f32.nearest", "f32.sqrt",
    "f64.abs", "f64.neg", "f64.ceil", "f64.floor", "f64.trunc", "f64.nearest", "f64.sqrt",
    "i32.wrap_i64", "i32.trunc_f32_s", "i32.trunc_f32_u", "i32.trunc_f64_s", "i32.trunc_f64_u",
    "i32.trunc_sat_f32_s", "i32.trunc_sat_f32_u", "i32.trunc_sat_f64_s", "i32.trunc_sat_f64_u",
    "i64.extend_i32_s", "i64.extend_i32_u", "i64.trunc_f32_s", "i64.trunc_f32_u", "i64.trunc_f64_s",
    "i64.trunc_f64_u", "i64.trunc_sat_f32_s", "i64.trunc_sat_f32_u", "i64.trunc_sat_f64_s",
    "i64.trunc_sat_f64_u", "f32.convert_i32_s", "f32.convert_i32_u", "f32.convert_i64_s",
    "f32.convert_i64_u", "f32.demote_f64", "f64.convert_i32_s", "f64.convert_i32_u",
    "f64.convert_i64_s", "f64.convert_i64_u", "f64.promote_f32", "i32.reinterpret_f32",
    "i64.reinterpret_f64", "f32.reinterpret_i32", "f64.reinterpret_i64", "i32.extend8_s",
    "i32.extend16_s", "i64.extend8_s", "i64.extend16_s", "i64.extend32_s",
];

pub const BINARY: [&str; 76] = [
    "i32.eq", "i32.ne", "i32.lt_s", "i32.lt_u", "i32.gt_s", "i32.gt_u", "i32.le_s", "i32.le_u",
    "i32.ge_s", "i32.ge_u", "i64.eq", "i64.ne", "i64.lt_s", "i64.lt_u", "i64.gt_s", "i64.gt_u",
    "i64.le_s", "i64.le_u", "i64.ge_s", "i64.ge_u", "f32.eq", "f32.ne", "f32.lt", "f32.gt",
    "f32.le", "f32.ge", "f64.eq", "f64.ne", "f64.lt", "f64.gt", "f64.le", "f64.ge", "i32.add",
    "i32.sub", "i32.mul", "i32.div_s", "i32.div_u", "i32.rem_s", "i32.rem_u", "i32.and", "i32.or",
    "i32.xor", "i32.shl", "i32.shr_s", "i32.shr_u", "i32.rotl", "i32.rotr", "i64.add", "i64.sub",
    "i64.mul", "i64.div_s", "i64.div_u", "i64.rem_s", "i64.rem_u", "i64.and", "i64.or", "i64.xor",
    "i64.shl", "i64.shr_s", "i64.shr_u", "i64.rotl", "i64.rotr", "f32.add", "f32.sub", "f32.mul",
    "f32.div", "f32.min", "f32.max", "f32.copysign", "f64.add", "f64.sub", "f64.mul", "f64.div",
    "f64.min", "f64.max", "f64.copysign",
];

/// Suffixes of the exported accessors, in code order.
pub const LOADS: [&str; 14] = [
    "i32", "i64", "f32", "f64", "i32_8S", "i32_8U", "i32_16S", "i32_16U", "i64_8S", "i64_8U",
    "i64_16S", "i64_16U", "i64_32S", "i64_32U",
];
pub const STORES: [&str; 9] = [
    "i32", "i64", "f32", "f64", "i32_8", "i32_16", "i64_8", "i64_16", "i64_32",
];

fn is_comparison(name: &str) -> bool {
    let op = name.split('.').nth(1).unwrap();
    matches!(op.split('_').next().unwrap(), "eq" | "ne" | "lt" | "gt" | "le" | "ge" | "eqz")
}

/// (operand type, result type)
pub fn unary_type(name: &str) -> (&str, &str) {
    let (t, op) = name.split_once('.').unwrap();
    if op == "eqz" {
        return (t, "i32");
    }
    if op.starts_with("extend8") || op.starts_with("extend16") || op.starts_with("extend32") {
        return (t, t);
    }
    for src in ["i32", "i64", "f32", "f64"] {
        if op.contains(&format!("_{src}")) {
            return (src, t);
        }
    }
    (t, t)
}

pub fn binary_type(name: &str) -> (&str, &str) {
    let (t, _) = name.split_once('.').unwrap();
    (t, if is_comparison(name) { "i32" } else { t })
}

/// A module with one exported function per operator: the engine's own arithmetic.
pub fn alu_wat() -> String {
    let mut wat = String::from("(module\n");
    for (i, op) in UNARY.iter().enumerate() {
        let (p, r) = unary_type(op);
        wat += &format!("(func (export \"u{}\") (param {p}) (result {r}) local.get 0 {op})\n", i + 1);
    }
    for (i, op) in BINARY.iter().enumerate() {
        let (p, r) = binary_type(op);
        wat += &format!(
            "(func (export \"b{}\") (param {p} {p}) (result {r}) local.get 0 local.get 1 {op})\n",
            i + 1
        );
    }
    wat + ")"
}
