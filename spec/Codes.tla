------------------------------- MODULE Codes -------------------------------
(***************************************************************************)
(* Numeric operators and memory accesses, their types, and the code each   *)
(* one has in notifications: the position in these lists.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

UnaryOps == <<
  <<"i32.eqz", "i32", "i32">>, <<"i64.eqz", "i64", "i32">>,
  <<"i32.clz", "i32", "i32">>, <<"i32.ctz", "i32", "i32">>, <<"i32.popcnt", "i32", "i32">>,
  <<"i64.clz", "i64", "i64">>, <<"i64.ctz", "i64", "i64">>, <<"i64.popcnt", "i64", "i64">>,
  <<"f32.abs", "f32", "f32">>, <<"f32.neg", "f32", "f32">>, <<"f32.ceil", "f32", "f32">>,
  <<"f32.floor", "f32", "f32">>, <<"f32.trunc", "f32", "f32">>, <<"f32.nearest", "f32", "f32">>,
  <<"f32.sqrt", "f32", "f32">>,
  <<"f64.abs", "f64", "f64">>, <<"f64.neg", "f64", "f64">>, <<"f64.ceil", "f64", "f64">>,
  <<"f64.floor", "f64", "f64">>, <<"f64.trunc", "f64", "f64">>, <<"f64.nearest", "f64", "f64">>,
  <<"f64.sqrt", "f64", "f64">>,
  <<"i32.wrap_i64", "i64", "i32">>,
  <<"i32.trunc_f32_s", "f32", "i32">>, <<"i32.trunc_f32_u", "f32", "i32">>,
  <<"i32.trunc_f64_s", "f64", "i32">>, <<"i32.trunc_f64_u", "f64", "i32">>,
  <<"i32.trunc_sat_f32_s", "f32", "i32">>, <<"i32.trunc_sat_f32_u", "f32", "i32">>,
  <<"i32.trunc_sat_f64_s", "f64", "i32">>, <<"i32.trunc_sat_f64_u", "f64", "i32">>,
  <<"i64.extend_i32_s", "i32", "i64">>, <<"i64.extend_i32_u", "i32", "i64">>,
  <<"i64.trunc_f32_s", "f32", "i64">>, <<"i64.trunc_f32_u", "f32", "i64">>,
  <<"i64.trunc_f64_s", "f64", "i64">>, <<"i64.trunc_f64_u", "f64", "i64">>,
  <<"i64.trunc_sat_f32_s", "f32", "i64">>, <<"i64.trunc_sat_f32_u", "f32", "i64">>,
  <<"i64.trunc_sat_f64_s", "f64", "i64">>, <<"i64.trunc_sat_f64_u", "f64", "i64">>,
  <<"f32.convert_i32_s", "i32", "f32">>, <<"f32.convert_i32_u", "i32", "f32">>,
  <<"f32.convert_i64_s", "i64", "f32">>, <<"f32.convert_i64_u", "i64", "f32">>,
  <<"f32.demote_f64", "f64", "f32">>,
  <<"f64.convert_i32_s", "i32", "f64">>, <<"f64.convert_i32_u", "i32", "f64">>,
  <<"f64.convert_i64_s", "i64", "f64">>, <<"f64.convert_i64_u", "i64", "f64">>,
  <<"f64.promote_f32", "f32", "f64">>,
  <<"i32.reinterpret_f32", "f32", "i32">>, <<"i64.reinterpret_f64", "f64", "i64">>,
  <<"f32.reinterpret_i32", "i32", "f32">>, <<"f64.reinterpret_i64", "i64", "f64">>,
  <<"i32.extend8_s", "i32", "i32">>, <<"i32.extend16_s", "i32", "i32">>,
  <<"i64.extend8_s", "i64", "i64">>, <<"i64.extend16_s", "i64", "i64">>, <<"i64.extend32_s", "i64", "i64">> >>

BinaryOps == <<
  <<"i32.eq", "i32", "i32">>, <<"i32.ne", "i32", "i32">>, <<"i32.lt_s", "i32", "i32">>, <<"i32.lt_u", "i32", "i32">>,
  <<"i32.gt_s", "i32", "i32">>, <<"i32.gt_u", "i32", "i32">>, <<"i32.le_s", "i32", "i32">>, <<"i32.le_u", "i32", "i32">>,
  <<"i32.ge_s", "i32", "i32">>, <<"i32.ge_u", "i32", "i32">>,
  <<"i64.eq", "i64", "i32">>, <<"i64.ne", "i64", "i32">>, <<"i64.lt_s", "i64", "i32">>, <<"i64.lt_u", "i64", "i32">>,
  <<"i64.gt_s", "i64", "i32">>, <<"i64.gt_u", "i64", "i32">>, <<"i64.le_s", "i64", "i32">>, <<"i64.le_u", "i64", "i32">>,
  <<"i64.ge_s", "i64", "i32">>, <<"i64.ge_u", "i64", "i32">>,
  <<"f32.eq", "f32", "i32">>, <<"f32.ne", "f32", "i32">>, <<"f32.lt", "f32", "i32">>, <<"f32.gt", "f32", "i32">>,
  <<"f32.le", "f32", "i32">>, <<"f32.ge", "f32", "i32">>,
  <<"f64.eq", "f64", "i32">>, <<"f64.ne", "f64", "i32">>, <<"f64.lt", "f64", "i32">>, <<"f64.gt", "f64", "i32">>,
  <<"f64.le", "f64", "i32">>, <<"f64.ge", "f64", "i32">>,
  <<"i32.add", "i32", "i32">>, <<"i32.sub", "i32", "i32">>, <<"i32.mul", "i32", "i32">>, <<"i32.div_s", "i32", "i32">>,
  <<"i32.div_u", "i32", "i32">>, <<"i32.rem_s", "i32", "i32">>, <<"i32.rem_u", "i32", "i32">>, <<"i32.and", "i32", "i32">>,
  <<"i32.or", "i32", "i32">>, <<"i32.xor", "i32", "i32">>, <<"i32.shl", "i32", "i32">>, <<"i32.shr_s", "i32", "i32">>,
  <<"i32.shr_u", "i32", "i32">>, <<"i32.rotl", "i32", "i32">>, <<"i32.rotr", "i32", "i32">>,
  <<"i64.add", "i64", "i64">>, <<"i64.sub", "i64", "i64">>, <<"i64.mul", "i64", "i64">>, <<"i64.div_s", "i64", "i64">>,
  <<"i64.div_u", "i64", "i64">>, <<"i64.rem_s", "i64", "i64">>, <<"i64.rem_u", "i64", "i64">>, <<"i64.and", "i64", "i64">>,
  <<"i64.or", "i64", "i64">>, <<"i64.xor", "i64", "i64">>, <<"i64.shl", "i64", "i64">>, <<"i64.shr_s", "i64", "i64">>,
  <<"i64.shr_u", "i64", "i64">>, <<"i64.rotl", "i64", "i64">>, <<"i64.rotr", "i64", "i64">>,
  <<"f32.add", "f32", "f32">>, <<"f32.sub", "f32", "f32">>, <<"f32.mul", "f32", "f32">>, <<"f32.div", "f32", "f32">>,
  <<"f32.min", "f32", "f32">>, <<"f32.max", "f32", "f32">>, <<"f32.copysign", "f32", "f32">>,
  <<"f64.add", "f64", "f64">>, <<"f64.sub", "f64", "f64">>, <<"f64.mul", "f64", "f64">>, <<"f64.div", "f64", "f64">>,
  <<"f64.min", "f64", "f64">>, <<"f64.max", "f64", "f64">>, <<"f64.copysign", "f64", "f64">> >>

(* name, type of the value, bytes accessed, sign extension                 *)
LoadOps == <<
  <<"i32.load", "i32", 4, "n">>, <<"i64.load", "i64", 8, "n">>, <<"f32.load", "f32", 4, "n">>, <<"f64.load", "f64", 8, "n">>,
  <<"i32.load8_s", "i32", 1, "s">>, <<"i32.load8_u", "i32", 1, "u">>, <<"i32.load16_s", "i32", 2, "s">>, <<"i32.load16_u", "i32", 2, "u">>,
  <<"i64.load8_s", "i64", 1, "s">>, <<"i64.load8_u", "i64", 1, "u">>, <<"i64.load16_s", "i64", 2, "s">>, <<"i64.load16_u", "i64", 2, "u">>,
  <<"i64.load32_s", "i64", 4, "s">>, <<"i64.load32_u", "i64", 4, "u">> >>

StoreOps == <<
  <<"i32.store", "i32", 4>>, <<"i64.store", "i64", 8>>, <<"f32.store", "f32", 4>>, <<"f64.store", "f64", 8>>,
  <<"i32.store8", "i32", 1>>, <<"i32.store16", "i32", 2>>,
  <<"i64.store8", "i64", 1>>, <<"i64.store16", "i64", 2>>, <<"i64.store32", "i64", 4>> >>

Names(ops) == { ops[i][1] : i \in DOMAIN ops }
IndexIn(ops) == [n \in Names(ops) |-> CHOOSE i \in DOMAIN ops : ops[i][1] = n]
UCode == IndexIn(UnaryOps)
BCode == IndexIn(BinaryOps)
LCode == IndexIn(LoadOps)
SCode == IndexIn(StoreOps)

(* Every operator has one code and every code one operator: a code can be  *)
(* decoded.                                                                *)
Injective(ops) == \A i, j \in DOMAIN ops : ops[i][1] = ops[j][1] => i = j

(* The notification of an operator, by its operand and result types.       *)
UnaryTrap(i) == "unary_" \o UnaryOps[i][2] \o "_to_" \o UnaryOps[i][3]
BinaryTrap(i) == "binary_" \o BinaryOps[i][2] \o "_" \o BinaryOps[i][2] \o "_to_" \o BinaryOps[i][3]
LoadTrap(i) == "trap_" \o LoadOps[i][2] \o "_load"
StoreTrap(i) == "trap_" \o StoreOps[i][2] \o "_store"
ASSUME \A ops \in {UnaryOps, BinaryOps, LoadOps, StoreOps} : Injective(ops)
ASSUME Names(UnaryOps) \cap Names(BinaryOps) = {} /\ Names(LoadOps) \cap Names(StoreOps) = {}
=============================================================================
