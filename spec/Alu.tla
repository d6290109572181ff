-------------------------------- MODULE Alu --------------------------------
(***************************************************************************)
(* Values and arithmetic of WebAssembly.  A value is the sequence of its   *)
(* bytes, least significant first (4 for i32/f32, 8 for i64/f64).  Integer *)
(* operators are specified completely.  Floating-point operators are       *)
(* specified where they are bit manipulation, comparison, or exact on      *)
(* small whole numbers; elsewhere the result is "u" (not modelled) and     *)
(* whoever steps on it must stop judging.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

V(b) == [s |-> "v", v |-> b]
Tr(t) == [s |-> "t", v |-> <<>>, t |-> t]
U == [s |-> "u", v |-> <<>>]

(* the sequence f, evaluated                                               *)
Force(f) == SubSeq(f, 1, Len(f))
Rep(x, n) == Force([i \in 1..n |-> x])
Zero(n) == Rep(0, n)
Last(b) == b[Len(b)]
IsNeg(b) == Last(b) >= 128

RECURSIVE FromNatR(_, _)
FromNatR(x, n) == IF n = 0 THEN <<>> ELSE <<x % 256>> \o FromNatR(x \div 256, n - 1)
I32(x) == FromNatR(x, 4)
I64(x) == FromNatR(x, 8)
Bool(x) == IF x THEN <<1, 0, 0, 0>> ELSE <<0, 0, 0, 0>>

RECURSIVE AllFrom(_, _, _)
AllFrom(b, i, x) == i > Len(b) \/ (b[i] = x /\ AllFrom(b, i + 1, x))
IsZero(b) == AllFrom(b, 1, 0)

(* value of a bit string below 2^31, or TooBig                             *)
TooBig == -1
ToNat(b) == IF (Len(b) = 4 \/ AllFrom(b, 5, 0)) /\ b[4] < 128
            THEN b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4] ELSE TooBig

Inv(b) == Force([i \in 1..Len(b) |-> 255 - b[i]])
RECURSIVE AddR(_, _, _, _)
AddR(a, b, i, c) == IF i > Len(a) THEN <<>>
                    ELSE LET x == a[i] + b[i] + c IN <<x % 256>> \o AddR(a, b, i + 1, x \div 256)
Add(a, b) == AddR(a, b, 1, 0)
Sub(a, b) == AddR(a, Inv(b), 1, 1)
Neg(a) == Sub(Zero(Len(a)), a)

RECURSIVE ColumnR(_, _, _, _)
ColumnR(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + ColumnR(a, b, k, i + 1)
RECURSIVE MulR(_, _, _, _)
MulR(a, b, k, c) == IF k > Len(a) THEN <<>>
                    ELSE LET x == ColumnR(a, b, k, 1) + c IN <<x % 256>> \o MulR(a, b, k + 1, x \div 256)
Mul(a, b) == MulR(a, b, 1, 0)

BAnd(a, b) == Force([i \in 1..Len(a) |-> a[i] & b[i]])
BOr(a, b) == Force([i \in 1..Len(a) |-> a[i] | b[i]])
BXor(a, b) == Force([i \in 1..Len(a) |-> a[i] ^^ b[i]])

RECURSIVE LtUR(_, _, _)
LtUR(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtUR(a, b, i - 1)
LtU(a, b) == LtUR(a, b, Len(a))
Flip(a) == [a EXCEPT ![Len(a)] = (@ + 128) % 256]
LtS(a, b) == LtU(Flip(a), Flip(b))

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
Pow(r) == P2[r + 1]
ShiftCount(b, n) == b[1] % (8 * n)
At(a, i, fill) == IF i < 1 THEN 0 ELSE IF i > Len(a) THEN fill ELSE a[i]
Shl(a, k) == LET q == k \div 8  r == k % 8 IN
  Force([i \in 1..Len(a) |-> ((At(a, i - q, 0) * Pow(r)) % 256) + (At(a, i - q - 1, 0) \div Pow(8 - r))])
Shr(a, k, fill) == LET q == k \div 8  r == k % 8 IN
  Force([i \in 1..Len(a) |-> (At(a, i + q, fill) \div Pow(r)) + ((At(a, i + q + 1, fill) % Pow(r)) * Pow(8 - r))])
ShrU(a, k) == Shr(a, k, 0)
ShrS(a, k) == Shr(a, k, IF IsNeg(a) THEN 255 ELSE 0)
Rotl(a, k) == IF k = 0 THEN a ELSE BOr(Shl(a, k), ShrU(a, 8 * Len(a) - k))
Rotr(a, k) == IF k = 0 THEN a ELSE BOr(ShrU(a, k), Shl(a, 8 * Len(a) - k))

BitAt(a, i) == (a[i \div 8 + 1] \div Pow(i % 8)) % 2
RECURSIVE ClzR(_, _)
ClzR(a, i) == IF i < 0 THEN 8 * Len(a) ELSE IF BitAt(a, i) = 1 THEN 8 * Len(a) - 1 - i ELSE ClzR(a, i - 1)
RECURSIVE CtzR(_, _)
CtzR(a, i) == IF i = 8 * Len(a) THEN i ELSE IF BitAt(a, i) = 1 THEN i ELSE CtzR(a, i + 1)
RECURSIVE PopR(_, _)
PopR(a, i) == IF i = 8 * Len(a) THEN 0 ELSE BitAt(a, i) + PopR(a, i + 1)

(* long division, one bit at a time, with one spare byte                   *)
RECURSIVE DivR(_, _, _, _, _)
DivR(a, d, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET r1 == [Shl(r, 1) EXCEPT ![1] = @ + BitAt(a, i)]
           ge == ~LtU(r1, d)
       IN DivR(a, d, i - 1, IF ge THEN [q EXCEPT ![i \div 8 + 1] = @ + Pow(i % 8)] ELSE q, IF ge THEN Sub(r1, d) ELSE r1)
DivMod(a, d) ==
  LET x == ToNat(a)  y == ToNat(d)  n == Len(a) IN
  IF x # TooBig /\ y # TooBig
  THEN << FromNatR(x \div y, n), FromNatR(x % y, n) >>
  ELSE LET qr == DivR(a, d \o <<0>>, 8 * n - 1, Zero(n), Zero(n + 1)) IN << qr[1], SubSeq(qr[2], 1, n) >>
Abs(a) == IF IsNeg(a) THEN Neg(a) ELSE a
MinInt(n) == [Zero(n) EXCEPT ![n] = 128]
DivU(a, b) == IF IsZero(b) THEN Tr("div0") ELSE V(DivMod(a, b)[1])
RemU(a, b) == IF IsZero(b) THEN Tr("div0") ELSE V(DivMod(a, b)[2])
DivS(a, b) == IF IsZero(b) THEN Tr("div0")
              ELSE IF a = MinInt(Len(a)) /\ AllFrom(b, 1, 255) THEN Tr("overflow")
              ELSE LET q == DivMod(Abs(a), Abs(b))[1] IN V(IF IsNeg(a) # IsNeg(b) THEN Neg(q) ELSE q)
RemS(a, b) == IF IsZero(b) THEN Tr("div0")
              ELSE LET r == DivMod(Abs(a), Abs(b))[2] IN V(IF IsNeg(a) THEN Neg(r) ELSE r)

(* extension of the first k bytes to n bytes                               *)
ExtS(a, k, n) == SubSeq(a, 1, k) \o Rep(IF a[k] >= 128 THEN 255 ELSE 0, n - k)
ExtU(a, k, n) == SubSeq(a, 1, k) \o Zero(n - k)

(* ----------------------------- floating point -------------------------- *)
FExp(b) == IF Len(b) = 4 THEN (b[4] % 128) * 2 + b[3] \div 128 ELSE (b[8] % 128) * 16 + b[7] \div 16
FMaxExp(b) == IF Len(b) = 4 THEN 255 ELSE 2047
MantZero(b) == IF Len(b) = 4 THEN b[1] = 0 /\ b[2] = 0 /\ b[3] % 128 = 0
               ELSE (\A i \in 1..6 : b[i] = 0) /\ b[7] % 16 = 0
IsNaN(b) == FExp(b) = FMaxExp(b) /\ ~MantZero(b)
IsInf(b) == FExp(b) = FMaxExp(b) /\ MantZero(b)
Magnitude(b) == [b EXCEPT ![Len(b)] = @ % 128]
FZero(b) == IsZero(Magnitude(b))
(* total order on non-NaN values in which -0 is just below +0              *)
FLess(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a)
               ELSE IF IsNeg(a) THEN LtU(Magnitude(b), Magnitude(a)) ELSE LtU(Magnitude(a), Magnitude(b))
FEq(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ (a = b \/ (FZero(a) /\ FZero(b)))
FLt(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ ~(FZero(a) /\ FZero(b)) /\ FLess(a, b)

(* whole numbers of small magnitude, exactly represented                   *)
NoInt == 1000000000
RECURSIVE P2n(_)
P2n(n) == IF n = 0 THEN 1 ELSE 2 * P2n(n - 1)
SmallInt(b) ==
  IF IsZero(b) THEN 0
  ELSE LET e == FExp(b) - (IF Len(b) = 4 THEN 127 ELSE 1023) IN
       IF e < 0 \/ e > 22 THEN NoInt
       ELSE LET mant == IF Len(b) = 4 THEN (b[3] % 128) * 65536 + b[2] * 256 + b[1]
                        ELSE (b[7] % 16) * 16777216 + b[6] * 65536 + b[5] * 256 + b[4]
                width == IF Len(b) = 4 THEN 23 ELSE 28
                low == P2n(width - e)
            IN IF mant % low # 0 \/ (Len(b) = 8 /\ (b[1] # 0 \/ b[2] # 0 \/ b[3] # 0)) THEN NoInt
               ELSE (P2n(e) + mant \div low) * (IF IsNeg(b) THEN -1 ELSE 1)
RECURSIVE Log2(_)
Log2(x) == IF x < 2 THEN 0 ELSE 1 + Log2(x \div 2)
FromSmall(x, n) ==
  IF x = 0 THEN Zero(n)
  ELSE LET m == IF x < 0 THEN -x ELSE x
           e == Log2(m)
           sgn == IF x < 0 THEN 128 ELSE 0
       IN IF n = 4 THEN LET f == (m - P2n(e)) * P2n(23 - e)  ex == e + 127
                        IN << f % 256, (f \div 256) % 256, (ex % 2) * 128 + f \div 65536, sgn + ex \div 2 >>
          ELSE LET f == (m - P2n(e)) * P2n(28 - e)  ex == e + 1023
               IN << 0, 0, 0, f % 256, (f \div 256) % 256, (f \div 65536) % 256, (ex % 16) * 16 + f \div 16777216, sgn + ex \div 16 >>
InRange(x) == x < 4194304 /\ x > -4194304
Whole(x, n) == IF InRange(x) THEN V(FromSmall(x, n)) ELSE U
(* arithmetic on whole numbers whose result is a whole number without a    *)
(* question of the sign of zero                                            *)
FArith(op, a, b) ==
  LET x == SmallInt(a)  y == SmallInt(b)  n == Len(a) IN
  IF x = NoInt \/ y = NoInt THEN U
  ELSE CASE op = "add" -> Whole(x + y, n)
         [] op = "sub" -> Whole(x - y, n)
         [] op = "mul" -> IF (x = 0 /\ y < 0) \/ (y = 0 /\ x < 0) THEN U
                          ELSE IF x > 1000 \/ x < -1000 \/ y > 1000 \/ y < -1000 THEN U ELSE Whole(x * y, n)
         [] op = "div" -> IF y <= 0 \/ x < 0 THEN U ELSE IF x % y # 0 THEN U ELSE Whole(x \div y, n)
         [] OTHER -> U
Signed(b) == IF IsNeg(b) THEN LET m == ToNat(Neg(b)) IN IF m = TooBig THEN NoInt ELSE -m
             ELSE LET m == ToNat(b) IN IF m = TooBig THEN NoInt ELSE m
RECURSIVE ISqrt(_, _)
ISqrt(x, r) == IF r * r >= x THEN r ELSE ISqrt(x, r + 1)

ToInt(x, n, signed) == IF x >= 0 THEN V(FromNatR(x, n)) ELSE IF signed THEN V(Neg(FromNatR(-x, n))) ELSE U
Convert(b, n, signed) ==
  LET x == IF signed THEN Signed(b) ELSE (LET m == ToNat(b) IN IF m = TooBig THEN NoInt ELSE m)
  IN IF x = NoInt THEN U ELSE Whole(x, n)

Same(b) == LET x == SmallInt(b) IN IF x = NoInt THEN U ELSE V(b)
Trunc(b, n, signed, sat) ==
  IF IsNaN(b) THEN (IF sat THEN V(Zero(n)) ELSE Tr("conv"))
  ELSE IF IsInf(b) THEN (IF sat THEN U ELSE Tr("overflow"))
  ELSE LET x == SmallInt(b) IN
       IF x = NoInt THEN U
       ELSE IF x < 0 /\ ~signed THEN (IF sat THEN V(Zero(n)) ELSE Tr("overflow"))
       ELSE ToInt(x, n, signed)

Unary(op, a) ==
  LET n == Len(a) IN
  CASE op \in {"i32.eqz", "i64.eqz"} -> V(Bool(IsZero(a)))
    [] op \in {"i32.clz", "i64.clz"} -> V(FromNatR(ClzR(a, 8 * n - 1), n))
    [] op \in {"i32.ctz", "i64.ctz"} -> V(FromNatR(CtzR(a, 0), n))
    [] op \in {"i32.popcnt", "i64.popcnt"} -> V(FromNatR(PopR(a, 0), n))
    [] op \in {"f32.abs", "f64.abs"} -> V(Magnitude(a))
    [] op \in {"f32.neg", "f64.neg"} -> V(Flip(a))
    [] op \in {"f32.ceil", "f32.floor", "f32.trunc", "f32.nearest", "f64.ceil", "f64.floor", "f64.trunc", "f64.nearest"} -> Same(a)
    [] op \in {"f32.sqrt", "f64.sqrt"} ->
         LET x == SmallInt(a) IN IF x = NoInt \/ x < 0 \/ x > 10000 THEN U
                                 ELSE LET r == ISqrt(x, 0) IN IF r * r = x THEN V(FromSmall(r, n)) ELSE U
    [] op = "i32.wrap_i64" -> V(SubSeq(a, 1, 4))
    [] op \in {"i32.trunc_f32_s", "i32.trunc_f64_s"} -> Trunc(a, 4, TRUE, FALSE)
    [] op \in {"i32.trunc_f32_u", "i32.trunc_f64_u"} -> Trunc(a, 4, FALSE, FALSE)
    [] op \in {"i64.trunc_f32_s", "i64.trunc_f64_s"} -> Trunc(a, 8, TRUE, FALSE)
    [] op \in {"i64.trunc_f32_u", "i64.trunc_f64_u"} -> Trunc(a, 8, FALSE, FALSE)
    [] op \in {"i32.trunc_sat_f32_s", "i32.trunc_sat_f64_s"} -> Trunc(a, 4, TRUE, TRUE)
    [] op \in {"i32.trunc_sat_f32_u", "i32.trunc_sat_f64_u"} -> Trunc(a, 4, FALSE, TRUE)
    [] op \in {"i64.trunc_sat_f32_s", "i64.trunc_sat_f64_s"} -> Trunc(a, 8, TRUE, TRUE)
    [] op \in {"i64.trunc_sat_f32_u", "i64.trunc_sat_f64_u"} -> Trunc(a, 8, FALSE, TRUE)
    [] op = "i64.extend_i32_s" -> V(ExtS(a, 4, 8))
    [] op = "i64.extend_i32_u" -> V(ExtU(a, 4, 8))
    [] op \in {"f32.convert_i32_s", "f32.convert_i64_s"} -> Convert(a, 4, TRUE)
    [] op \in {"f32.convert_i32_u", "f32.convert_i64_u"} -> Convert(a, 4, FALSE)
    [] op \in {"f64.convert_i32_s", "f64.convert_i64_s"} -> Convert(a, 8, TRUE)
    [] op \in {"f64.convert_i32_u", "f64.convert_i64_u"} -> Convert(a, 8, FALSE)
    [] op = "f32.demote_f64" -> LET x == SmallInt(a) IN IF x = NoInt THEN U ELSE V(FromSmall(x, 4))
    [] op = "f64.promote_f32" -> LET x == SmallInt(a) IN IF x = NoInt THEN U ELSE V(FromSmall(x, 8))
    [] op \in {"i32.reinterpret_f32", "i64.reinterpret_f64", "f32.reinterpret_i32", "f64.reinterpret_i64"} -> V(a)
    [] op \in {"i32.extend8_s", "i64.extend8_s"} -> V(ExtS(a, 1, n))
    [] op \in {"i32.extend16_s", "i64.extend16_s"} -> V(ExtS(a, 2, n))
    [] op = "i64.extend32_s" -> V(ExtS(a, 4, 8))
    [] OTHER -> U

(* the operator without its type                                           *)
Binary(op, a, b) ==
  LET k == ShiftCount(b, Len(a))
      f == op \in {"f32.eq", "f32.ne", "f32.lt", "f32.gt", "f32.le", "f32.ge", "f64.eq", "f64.ne", "f64.lt", "f64.gt", "f64.le", "f64.ge"}
  IN
  IF f THEN
    CASE op \in {"f32.eq", "f64.eq"} -> V(Bool(FEq(a, b)))
      [] op \in {"f32.ne", "f64.ne"} -> V(Bool(~FEq(a, b)))
      [] op \in {"f32.lt", "f64.lt"} -> V(Bool(FLt(a, b)))
      [] op \in {"f32.gt", "f64.gt"} -> V(Bool(FLt(b, a)))
      [] op \in {"f32.le", "f64.le"} -> V(Bool(FLt(a, b) \/ FEq(a, b)))
      [] OTHER -> V(Bool(FLt(b, a) \/ FEq(a, b)))
  ELSE
  CASE op \in {"i32.eq", "i64.eq"} -> V(Bool(a = b))
    [] op \in {"i32.ne", "i64.ne"} -> V(Bool(a # b))
    [] op \in {"i32.lt_s", "i64.lt_s"} -> V(Bool(LtS(a, b)))
    [] op \in {"i32.lt_u", "i64.lt_u"} -> V(Bool(LtU(a, b)))
    [] op \in {"i32.gt_s", "i64.gt_s"} -> V(Bool(LtS(b, a)))
    [] op \in {"i32.gt_u", "i64.gt_u"} -> V(Bool(LtU(b, a)))
    [] op \in {"i32.le_s", "i64.le_s"} -> V(Bool(~LtS(b, a)))
    [] op \in {"i32.le_u", "i64.le_u"} -> V(Bool(~LtU(b, a)))
    [] op \in {"i32.ge_s", "i64.ge_s"} -> V(Bool(~LtS(a, b)))
    [] op \in {"i32.ge_u", "i64.ge_u"} -> V(Bool(~LtU(a, b)))
    [] op \in {"i32.add", "i64.add"} -> V(Add(a, b))
    [] op \in {"i32.sub", "i64.sub"} -> V(Sub(a, b))
    [] op \in {"i32.mul", "i64.mul"} -> V(Mul(a, b))
    [] op \in {"i32.div_s", "i64.div_s"} -> DivS(a, b)
    [] op \in {"i32.div_u", "i64.div_u"} -> DivU(a, b)
    [] op \in {"i32.rem_s", "i64.rem_s"} -> RemS(a, b)
    [] op \in {"i32.rem_u", "i64.rem_u"} -> RemU(a, b)
    [] op \in {"i32.and", "i64.and"} -> V(BAnd(a, b))
    [] op \in {"i32.or", "i64.or"} -> V(BOr(a, b))
    [] op \in {"i32.xor", "i64.xor"} -> V(BXor(a, b))
    [] op \in {"i32.shl", "i64.shl"} -> V(Shl(a, k))
    [] op \in {"i32.shr_s", "i64.shr_s"} -> V(ShrS(a, k))
    [] op \in {"i32.shr_u", "i64.shr_u"} -> V(ShrU(a, k))
    [] op \in {"i32.rotl", "i64.rotl"} -> V(Rotl(a, k))
    [] op \in {"i32.rotr", "i64.rotr"} -> V(Rotr(a, k))
    [] op \in {"f32.add", "f64.add"} -> FArith("add", a, b)
    [] op \in {"f32.sub", "f64.sub"} -> FArith("sub", a, b)
    [] op \in {"f32.mul", "f64.mul"} -> FArith("mul", a, b)
    [] op \in {"f32.div", "f64.div"} -> FArith("div", a, b)
    [] op \in {"f32.min", "f64.min"} -> IF IsNaN(a) \/ IsNaN(b) THEN U ELSE V(IF FLess(a, b) THEN a ELSE b)
    [] op \in {"f32.max", "f64.max"} -> IF IsNaN(a) \/ IsNaN(b) THEN U ELSE V(IF FLess(a, b) THEN b ELSE a)
    [] op \in {"f32.copysign", "f64.copysign"} -> V(IF IsNeg(a) = IsNeg(b) THEN a ELSE Flip(a))
    [] OTHER -> U
=============================================================================
