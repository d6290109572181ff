------------------------------ MODULE StackLib ------------------------------
(***************************************************************************)
(* The call buffers.  Every intercepted call has a buffer of values, one   *)
(* slot for each result and then one for each argument, and may have a     *)
(* buffer of types.  Buffers are given back in the reverse order of their  *)
(* making.  Slots are independent: what was put into one is what is found  *)
(* there, until something else is put there or the buffer is given back.   *)
(*                                                                         *)
(* A value is [t |-> type, v |-> bytes]; a slot nothing was put into holds *)
(* Unset.  A signature is [r |-> result types, a |-> argument types].      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Unset == [t |-> "?", v |-> <<>>]
TypeCode == [i32 |-> 0, f32 |-> 1, i64 |-> 2, f64 |-> 3]
Width == [i32 |-> 4, f32 |-> 4, i64 |-> 8, f64 |-> 8]

Slots(s) == s.r \o s.a
Top(live) == live[Len(live)]
SlotOf(s, side, i) == IF side = "ret" THEN i + 1 ELSE Len(s.r) + i + 1

Typed(ts, vs) == [i \in 1..Len(ts) |-> [t |-> ts[i], v |-> vs[i]]]
(* the buffer for a call with these arguments                              *)
Values(k, s, args) == [kind |-> "values", s |-> k, slots |-> [i \in 1..Len(s.r) |-> Unset] \o Typed(s.a, args)]
Types(k, s) == [kind |-> "types", s |-> k, slots |-> [i \in 1..Len(Slots(s)) |-> [t |-> "type", v |-> <<TypeCode[Slots(s)[i]]>>]]]

Make(live, b) == Append(live, b)
Release(live) == SubSeq(live, 1, Len(live) - 1)
Put(live, b, i, x) == [live EXCEPT ![b].slots[i] = x]
PutResults(live, b, s, vs) ==
  [live EXCEPT ![b].slots = [i \in DOMAIN @ |-> IF i <= Len(s.r) THEN [t |-> s.r[i], v |-> vs[i]] ELSE @[i]]]
(* what may be found in a slot: a slot that holds a value of another type, *)
(* or nothing, may give anything                                           *)
MayFind(live, b, i, t, v) == LET x == live[b].slots[i] IN x.t = t => x.v = v

(* room that a buffer may take, generously                                 *)
Room(s) == 32 + 16 * Len(Slots(s))
=============================================================================
