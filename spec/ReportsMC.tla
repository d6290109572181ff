----------------------------- MODULE ReportsMC ------------------------------
(***************************************************************************)
(* Every history of up to SIZE notifications of two functions with two     *)
(* instructions each: the tallies of the analyses agree with one another.  *)
(***************************************************************************)
EXTENDS Reports, Json, IOUtils

N == IF IOEnv.SIZE = "3" THEN 3 ELSE IF IOEnv.SIZE = "4" THEN 4 ELSE 5
VARIABLES R, n
vars == <<R, n>>
W(x) == Le(x, 4)
Loc(f, i) == <<Le(f, 8), Le(i, 8)>>
Ev(name, args, f, i, t) == [k |-> "ev", n |-> name, a |-> args \o Loc(f, i), t |-> t]
Events ==
  { Ev("specialized_if_then_k", <<W(c), W(0), W(0)>>, f, 0, "") : c \in 0..1, f \in 0..1 } \cup
  { Ev("specialized_br_table", <<W(c), W(1 - c), W(0)>>, 0, 1, "") : c \in 0..1 } \cup
  { Ev("specialized_select", <<W(c)>>, 1, 1, "") : c \in 0..1 } \cup
  { Ev("specialized_call_pre", <<W(c)>>, 1 - c, 1, "") : c \in 0..1 } \cup
  { Ev("specialized_call_post", <<W(c)>>, 1 - c, 1, "") : c \in 0..1 } \cup
  { Ev("trap_loop_pre", <<W(0), W(0)>>, 0, i, "") : i \in 0..1 } \cup
  { Ev("binary_i32_i32_to_i32", <<W(5), W(6), W(o)>>, 1, 1, "") : o \in {BCode["i32.xor"], BCode["i32.mul"]} } \cup
  { Ev("trap_global_" \o o \o "_i32", <<W(7), Le(g, 8)>>, 0, 0, "") : o \in {"get", "set"}, g \in 0..1 } \cup
  { Ev("trap_i32_load", <<W(p), Le(1, 8), W(LCode["i32.load8_u"])>>, 0, 1, t) : p \in 0..1, t \in {"", "oob"} } \cup
  { Ev("trap_i32_store", <<W(p), W(9), Le(0, 8), W(SCode["i32.store16"])>>, 0, 1, "") : p \in 0..1 } \cup
  { [k |-> "ap"], [k |-> "apd"] }
(* what was not begun does not end                                         *)
Enabled(e) == /\ e.k = "apd" => R.applies.depth > 0
              /\ e.k = "ev" /\ e.n = "specialized_call_post" => R.calls.depth > 0
ASSUME \A an \in Analyses : PrintT("NEEDS " \o ToJson([an |-> an, hooks |-> Needs[an]]))
Init == R = Start /\ n = 0
Next == n < N /\ n' = n + 1 /\ \E e \in Events : Enabled(e) /\ R' = Step(R, e)
Spec == Init /\ [][Next]_vars
Agree == Consistent(R)
(* asking changes nothing, and what an access touches is what it moves     *)
Bytes == Sum(R.r) = Of(R.kinds, "Load", 0) /\ Sum(R.w) = 2 * Of(R.kinds, "Store", 0)
Depths == R.calls.depth >= 0 /\ R.applies.depth >= 0
=============================================================================
