------------------------------- MODULE Bodies -------------------------------
(***************************************************************************)
(* All valid function bodies over a small alphabet, up to a length.  The   *)
(* state is the flat body so far with the operand types and the open       *)
(* constructs; an instruction is appended when it is well typed (the       *)
(* validation algorithm of WebAssembly).  Every complete body is printed.  *)
(*                                                                         *)
(* The module around a body (see lib/corecheck.py): function 0 is a host   *)
(* import i32 -> i32, function 1 is the body with type i32 -> i32 and an   *)
(* i64 local, function 2 adds one to its argument, function 3 has no       *)
(* parameters and no results; a table holds functions 2, 1 and nothing; a  *)
(* memory of one page; a mutable i32 global.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

MAXLEN == 32
Alphabet == IOEnv.ALPHABET
Limit == LET s == IOEnv.LIMIT IN CHOOSE n \in 1..MAXLEN : ToString(n) = s

VARIABLES body, op, ct, done
vars == <<body, op, ct, done>>

I32(n) == <<n, 0, 0, 0>>
Params == <<"i32">>
Results == <<"i32">>
LocalTypes == <<"i32", "i64">>

(* ------------------------------- typing -------------------------------- *)
Ctl == ct[Len(ct)]
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
(* operands after popping type t ("any" matches everything), or <<"bad">>  *)
Bad == <<"bad">>
Pop1(o, c, t) ==
  IF o = Bad THEN Bad
  ELSE IF Len(o) = c.h THEN (IF c.un THEN o ELSE Bad)
  ELSE IF Last(o) = t \/ Last(o) = "any" \/ t = "any" THEN Front(o) ELSE Bad
RECURSIVE Pop(_, _, _)
Pop(o, c, ts) == IF ts = <<>> THEN o ELSE Pop(Pop1(o, c, Last(ts)), c, Front(ts))
TopType(o, c) == IF Len(o) = c.h THEN "any" ELSE Last(o)
LabelTypes(l) == LET c == ct[Len(ct) - l] IN IF c.k = "loop" THEN c.p ELSE c.r
Labels == 0..(Len(ct) - 1)

(* ------------------------------ the steps ------------------------------ *)
Simple(ins, p, r) ==
  LET o == Pop(op, Ctl, p) IN
  /\ o # Bad
  /\ body' = Append(body, ins)
  /\ op' = o \o r
  /\ UNCHANGED <<ct, done>>
Dead(ins, p) ==
  LET o == Pop(op, Ctl, p) IN
  /\ o # Bad
  /\ body' = Append(body, ins)
  /\ op' = SubSeq(op, 1, Ctl.h)
  /\ ct' = [ct EXCEPT ![Len(ct)].un = TRUE]
  /\ UNCHANGED done
OpenC(k, p, r) ==
  LET o == Pop(op, Ctl, IF k = "if" THEN Append(p, "i32") ELSE p) IN
  /\ o # Bad
  /\ body' = Append(body, [k |-> k, p |-> p, r |-> r])
  /\ op' = o \o p
  /\ ct' = Append(ct, [k |-> k, p |-> p, r |-> r, h |-> Len(o), un |-> FALSE])
  /\ UNCHANGED done
Closing == LET o == Pop(op, Ctl, Ctl.r) IN o # Bad /\ Len(o) = Ctl.h
Else ==
  /\ Ctl.k = "if" /\ Closing
  /\ body' = Append(body, [k |-> "else"])
  /\ op' = SubSeq(op, 1, Ctl.h) \o Ctl.p
  /\ ct' = [ct EXCEPT ![Len(ct)].k = "else", ![Len(ct)].un = FALSE]
  /\ UNCHANGED done
End ==
  /\ Closing
  /\ Ctl.k = "if" => Ctl.p = Ctl.r
  /\ body' = Append(body, [k |-> "end"])
  /\ op' = SubSeq(op, 1, Ctl.h) \o Ctl.r
  /\ ct' = Front(ct)
  /\ done' = (Len(ct) = 1)
Select == \E t \in {"i32", "i64"} :
  LET c == Ctl
      o1 == Pop1(op, c, "i32")
      t1 == IF o1 = Bad THEN "any" ELSE TopType(o1, c)
      o2 == IF o1 = Bad THEN Bad ELSE Pop1(o1, c, t)
      o3 == IF o2 = Bad THEN Bad ELSE Pop1(o2, c, t)
  IN /\ o3 # Bad
     /\ t1 # "any" \/ t = "i32"
     /\ body' = Append(body, [k |-> "select", typed |-> ""])
     /\ op' = Append(o3, LET a == TopType(o1, c)  b == TopType(o2, c) IN IF a # "any" THEN a ELSE b)
     /\ UNCHANGED <<ct, done>>

Has(a) == \E k \in 1..Len(Alphabet) : SubSeq(Alphabet, k, k) = a
Control ==
  \/ OpenC("block", <<>>, <<>>)
  \/ OpenC("block", <<>>, <<"i32">>)
  \/ OpenC("loop", <<>>, <<>>)
  \/ OpenC("if", <<>>, <<>>)
  \/ OpenC("if", <<>>, <<"i32">>)
  \/ Else
Params2 ==
  \/ OpenC("block", <<"i32">>, <<"i32">>)
  \/ OpenC("loop", <<"i32">>, <<"i32">>)
  \/ OpenC("if", <<"i32">>, <<"i32">>)
  \/ OpenC("block", <<"i32">>, <<>>)
  \/ OpenC("block", <<>>, <<"i32", "i64">>)
  \/ Else
Jumps ==
  \/ \E l \in Labels : Dead([k |-> "br", l |-> l], LabelTypes(l))
  \/ \E l \in Labels : Simple([k |-> "br_if", l |-> l], Append(LabelTypes(l), "i32"), LabelTypes(l))
  \/ Dead([k |-> "return"], Results)
  \/ Dead([k |-> "unreachable"], <<>>)
Tables ==
  \E l, m \in Labels : LabelTypes(l) = LabelTypes(m) /\
     \E ls \in {<<>>, <<m>>, <<m, l>>} : (ls = <<>> => m = l) /\ Dead([k |-> "br_table", ls |-> ls, d |-> l], Append(LabelTypes(l), "i32"))
Values ==
  \/ Simple([k |-> "const", t |-> "i32", v |-> I32(1)], <<>>, <<"i32">>)
  \/ Simple([k |-> "local.get", i |-> 0, t |-> "i32"], <<>>, <<"i32">>)
  \/ Simple([k |-> "drop"], <<"any">>, <<>>)
Locals ==
  \/ Simple([k |-> "local.set", i |-> 0, t |-> "i32"], <<"i32">>, <<>>)
  \/ Simple([k |-> "local.tee", i |-> 0, t |-> "i32"], <<"i32">>, <<"i32">>)
  \/ Simple([k |-> "local.get", i |-> 1, t |-> "i64"], <<>>, <<"i64">>)
  \/ Simple([k |-> "local.set", i |-> 1, t |-> "i64"], <<"i64">>, <<>>)
  \/ Simple([k |-> "global.get", i |-> 0, t |-> "i32"], <<>>, <<"i32">>)
  \/ Simple([k |-> "global.set", i |-> 0, t |-> "i32"], <<"i32">>, <<>>)
Operators ==
  \/ Simple([k |-> "bin", o |-> "i32.add"], <<"i32", "i32">>, <<"i32">>)
  \/ Simple([k |-> "bin", o |-> "i64.lt_s"], <<"i64", "i64">>, <<"i32">>)
  \/ Simple([k |-> "un", o |-> "i32.eqz"], <<"i32">>, <<"i32">>)
  \/ Simple([k |-> "un", o |-> "i64.extend_i32_s"], <<"i32">>, <<"i64">>)
  \/ Simple([k |-> "un", o |-> "i32.wrap_i64"], <<"i64">>, <<"i32">>)
  \/ Select
Memory ==
  \/ Simple([k |-> "load", o |-> "i32.load", off |-> I32(0)], <<"i32">>, <<"i32">>)
  \/ Simple([k |-> "load", o |-> "i64.load8_s", off |-> I32(1)], <<"i32">>, <<"i64">>)
  \/ Simple([k |-> "store", o |-> "i32.store8", off |-> I32(2)], <<"i32", "i32">>, <<>>)
  \/ Simple([k |-> "store", o |-> "i64.store", off |-> I32(0)], <<"i32", "i64">>, <<>>)
  \/ Simple([k |-> "memory.size"], <<>>, <<"i32">>)
  \/ Simple([k |-> "memory.grow"], <<"i32">>, <<"i32">>)
Calls ==
  \/ Simple([k |-> "call", f |-> 0], <<"i32">>, <<"i32">>)
  \/ Simple([k |-> "call", f |-> 2], <<"i32">>, <<"i32">>)
  \/ Simple([k |-> "call", f |-> 3], <<>>, <<>>)
  \/ Simple([k |-> "call_indirect", ty |-> 1, tb |-> 0], <<"i32", "i32">>, <<"i32">>)

Init == body = <<>> /\ op = <<>> /\ done = FALSE
        /\ ct = << [k |-> "fn", p |-> Params, r |-> Results, h |-> 0, un |-> FALSE] >>
Grow ==
  \/ Has("v") /\ Values
  \/ Has("c") /\ Control
  \/ Has("p") /\ Params2
  \/ Has("j") /\ Jumps
  \/ Has("t") /\ Tables
  \/ Has("l") /\ Locals
  \/ Has("o") /\ Operators
  \/ Has("m") /\ Memory
  \/ Has("f") /\ Calls
Next ==
  /\ ~done
  /\ \/ Grow
     \/ End /\ (done' => PrintT("BODY " \o ToJson(body')))
  (* what is open can still be closed                                      *)
  /\ Len(body') + Len(ct') <= Limit
Spec == Init /\ [][Next]_vars
(* the operands a construct was opened on are never touched                *)
Shape == /\ \A i \in 1..Len(ct) : ct[i].h <= Len(op)
         /\ \A i \in 1..(Len(ct) - 1) : ct[i].h <= ct[i + 1].h
         /\ done => op = Results
=============================================================================
