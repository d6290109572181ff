------------------------------- MODULE Aspect -------------------------------
(***************************************************************************)
(* What advice in the aspect language sees through its formals and what    *)
(* its answers mean.  An event is a record of numbers and texts; advice is *)
(* a sequence of operations; its effect is the sequence of entries it      *)
(* leaves in a log.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Flag(x) == IF x = 0 THEN 0 ELSE 1
(* what the formals of an advice show of an event                          *)
Shows(kind, e) ==
  CASE kind \in {"call_pre", "call_post"} -> [index |-> e.target]
    [] kind = "call_indirect_pre" -> [table |-> e.table, index |-> e.index]
    [] kind = "call_indirect_post" -> [table |-> e.table]
    [] kind = "if_then" -> [is_then |-> Flag(e.cond), is_skip |-> 1 - Flag(e.cond), continue_then |-> 1, continue_skip |-> 0]
    [] kind \in {"if_then_else", "select"} -> [is_then |-> Flag(e.cond), is_else |-> 1 - Flag(e.cond), continue_then |-> 1, continue_else |-> 0]
    [] kind = "br_if" -> [is_branch |-> Flag(e.cond), is_skip |-> 1 - Flag(e.cond), continue_branch |-> 1, continue_skip |-> 0, label |-> e.label]
    [] kind = "br_table" -> [target |-> e.target, default |-> e.default]
    [] OTHER -> <<>>
(* fields of which only the truth matters                                  *)
Truths == {"is_then", "is_skip", "is_else", "is_branch", "continue_then", "continue_skip", "continue_else", "continue_branch"}
Conditional == {"if_then", "if_then_else", "select", "br_if"}
Deciding == Conditional \cup {"br_table", "call_indirect_pre"}
(* the decision when advice does not answer                                *)
Original(kind, e) == CASE kind \in Conditional -> e.cond [] kind = "br_table" -> e.target [] kind = "call_indirect_pre" -> e.index
Decision(kind, v) == IF kind \in Conditional THEN Flag(v) ELSE v
(* what the advice is called with, by position                             *)
Passed(kind, e) ==
  CASE kind \in {"call_pre", "call_post"} -> <<e.target>>
    [] kind = "call_indirect_pre" -> <<e.index, e.table>>
    [] kind = "call_indirect_post" -> <<e.table>>
    [] kind \in {"if_then", "if_then_else"} -> <<e.cond, e.inputs, e.arity>>
    [] kind = "select" -> <<e.cond>>
    [] kind = "br_if" -> <<e.cond, e.label>>
    [] kind = "br_table" -> <<e.target, e.effective, e.default>>
    [] kind \in {"block_pre", "loop_pre"} -> <<e.inputs, e.arity>>
    [] kind = "apply" -> <<e.apply, e.func, Len(e.args), Len(e.ress), e.buffer, e.types, 0>>
    [] OTHER -> <<>>

(* an interception: args and ress are sequences of [t, v]                  *)
TypeCode(t) == CASE t = "i32" -> 0 [] t = "f32" -> 1 [] t = "i64" -> 2 [] t = "f64" -> 3
Values(q) == [i \in DOMAIN q |-> q[i].v]
InRange(q, i) == i >= 0 /\ i < Len(q)
Start(e) == [args |-> e.args, ress |-> e.ress, applied |-> 0, log |-> <<>>, trap |-> 0, answered |-> 0]
See(s, t, v) == [s EXCEPT !.log = Append(@, [k |-> "see", t |-> t, v |-> v])]
Trap(s) == [s EXCEPT !.trap = 1]
Of(s, o) == IF o.on = "args" THEN s.args ELSE s.ress
Do(kind, e, s, o) ==
  CASE s.trap = 1 \/ s.answered = 1 -> s
    [] o.op = "get" -> IF InRange(Of(s, o), o.i) THEN See(s, Of(s, o)[o.i + 1].t, Of(s, o)[o.i + 1].v) ELSE Trap(s)
    [] o.op = "set" -> IF ~InRange(Of(s, o), o.i) THEN Trap(s)
                       ELSE IF o.on = "args" THEN [s EXCEPT !.args[o.i + 1].v = o.v] ELSE [s EXCEPT !.ress[o.i + 1].v = o.v]
    [] o.op = "type" -> IF InRange(Of(s, o), o.i) THEN See(s, "i32", ToString(TypeCode(Of(s, o)[o.i + 1].t))) ELSE Trap(s)
    [] o.op = "length" -> See(s, "i32", ToString(Len(Of(s, o))))
    [] o.op = "func" -> See(s, "i32", ToString(e.func))
    [] o.op = "apply" -> [s EXCEPT !.log = Append(@, [k |-> "base", f |-> e.apply, s |-> e.buffer, a |-> Values(s.args), r |-> Values(s.ress)]),
                                   !.ress = [i \in DOMAIN @ |-> [t |-> @[i].t, v |-> e.base[s.applied + 1][i]]], !.applied = @ + 1]
    [] o.op = "see" -> LET v == Shows(kind, e)[o.f] IN IF o.f \in Truths THEN See(s, "truth", ToString(Flag(v))) ELSE See(s, "i32", ToString(v))
    [] o.op = "say" -> See(s, "i32", ToString(o.n))
    [] o.op = "answer" -> LET v == IF o.f = "" THEN o.n ELSE Shows(kind, e)[o.f] IN
                          [s EXCEPT !.log = Append(@, [k |-> "answer", v |-> Decision(kind, v)]), !.answered = 1]
RECURSIVE DoAll(_, _, _, _)
DoAll(kind, e, s, ops) == IF ops = <<>> THEN s ELSE DoAll(kind, e, Do(kind, e, s, Head(ops)), Tail(ops))
(* the whole log of one event                                              *)
Leaves(kind, e, ops) ==
  LET s == DoAll(kind, e, Start(e), ops) IN
  s.log \o (IF s.trap = 1 THEN << [k |-> "trap"] >>
            ELSE IF kind \in Deciding /\ s.answered = 0 THEN << [k |-> "answer", v |-> Decision(kind, Original(kind, e))] >> ELSE <<>>)
        \o (IF kind = "apply" THEN << [k |-> "left", a |-> Values(s.args), r |-> Values(s.ress)] >> ELSE <<>>)
=============================================================================
