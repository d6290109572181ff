------------------------------ MODULE AspectMC ------------------------------
(***************************************************************************)
(* Interceptions of functions with few arguments and results, by advice    *)
(* that does any few things.  Every history of operations is printed.      *)
(***************************************************************************)
EXTENDS Aspect, Json, IOUtils
Depth == IF IOEnv.DEPTH = "4" THEN 4 ELSE 3
Shapes == { <<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<1, 2>> }
Slots(n, what) == [i \in 1..n |-> [t |-> <<"i32", "f64", "i64">>[i], v |-> what \o ToString(i)]]
Event(sh) == [args |-> Slots(sh[1], "a"), ress |-> Slots(sh[2], "r"), base |-> [n \in 1..6 |-> [i \in 1..sh[2] |-> "b" \o ToString(n) \o ToString(i)]],
              apply |-> 5, func |-> 3, buffer |-> 100, types |-> 200]
VARIABLES shape, ops, s,
          last     \* what was last written to each place by advice or base
vars == <<shape, ops, s, last>>
E == Event(shape)
Init == /\ shape \in Shapes /\ ops = <<>> /\ s = Start(E)
        /\ last = [args |-> Values(E.args), ress |-> Values(E.ress)]
Ops == { [op |-> "get", on |-> w, i |-> i] : w \in {"args", "ress"}, i \in -1..2 }
   \cup { [op |-> "set", on |-> w, i |-> i, v |-> "w" \o ToString(Len(ops))] : w \in {"args", "ress"}, i \in -1..2 }
   \cup { [op |-> "type", on |-> w, i |-> i] : w \in {"args", "ress"}, i \in -1..2 }
   \cup { [op |-> "length", on |-> w] : w \in {"args", "ress"} }
   \cup { [op |-> "func"], [op |-> "apply"] }
(* indices further out are like the nearest one that is out                *)
Near(o) == "i" \in DOMAIN o => o.i <= Len(Of(s, o))
Next == \E o \in Ops :
  /\ Len(ops) < Depth /\ s.trap = 0 /\ Near(o)
  /\ ops' = Append(ops, o) /\ s' = Do("apply", E, s, o) /\ UNCHANGED shape
  /\ last' = CASE o.op = "set" /\ InRange(Of(s, o), o.i) -> [last EXCEPT ![o.on][o.i + 1] = o.v]
               [] o.op = "apply" -> [last EXCEPT !.ress = E.base[s.applied + 1]]
               [] OTHER -> last
Spec == Init /\ [][Next]_vars
Agrees == last = [args |-> Values(s.args), ress |-> Values(s.ress)]
Shaped == Len(s.args) = shape[1] /\ Len(s.ress) = shape[2] /\ \A i \in DOMAIN s.args : s.args[i].t = E.args[i].t
Same == s = DoAll("apply", E, Start(E), ops)
Applies == Cardinality({ i \in DOMAIN ops : ops[i].op = "apply" }) = s.applied
Reads == [][ \A w \in {"args", "ress"}, i \in 0..2 :
               (ops' = Append(ops, [op |-> "get", on |-> w, i |-> i]) /\ i < Len(last[w])) => s'.log[Len(s'.log)].v = last[w][i + 1] ]_vars
Printed == PrintT("HIST " \o ToJson([shape |-> shape, ops |-> ops]))
=============================================================================
