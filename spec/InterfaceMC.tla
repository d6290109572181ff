---------------------------- MODULE InterfaceMC ----------------------------
(***************************************************************************)
(* An aspect program grows advice by advice, a request hook by hook; what  *)
(* is demanded grows with it and never conflicts.  Programs and requests   *)
(* up to the bounds are printed.                                           *)
(***************************************************************************)
EXTENDS Interface, TLC, Json, IOUtils
Limit == IF IOEnv.LIMIT = "3" THEN 3 ELSE 2
VARIABLES advice, hooks
vars == <<advice, hooks>>
Init == advice = <<>> /\ hooks = {}
More(k) == Len(advice) < Limit /\ hooks = {} /\ (k = "global" \/ k \notin Range(advice)) /\ advice' = Append(advice, k) /\ UNCHANGED hooks
Ask(h) == Cardinality(hooks) < 2 /\ advice = <<>> /\ h \notin hooks /\ hooks' = hooks \cup {h} /\ UNCHANGED advice
Next == \/ \E k \in AdviceKinds \cup {"global"} : More(k)
        \/ \E h \in HookNames : Ask(h)
Spec == Init /\ [][Next]_vars
Asked(q) == { AdviceHook(k) : k \in Range(q) \ {"global"} }
Exact == Cardinality(TrapsOf(Asked(advice))) = Cardinality(Asked(advice))
Fits == GuestFault(advice, [i \in DOMAIN Shown(advice) |-> Shown(advice)[i] @@ [here |-> 1, ns |-> "", x |-> ""]]) = ""
Separate == \A h \in HookNames \ hooks : Traps(h) \cap TrapsOf(hooks) = {}
Grows == [][TrapsOf(hooks) \subseteq TrapsOf(hooks') /\ TrapsOf(Asked(advice)) \subseteq TrapsOf(Asked(advice'))]_vars
Printed == PrintT("ASK " \o ToJson([advice |-> advice, hooks |-> hooks]))
=============================================================================
