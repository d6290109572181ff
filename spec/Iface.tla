------------------------------- MODULE Iface -------------------------------
(***************************************************************************)
(* Instrumented modules against IfaceRules.                                *)
(***************************************************************************)
EXTENDS IfaceRules, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cc, bad
vars == <<cc, bad>>

Init == cc \in DOMAIN Cases /\ bad = {"?"}
Next == /\ bad = {"?"}
        /\ bad' = Fails(Cases[cc]) \cup Untouched(Cases[cc])
        /\ cc' = cc
        /\ PrintT("IFACE " \o ToJson([case |-> cc, bad |-> bad']))
Spec == Init /\ [][Next]_vars
=============================================================================
