---------------------------- MODULE PurityTrace ----------------------------
(***************************************************************************)
(* What the real analysis reports for a module, against Purity; and runs   *)
(* of the module: a call of a reported function leaves the store as it     *)
(* was, reaches no import, and answers the same whenever it is called with *)
(* the same arguments.                                                     *)
(***************************************************************************)
EXTENDS Purity, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cc, n,
          call,    \* the call under way: its function and arguments
          store,   \* the last observed state
          memo,    \* answers of reported functions
          bad
vars == <<cc, n, call, store, memo, bad>>
C == Cases[cc]
Reported == { C.reported[i] : i \in DOMAIN C.reported }
None == [f |-> -1, a |-> <<>>]
Init == cc \in DOMAIN Cases /\ n = 0 /\ call = None /\ store = <<>> /\ memo = {} /\ bad = "?"
Done(b) == bad' = b /\ PrintT("PURE " \o ToJson([case |-> cc, bad |-> b, at |-> n])) /\ UNCHANGED <<n, call, store, memo>>
Step == n' = n + 1 /\ UNCHANGED bad
Mine == call.f \in Reported
Answer(e) == LET a == [f |-> call.f, a |-> call.a, k |-> e.k, r |-> IF e.k = "ret" THEN e.r ELSE <<>>, t |-> IF e.k = "trap" THEN e.t ELSE ""] IN
  IF Mine /\ \E m \in memo : m.f = a.f /\ m.a = a.a /\ m # a THEN Done("an immutable function answers differently")
  ELSE memo' = (IF Mine THEN memo \cup {a} ELSE memo) /\ Step /\ UNCHANGED <<call, store>>
Next ==
  /\ bad = "?"
  /\ UNCHANGED cc
  /\ IF n = 0 THEN (IF C.status # "ok" THEN Done(C.status)
                    ELSE IF Fault(C.fns, Reported) # "" THEN Done(Fault(C.fns, Reported))
                    ELSE Step /\ UNCHANGED <<call, store, memo>>)
     ELSE IF n > Len(C.log) THEN Done("")
     ELSE LET e == C.log[n] IN
       CASE e.k = "call" -> call' = [f |-> e.f, a |-> e.a] /\ Step /\ UNCHANGED <<store, memo>>
         [] e.k = "host" -> IF Mine THEN Done("an immutable function reaches an import") ELSE Step /\ UNCHANGED <<call, store, memo>>
         [] e.k \in {"ret", "trap"} -> Answer(e)
         [] e.k = "state" ->
              LET s == <<e.g, e.pages, e.m>> IN
              IF Mine /\ store # <<>> /\ s # store THEN Done("an immutable function changes shared state")
              ELSE store' = s /\ Step /\ UNCHANGED <<call, memo>>
         [] OTHER -> Done("")
Spec == Init /\ [][Next]_vars
Consistent == \A x, y \in memo : x.f = y.f /\ x.a = y.a => x = y
=============================================================================
