----------------------------- MODULE AspectTrace -----------------------------
(***************************************************************************)
(* Logs of advice in generated guest code, event by event, against Aspect. *)
(***************************************************************************)
EXTENDS Aspect, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cc, n, bad
vars == <<cc, n, bad>>
C == Cases[cc]
Ev == C.events[n]
Expected == Leaves(Ev.kind, Ev.e, Ev.ops)
Done(b) == bad' = b /\ PrintT("ASP " \o ToJson([case |-> cc, bad |-> b, at |-> n])) /\ UNCHANGED <<cc, n>>
Differs(x, y) ==
  IF Len(x) < Len(y) /\ x = SubSeq(y, 1, Len(x)) THEN "stops short of " \o ToString(y[Len(x) + 1])
  ELSE IF Len(y) < Len(x) /\ y = SubSeq(x, 1, Len(y)) THEN "goes on with " \o ToString(x[Len(y) + 1])
  ELSE LET i == CHOOSE i \in DOMAIN x : i \in DOMAIN y /\ x[i] # y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j] IN
       ToString(x[i]) \o " instead of " \o ToString(y[i])
Init == cc \in DOMAIN Cases /\ n = 1 /\ bad = "?"
Next == /\ bad = "?"
        /\ IF C.status # "ok" THEN Done(C.status)
           ELSE IF n > Len(C.events) THEN Done("")
           ELSE IF Ev.passed # Passed(Ev.kind, Ev.e) THEN Done("(the event was not put as specified)")
           ELSE IF Ev.log # Expected THEN Done(Differs(Ev.log, Expected))
           ELSE n' = n + 1 /\ UNCHANGED <<cc, bad>>
Spec == Init /\ [][Next]_vars
=============================================================================
