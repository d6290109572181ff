---------------------------- MODULE ReportsTrace ----------------------------
(***************************************************************************)
(* Recorded runs under a shipped analysis: after the notifications of the  *)
(* run, the analysis answered questions.  Each answer must be the one of   *)
(* the specification.  Told apart from other mistakes: locations whose     *)
(* function and instruction are exchanged.                                 *)
(***************************************************************************)
EXTENDS Reports, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cc, i, R, st,
          X  \* the tallies if function and instruction of every location are exchanged
vars == <<cc, i, R, st, X>>
C == Cases[cc]
Given(q) == IF q.t # "" THEN <<q.t>> ELSE q.r
Result(bad, other) == PrintT("REPORT " \o ToJson([case |-> cc, bad |-> bad, exchanged |-> other]))
Exchanged(e) == IF e.k = "ev" THEN [e EXCEPT !.a = SubSeq(@, 1, Len(@) - 2) \o <<@[Len(@)], @[Len(@) - 1]>>] ELSE e
Wrong(S) ==
  IF C.an = "call-graph"
  THEN LET told == [x \in DOMAIN C.qs |-> [q |-> C.qs[x].q, a |-> C.qs[x].a, r |-> Given(C.qs[x])]] IN
       { [q |-> C.qs[x], want |-> Answer(C.an, S, C.qs[x])] : x \in { x \in DOMAIN C.qs : C.qs[x].q = "get_total_edges" /\ Given(C.qs[x]) # Answer(C.an, S, C.qs[x]) } }
       \cup (IF ToldEdges(S, told) THEN {} ELSE { [q |-> [q |-> "edges"], want |-> S.edges] })
  ELSE { [q |-> C.qs[x], want |-> Answer(C.an, S, C.qs[x])] : x \in { x \in DOMAIN C.qs : Given(C.qs[x]) # Answer(C.an, S, C.qs[x]) } }

Init == cc \in DOMAIN Cases /\ i = 1 /\ R = Start /\ X = Start /\ st = "run"
Next == /\ st = "run"
        /\ IF i <= Len(C.log)
           THEN IF Acts(C.an, C.log[i]) THEN i' = i + 1 /\ R' = Step(R, C.log[i]) /\ X' = Step(X, Exchanged(C.log[i])) /\ UNCHANGED <<cc, st>>
                ELSE st' = "done" /\ Result({ [q |-> C.log[i], want |-> "another reaction"] }, {"also then"}) /\ UNCHANGED <<cc, i, R, X>>
           ELSE st' = "done" /\ Result(Wrong(R), Wrong(X)) /\ UNCHANGED <<cc, i, R, X>>
Spec == Init /\ [][Next]_vars
Fits == st = "done" => Consistent(R)
=============================================================================
