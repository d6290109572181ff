--------------------------- MODULE PipelineTrace ---------------------------
(***************************************************************************)
(* What the real pipeline asked of its compilers and of the merge tool,    *)
(* and what it answered, against Pipeline and IfaceRules.                  *)
(***************************************************************************)
EXTENDS Pipeline, IfaceRules, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cc, n,
          at,      \* the next stage, or "end"
          bad
vars == <<cc, n, at, bad>>
C == Cases[cc]
Faults == { C.faults[i] : i \in DOMAIN C.faults }
A == Applies(C)

Init == cc \in DOMAIN Cases /\ n = 1 /\ at = "analysis" /\ bad = "?"
Done(b) == bad' = b /\ PrintT("PIPE " \o ToJson([case |-> cc, bad |-> b, at |-> n])) /\ UNCHANGED <<n, at>>
After(s) == IF s \in Faults THEN "end" ELSE CASE s = "analysis" -> "instrument" [] s = "instrument" -> (IF A THEN "library" ELSE "merge") [] s = "library" -> "merge" [] s = "merge" -> "end"
Step(s) == at' = After(s) /\ n' = n + 1 /\ UNCHANGED bad
E == C.log[n]

Needed == { LET t == FTypeOf(C, f) IN Sig(t.p, t.r) : f \in Targets(C) }
TargetFault(e) == LET x == [ft |-> C.ft, fn |-> C.fn, hooks |-> C.hooks, all |-> C.all, targets |-> C.targets, orig |-> C.orig,
                            inst |-> e.target, library |-> e.library] IN
                  IF "invalid" \in DOMAIN e.target THEN {"an invalid module"} ELSE Fails(x) \cup Untouched(x)
Result == C.result
Answer == IF Result.k # Outcome(A, Faults) THEN "the result is not that of the first failing stage"
          ELSE IF Result.k = "ok" /\ Result.text # C.out THEN "the result is not what the merge delivered"
          ELSE IF Result.k = "analysis" /\ Result.text # C.reasons.analysis THEN "another reason than the compiler gave"
          ELSE IF Result.k = "library" /\ Result.text # C.reasons.library THEN "another reason than the compiler gave"
          ELSE IF Result.k = "merge" /\ Result.text # C.reasons.merge THEN "another reason than the merge tool gave"
          ELSE ""
Next ==
  /\ bad = "?"
  /\ UNCHANGED cc
  /\ CASE at = "instrument" /\ "instrument" \in Faults -> at' = "end" /\ UNCHANGED <<n, bad>>
       [] at = "instrument" /\ ~A -> at' = "merge" /\ UNCHANGED <<n, bad>>
       [] at = "end" -> IF n <= Len(C.log) THEN Done("goes on after the pipeline ended with " \o E.k) ELSE Done(Answer)
       [] at # "end" /\ n > Len(C.log) -> Done("ends before the stage " \o at)
       [] at = "analysis" /\ n <= Len(C.log) -> IF E.k # "analysis" THEN Done("the analysis is not compiled first")
                                                ELSE IF E.src # C.src THEN Done("something else than the analysis is compiled") ELSE Step("analysis")
       [] at = "instrument" /\ A /\ "instrument" \notin Faults /\ n <= Len(C.log) ->
            IF E.k # "generate" THEN Done("no buffer library is generated")
            ELSE IF Elems(E.sigs) # Needed \/ Len(E.sigs) # Cardinality(Needed) THEN Done("the library is not for exactly the signatures needed")
            ELSE Step("instrument")
       [] at = "library" /\ n <= Len(C.log) -> IF E.k # "library" \/ ~E.same THEN Done("the generated library is not compiled") ELSE Step("library")
       [] at = "merge" /\ n <= Len(C.log) ->
            IF E.k # "merge" THEN Done("no merge")
            ELSE LET m == MergeFault(C.primary, A, E.parts, E.names, E.opts)  t == IF m = "" THEN TargetFault(E) ELSE {} IN
                 IF m # "" THEN Done(m) ELSE IF t # {} THEN Done("the program is not instrumented as asked: " \o ToString(t)) ELSE Step("merge")
Spec == Init /\ [][Next]_vars
InOrder == \A i, j \in DOMAIN C.log : i < j /\ j < n => C.log[i].k # C.log[j].k
=============================================================================
