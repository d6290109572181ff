------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Recorded uses of the real command lines, against Cli and IfaceRules.    *)
(***************************************************************************)
EXTENDS Cli, IfaceRules, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cc, n,
          bad
vars == <<cc, n, bad>>
C == Cases[cc]
Faults == Elems(C.faults)
(* no hooks named: all of them                                             *)
Asked == [ft |-> C.ft, fn |-> C.fn, hooks |-> IF C.given = 1 THEN C.hooks ELSE C.allhooks, all |-> C.all, targets |-> C.targets]
A == Applies(Asked)
Stages == IF C.tool = "static" THEN StaticStages ELSE CliStages(A)
ASSUME \A i \in DOMAIN Cases : Cases[i].tool = "instrument" => Elems(Cases[i].allhooks) = HookNames
TargetFault(e) == LET x == Asked @@ [orig |-> C.orig, inst |-> e.target, library |-> e.library] IN
                  IF "invalid" \in DOMAIN e.target THEN {"an invalid module"} ELSE Fails(x) \cup Untouched(x)
EventFault(e, s) ==
  IF e.k # s THEN "asks for " \o e.k \o " instead of " \o s
  ELSE IF s \in {"analysis", "library"} THEN RequestFault(e, C.manifest)
  ELSE LET m == MergeFault("none", A, e.parts, e.names, e.opts)  t == IF m = "" THEN TargetFault(e) ELSE {} IN
       IF m # "" THEN m ELSE IF t # {} THEN "the program is not instrumented as asked: " \o ToString(t) ELSE ""
Answer ==
  IF C.exit = -1 THEN "does not end"
  ELSE IF Failing(Stages, Faults) THEN (IF C.exit = 0 THEN "succeeds although a stage failed" ELSE IF C.silent = 1 THEN "fails without saying anything" ELSE "")
  ELSE IF C.exit # 0 THEN "fails although no stage failed"
  ELSE IF C.tool = "instrument" THEN (IF C.got # C.out THEN "does not deliver exactly what the merge delivered" ELSE "")
  ELSE IF C.parsed # 1 THEN "does not deliver one list of indices"
  ELSE ReportFault(C.fns, C.sizes, C.min, C.report)
Wanted == IF C.tool = "static" THEN <<>> ELSE Asks(A, Faults)
Done(b) == bad' = b /\ PrintT("CLI " \o ToJson([case |-> cc, bad |-> b, at |-> n])) /\ UNCHANGED <<cc, n>>
Init == cc \in DOMAIN Cases /\ n = 1 /\ bad = "?"
Next == /\ bad = "?"
        /\ IF n > Len(Wanted) /\ n > Len(C.log) THEN Done(Answer)
           ELSE IF n > Len(Wanted) THEN Done("goes on with " \o C.log[n].k)
           ELSE IF n > Len(C.log) THEN Done("does not reach " \o Wanted[n])
           ELSE LET f == EventFault(C.log[n], Wanted[n]) IN IF f # "" THEN Done(f) ELSE n' = n + 1 /\ UNCHANGED <<cc, bad>>
Spec == Init /\ [][Next]_vars
=============================================================================
