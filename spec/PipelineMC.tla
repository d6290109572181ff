----------------------------- MODULE PipelineMC -----------------------------
(***************************************************************************)
(* The pipeline as stages that run one by one and may fail, over every     *)
(* kind of configuration and every set of failing stages.  Uses are        *)
(* printed for the replay in the real code.                                *)
(***************************************************************************)
EXTENDS Pipeline, TLC, Json

HookKinds == {"none", "apply", "others", "both"}
TargetKinds == {"all", "some", "nothing", "imports", "beyond"}
VARIABLES use, done, result, merged
vars == <<use, done, result, merged>>
Applies == use.hooks \in {"apply", "both"}
Init == /\ use \in [hooks : HookKinds, targets : TargetKinds, primary : Primaries, faults : SUBSET {"analysis", "instrument", "library", "merge"}]
        /\ done = <<>> /\ result = "" /\ merged = {}
        /\ PrintT("USE " \o ToJson(use))
(* what a stage needs before it can run                                    *)
Needs(s) == CASE s = "analysis" -> {} [] s = "instrument" -> {"analysis"} [] s = "library" -> {"instrument"}
              [] s = "merge" -> {"analysis", "instrument"} \cup (IF Applies THEN {"library"} ELSE {})
Ran == { done[i] : i \in DOMAIN done }
Run(s) == /\ result = "" /\ s \notin Ran /\ Needs(s) \subseteq Ran
          /\ s = "library" => Applies
          /\ done' = Append(done, s)
          /\ result' = IF s \in use.faults THEN s ELSE IF s = "merge" THEN "ok" ELSE ""
          /\ merged' = IF s = "merge" THEN PartsOf(Applies) ELSE merged
          /\ UNCHANGED use
Next == \E s \in {"analysis", "instrument", "library", "merge"} : Run(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(result # "")
Agrees == result # "" => result = Outcome(Applies, use.faults) /\ done = Reached(Applies, use.faults)
Stops == \A i \in DOMAIN done : i < Len(done) => done[i] \notin use.faults
Complete == result = "ok" => merged = PartsOf(Applies) /\ (Applies <=> "library" \in Ran)
=============================================================================
