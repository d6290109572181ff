------------------------------- MODULE CliMC -------------------------------
(***************************************************************************)
(* Uses of the command lines: every kind of request and every set of       *)
(* failing stages, stage by stage.  A tool succeeds exactly when nothing   *)
(* it needs fails; what it asked of others is as Cli says; nothing is      *)
(* delivered before the last stage.                                        *)
(***************************************************************************)
EXTENDS Cli, TLC, Json
Instrumenting == [tool : {"instrument"}, hooks : {"default", "apply", "others", "both"}, targets : {"all", "some", "beyond"}, min : {"none"},
                  faults : SUBSET {"usage", "setup", "analysis", "instrument", "library", "merge", "output"}]
Reporting == [tool : {"static"}, hooks : {"none"}, targets : {"none"}, min : {"none", "zero", "some"}, faults : SUBSET {"usage", "read", "output"}]
VARIABLES use, at, asked, status, delivered
vars == <<use, at, asked, status, delivered>>
Applies == use.hooks \in {"default", "apply", "both"}
Stages == IF use.tool = "static" THEN StaticStages ELSE CliStages(Applies)
Init == use \in Instrumenting \cup Reporting /\ at = 1 /\ asked = <<>> /\ status = "runs" /\ delivered = FALSE /\ PrintT("USE " \o ToJson(use))
Next == /\ status = "runs"
        /\ LET s == Stages[at] IN
             /\ asked' = IF s \in Asking THEN Append(asked, s) ELSE asked
             /\ status' = IF s \in use.faults THEN "failure" ELSE IF at = Len(Stages) THEN "success" ELSE "runs"
             /\ delivered' = (s = "output" /\ s \notin use.faults)
        /\ at' = at + 1 /\ UNCHANGED use
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(status # "runs")
Told == status # "runs" => (status = "failure" <=> Failing(Stages, use.faults)) /\ (delivered <=> status = "success")
Requests == status # "runs" /\ use.tool = "instrument" => asked = Asks(Applies, use.faults)
=============================================================================
