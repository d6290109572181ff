-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command lines.  The instrumenting tool reads its arguments, sets up *)
(* its compilers, goes through the stages of Pipeline and writes what the  *)
(* merge delivered; the other tool reports which functions are immutable.  *)
(* The first stage that fails ends a tool, which says so by its status.    *)
(***************************************************************************)
EXTENDS Pipeline, Purity

CliStages(applies) == <<"usage", "setup">> \o StagesOf(applies) \o <<"output">>
StaticStages == <<"usage", "read", "output">>
RECURSIVE UpTo(_, _)
UpTo(q, faults) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in faults THEN <<Head(q)>> ELSE <<Head(q)>> \o UpTo(Tail(q), faults)
Failing(q, faults) == \E i \in DOMAIN q : q[i] \in faults
(* stages at which somebody else is asked for something                    *)
Asking == {"analysis", "library", "merge"}
Asks(applies, faults) == SelectSeq(UpTo(CliStages(applies), faults), LAMBDA s : s \in Asking)
(* what a request of a compiler must say                                   *)
RequestFault(e, manifest) ==
  IF e.wasi # "Disabled" THEN "asks for WASI"
  ELSE IF e.profile # "Release" THEN "does not ask for a release"
  ELSE IF e.k = "analysis" /\ e.path # manifest THEN "asks for another analysis than the given one"
  ELSE ""
(* the report: functions of at least the size asked for (-1: any)          *)
Large(fns, sizes, min) == { i \in Ix(fns) : sizes[i + 1] >= min }
ReportFault(fns, sizes, min, report) ==
  LET r == { report[i] : i \in DOMAIN report } IN
  IF Cardinality(r) # Len(report) THEN "reports a function twice"
  ELSE IF \E i \in r : i \notin Ix(fns) THEN "reports a function that is not there"
  ELSE IF ~(r \subseteq Large(fns, sizes, min)) THEN "reports a function smaller than asked for"
  ELSE IF ~(r \subseteq Safe(fns)) THEN "reports a function that can reach shared state"
  ELSE IF ~(Certain(fns) \cap Large(fns, sizes, min) \subseteq r) THEN "leaves out a function that calls immutable functions only"
  ELSE ""
ASSUME \A a \in BOOLEAN : Asks(a, {}) = SelectSeq(StagesOf(a), LAMBDA s : s \in Asking)
ASSUME \A a \in BOOLEAN, s \in {"usage", "setup"} : Asks(a, {s}) = <<>>
=============================================================================
