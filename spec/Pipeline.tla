------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The pipeline: compile the analysis, instrument the program, compile the *)
(* buffer library if functions are intercepted, merge the parts.  The      *)
(* first stage that fails decides the result and ends the pipeline.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Order == <<"analysis", "instrument", "library", "merge">>
Primaries == {"none", "target", "analysis", "library"}

(* stages of a use: applies = functions are intercepted                    *)
StagesOf(applies) == SelectSeq(Order, LAMBDA s : s # "library" \/ applies)
(* what is reached when the stages in faults fail                          *)
FirstFault(applies, faults) ==
  LET q == StagesOf(applies)  ix == { i \in DOMAIN q : q[i] \in faults } IN
  IF ix = {} THEN 0 ELSE CHOOSE i \in ix : \A j \in ix : i <= j
Reached(applies, faults) ==
  LET n == FirstFault(applies, faults)  q == StagesOf(applies) IN IF n = 0 THEN q ELSE SubSeq(q, 1, n)
Outcome(applies, faults) ==
  LET n == FirstFault(applies, faults) IN IF n = 0 THEN "ok" ELSE StagesOf(applies)[n]

(* the parts that are merged, by the names they call each other by         *)
PartsOf(applies) == {"target", "analysis"} \cup (IF applies THEN {"library"} ELSE {})
NameOf == [target |-> "instrumented_input", analysis |-> "WASTRUMENTATION_ANALYSIS", library |-> "wastrumentation_stack"]
First(primary, applies) == IF primary \in PartsOf(applies) THEN primary ELSE "target"
Options == {"--no-validation", "--rename-export-conflicts", "--enable-multimemory", "--enable-bulk-memory"}

(* a merge request: parts and names in order                               *)
MergeFault(primary, applies, parts, names, opts) ==
  IF Len(parts) # Len(names) THEN "a module without a name"
  ELSE IF Len(parts) # Cardinality(PartsOf(applies)) \/ { parts[i] : i \in DOMAIN parts } # PartsOf(applies) THEN "not the parts this configuration has"
  ELSE IF \E i \in DOMAIN parts : names[i] # NameOf[parts[i]] THEN "a part under another name"
  ELSE IF parts[1] # First(primary, applies) THEN "the configured part does not come first"
  ELSE IF { opts[i] : i \in DOMAIN opts } # Options THEN "other merge options than agreed"
  ELSE ""
ASSUME \A p \in Primaries, a \in BOOLEAN : First(p, a) \in PartsOf(a)
ASSUME \A a \in BOOLEAN : Outcome(a, {}) = "ok" /\ Reached(a, {}) = StagesOf(a)
=============================================================================
