----------------------------- MODULE Interface -----------------------------
(***************************************************************************)
(* What an analysis must offer for the hooks it asks for, and what the     *)
(* guest code generated from an aspect program offers.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Hooks

(* advice kinds and the hook each one asks for                             *)
AdviceKinds == {"apply", "call_pre", "call_post", "block_pre", "block_post", "loop_pre", "loop_post", "select",
                "call_indirect_pre", "call_indirect_post", "if_then", "if_then_else", "br_if", "br_table"}
AdviceHook(k) ==
  CASE k = "apply" -> "GenericApply" [] k = "call_pre" -> "CallPre" [] k = "call_post" -> "CallPost" [] k = "block_pre" -> "BlockPre"
    [] k = "block_post" -> "BlockPost" [] k = "loop_pre" -> "LoopPre" [] k = "loop_post" -> "LoopPost" [] k = "select" -> "Select"
    [] k = "call_indirect_pre" -> "CallIndirectPre" [] k = "call_indirect_post" -> "CallIndirectPost" [] k = "if_then" -> "IfThen"
    [] k = "if_then_else" -> "IfThenElse" [] k = "br_if" -> "BranchIf" [] k = "br_table" -> "BranchTable"
ASSUME \A k, l \in AdviceKinds : k # l => AdviceHook(k) # AdviceHook(l)
ASSUME \A k \in AdviceKinds : Cardinality(Traps(AdviceHook(k))) = 1
TrapOfAdvice(k) == CHOOSE t \in Traps(AdviceHook(k)) : TRUE

Range(q) == { q[i] : i \in DOMAIN q }
(* an interface: entries [f |-> place, n |-> name, p |-> types, r |-> types], base: the imports of the analysis *)
InterfaceFault(i, hooks) ==
  LET named == { [n |-> e.n, p |-> e.p, r |-> e.r] : e \in Range(i.entries) } IN
  IF \E t \in TrapsOf(hooks) : t \notin named THEN "an entry for a requested hook is missing or has another name or type"
  ELSE IF \E e \in named : e \notin TrapsOf(hooks) THEN "an entry nobody asked for"
  ELSE IF Len(i.entries) # Cardinality(named) THEN "an entry is there twice"
  ELSE IF i.base # (IF "GenericApply" \in hooks THEN << [n |-> "call_base", p |-> <<"i32", "i32">>, r |-> <<>>] >> ELSE <<>>) THEN "not the base function an interception needs"
  ELSE ""

(* guest code: what is exported for each advice, in order; the texts of    *)
(* globals stay where they are; functions of the instrumented program and  *)
(* of the buffers that may be imported                                     *)
ResultOf(t) == IF t.r = <<>> THEN "void" ELSE t.r[1]
Shown(advice) == [i \in DOMAIN advice |->
  IF advice[i] = "global" THEN [k |-> "guest", n |-> "", p |-> <<>>, r |-> "", g |-> <<i>>]
  ELSE LET t == TrapOfAdvice(advice[i]) IN [k |-> "export", n |-> t.n, p |-> t.p, r |-> ResultOf(t), g |-> <<i>>]]
BufferAccess ==
  { [ns |-> "wastrumentation_stack", x |-> "wastrumentation_stack_load_" \o t, p |-> <<"i32", "i32">>, r |-> t] : t \in NumT }
  \cup { [ns |-> "wastrumentation_stack", x |-> "wastrumentation_stack_store_" \o t, p |-> <<"i32", t, "i32">>, r |-> "void"] : t \in NumT }
  \cup { [ns |-> "wastrumentation_stack", x |-> "wastrumentation_stack_load_type", p |-> <<"i32", "i32">>, r |-> "i32"] }
Importable(advice) == IF "apply" \in Range(advice) THEN BufferAccess \cup {[ns |-> "instrumented_input", x |-> "call_base", p |-> <<"i32", "i32">>, r |-> "void"]} ELSE {}
Plain(e) == [k |-> e.k, n |-> e.n, p |-> e.p, r |-> e.r, g |-> e.g]
GuestFault(advice, items) ==
  LET shown == SelectSeq(items, LAMBDA e : e.k \in {"export", "guest"}) IN
  IF \E e \in Range(items) : e.k = "exports otherwise" THEN "exports something that is no function"
  ELSE IF \E e \in Range(items) : e.k \notin {"export", "guest"} /\ e.g # <<>> THEN "guest text ends up in another place"
  ELSE IF [i \in DOMAIN shown |-> Plain(shown[i])] # Shown(advice) THEN "does not export exactly the functions of the advice, in order, around the guest text"
  ELSE IF \E e \in Range(shown) : e.k = "export" /\ e.here # 1 THEN "guest text is not a statement of its function"
  ELSE IF \E e \in Range(items) : e.k = "import" /\ [ns |-> e.ns, x |-> e.x, p |-> e.p, r |-> e.r] \notin Importable(advice) THEN "imports a function that nobody offers"
  ELSE ""
RECURSIVE Weave(_, _)
Weave(frames, bodies) == IF bodies = <<>> THEN frames[1] ELSE frames[1] \o bodies[1] \o Weave(Tail(frames), Tail(bodies))
=============================================================================
