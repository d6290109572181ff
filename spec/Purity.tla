------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* Which functions cannot touch what functions share.  A function is       *)
(* [imp |-> 1 if it comes from outside, ks |-> kinds of its instructions,  *)
(* cs |-> indices of the functions it calls directly]; indices start at 0. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* instructions that read or write state that outlives a call, or call     *)
(* whatever a table holds                                                  *)
Shared == {"global.get", "global.set", "load", "store", "memory.size", "memory.grow", "memory.fill", "memory.copy", "memory.init",
           "data.drop", "table.get", "table.set", "table.size", "table.grow", "table.fill", "table.copy", "table.init", "elem.drop", "call_indirect"}

Ix(fns) == 0..(Len(fns) - 1)
Fn(fns, i) == fns[i + 1]
Touches(f) == f.imp = 1 \/ \E i \in DOMAIN f.ks : f.ks[i] \in Shared
Callees(f) == { f.cs[i] : i \in DOMAIN f.cs }

(* functions that can reach one that touches shared state                  *)
RECURSIVE Spread(_, _)
Spread(fns, u) ==
  LET w == u \cup { i \in Ix(fns) : Callees(Fn(fns, i)) \cap u # {} } IN IF w = u THEN u ELSE Spread(fns, w)
Safe(fns) == Ix(fns) \ Spread(fns, { i \in Ix(fns) : Touches(Fn(fns, i)) })

(* functions that are found immutable by looking at what they call, call   *)
(* by call, a call of itself aside                                         *)
RECURSIVE Build(_, _)
Build(fns, c) ==
  LET w == c \cup { i \in Ix(fns) : ~Touches(Fn(fns, i)) /\ Callees(Fn(fns, i)) \subseteq c \cup {i} } IN IF w = c THEN c ELSE Build(fns, w)
Certain(fns) == Build(fns, {})

(* what may be reported: nothing that is not safe, and no certain one is   *)
(* left out                                                                *)
Fault(fns, reported) ==
  IF \E i \in reported : i \notin Ix(fns) THEN "reports a function that is not there"
  ELSE IF ~(reported \subseteq Safe(fns)) THEN "reports a function that can reach shared state"
  ELSE IF ~(Certain(fns) \subseteq reported) THEN "does not report a function that calls immutable functions only"
  ELSE ""
=============================================================================
