----------------------------- MODULE IfaceRules -----------------------------
(***************************************************************************)
(* What instrumentation may do to the structure of a module.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Hooks

Elems(q) == { q[i] : i \in DOMAIN q }
Times(q, x) == Cardinality({ i \in DOMAIN q : q[i] = x })
(* q has everything of p, as often                                         *)
Covers(q, p) == \A x \in Elems(p) : Times(q, x) >= Times(p, x)
Added(q, p) == { x \in Elems(q) : Times(q, x) > Times(p, x) }

FTypeOf(c, f) == c.ft[c.fn[f + 1]]
Plain(c, f) == Elems(FTypeOf(c, f).p) \cup Elems(FTypeOf(c, f).r) \subseteq NumT
Targets(c) == { f \in 0..(Len(c.fn) - 1) : Plain(c, f) /\ (c.all = 1 \/ f \in Elems(c.targets)) }
HooksOf(c) == Elems(c.hooks)
ANALYSIS == "WASTRUMENTATION_ANALYSIS"
STACK == "wastrumentation_stack"
Applies(c) == "GenericApply" \in HooksOf(c)

WantedTraps(c) == { [m |-> ANALYSIS, n |-> t.n, k |-> "func", t |-> Sig(t.p, t.r)] : t \in TrapsOf(HooksOf(c)) }
(* what the buffers of a signature are called                              *)
RECURSIVE JoinU(_)
JoinU(q) == IF q = <<>> THEN "" ELSE "_" \o q[1] \o JoinU(Tail(q))
Suffix(ty) == "ret" \o JoinU(ty.r) \o "_arg" \o JoinU(ty.p)
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

Fails(c) ==
  LET o == c.orig  n == c.inst
      newi == Added(n.imports, o.imports)
      newx == Added(n.exports, o.exports)
      buffers == { x \in newi : x.m = STACK }
  IN
  (IF Covers(n.imports, o.imports) THEN {} ELSE {"an import is gone"})
  \cup (IF \A w \in WantedTraps(c) : Times(n.imports, w) = 1 THEN {} ELSE {"a notification import is missing or repeated"})
  \cup (IF \A x \in newi : x.m # STACK => x \in WantedTraps(c) THEN {} ELSE {"an import nobody asked for"})
  \cup (IF \A x \in newi : Times(n.imports, x) = Times(o.imports, x) + 1 THEN {} ELSE {"an import is added twice"})
  \cup (IF Applies(c) \/ buffers = {} THEN {} ELSE {"buffers without interception"})
  \cup (IF \A x \in buffers : \E f \in Targets(c) : EndsWith(x.n, Suffix(FTypeOf(c, f))) THEN {} ELSE {"a buffer for no intercepted signature"})
  \cup (IF buffers = {} THEN {} ELSE IF \A x \in buffers : [n |-> x.n, k |-> x.k, t |-> x.t] \in Elems(c.library) THEN {} ELSE {"a buffer import the library does not provide"})
  \cup (IF Covers(n.exports, o.exports) THEN {} ELSE {"an export is gone"})
  \cup (IF \A x \in newx : x.k = "func" /\ ([n |-> x.n, t |-> x.t] \in Access \/ (Applies(c) /\ [n |-> x.n, t |-> x.t] = CallBase)) THEN {} ELSE {"an export nobody asked for"})
  \cup (IF \A a \in Access : Times(n.exports, [n |-> a.n, k |-> "func", t |-> a.t]) = 1 THEN {} ELSE {"an access export is missing"})
  \cup (IF ~Applies(c) \/ Times(n.exports, [n |-> CallBase.n, k |-> "func", t |-> CallBase.t]) = 1 THEN {} ELSE {"call_base is missing"})
  \cup (IF n.memories = o.memories THEN {} ELSE {"the memories differ"})
  \cup (IF n.globals = o.globals THEN {} ELSE {"the globals differ"})
  \cup (IF n.data = o.data THEN {} ELSE {"the data differ"})
  \cup (IF n.start = o.start THEN {} ELSE {"the start function differs"})
  \cup (IF Len(n.tables) >= Len(o.tables) /\ SubSeq(n.tables, 1, Len(o.tables)) = o.tables /\ (Applies(c) \/ n.tables = o.tables)
        THEN {} ELSE {"the tables differ"})
  \cup (IF Covers(n.elements, o.elements) /\ (Applies(c) \/ Len(n.elements) = Len(o.elements)) THEN {} ELSE {"the elements differ"})
(* functions that are not selected keep their code                         *)
FName(f) == "f" \o ToString(f)
Untouched(c) ==
  LET o == c.orig.bodies  n == c.inst.bodies IN
  IF \A f \in 0..(Len(c.fn) - 1) : (f \notin Targets(c) /\ FName(f) \in DOMAIN o) => (FName(f) \in DOMAIN n /\ n[FName(f)] = o[FName(f)])
  THEN {} ELSE {"a function that was not selected changed"}

=============================================================================
