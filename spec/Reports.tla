------------------------------ MODULE Reports ------------------------------
(***************************************************************************)
(* What the analyses shipped with the benchmarks find out.  The state is   *)
(* the tally of every analysis; a step is one notification of a history    *)
(* (or the begin or end of an intercepted call); Answer is what an         *)
(* analysis replies when it is asked for its results.                      *)
(*                                                                         *)
(* An event e has a name e.n, arguments e.a (little-endian bytes; the last *)
(* two are the function and the instruction) and e.t, the trap that ended  *)
(* the operation while the analysis performed it, "" for none.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Hooks

(* the kinds of operation, in the order in which they are numbered         *)
Kinds == <<"IfThenElse", "IfThenElsePost", "IfThen", "IfThenPost", "Branch", "BranchIf", "BranchTable", "Select", "CallPre", "CallPost",
           "CallIndirectPre", "CallIndirectPost", "Unary", "Binary", "Drop", "Return", "Const", "Local", "Global", "Load", "Store",
           "MemorySize", "MemoryGrow", "BlockPre", "BlockPost", "LoopPre", "LoopPost">>
ASSUME { Kinds[i] : i \in DOMAIN Kinds } = HookNames \ {"GenericApply"}

(* the hooks each analysis needs                                           *)
All == HookNames \ {"GenericApply"}
Needs == [x \in {"forward", "icount", "opcodes", "coverage-instruction"} |-> All] @@
  ("block-profiling" :> {"IfThenElse", "IfThen", "CallPre", "CallIndirectPre", "BlockPre", "LoopPre"}) @@
  ("branches" :> {"IfThenElse", "IfThen", "BranchIf", "BranchTable"}) @@
  ("coverage-branch" :> {"IfThenElse", "IfThen", "BranchIf", "BranchTable", "Select"}) @@
  ("call-graph" :> {"CallPre"}) @@
  ("call-stack-eq-wasabi" :> {"CallPre", "CallPost", "CallIndirectPre", "CallIndirectPost"}) @@
  ("call-stack-wastrumentation" :> {"CallPre", "CallPost", "CallIndirectPre", "CallIndirectPost", "GenericApply"}) @@
  ("cryptominer-detection" :> {"Binary"}) @@
  ("denan" :> {"GenericApply", "Unary", "Binary", "Const", "Local", "Global", "Load", "Store"}) @@
  ("globals" :> {"Global"}) @@ ("loops" :> {"LoopPre"}) @@
  [x \in {"memory-tracing", "memstats", "safe-heap"} |-> {"Load", "Store"}] @@
  ("taint" :> HookNames)
Analyses == DOMAIN Needs

(* ------------------------------ arithmetic ----------------------------- *)
RECURSIVE Le(_, _)
Le(n, w) == IF w = 0 THEN <<>> ELSE <<n % 256>> \o Le(n \div 256, w - 1)
RECURSIVE Nat4(_)
Nat4(b) == IF b = <<>> THEN 0 ELSE b[1] + 256 * Nat4(Tail(b))
MinusOne(w) == [i \in 1..w |-> 255]
MinusTwo(w) == [i \in 1..w |-> IF i = 1 THEN 254 ELSE 255]
Short(b) == \A i \in DOMAIN b : i >= 4 => b[i] = (IF i = 4 THEN b[i] % 64 ELSE 0)
Plus(m, k, n) == IF k \in DOMAIN m THEN [m EXCEPT ![k] = @ + n] ELSE m @@ (k :> n)
Of(m, k, otherwise) == IF k \in DOMAIN m THEN m[k] ELSE otherwise
Max(a, b) == IF a > b THEN a ELSE b

(* ------------------------------- the state ----------------------------- *)
Nothing == [x \in {} |-> 0]
Start ==
  [kinds |-> Nothing,   \* kind -> times
   per |-> Nothing,     \* function, kind -> times
   cov |-> {},          \* locations with a notification
   branch |-> Nothing,  \* location -> last condition or label
   cond |-> Nothing,    \* the same, with selections
   enter |-> Nothing,   \* location, target -> times
   edges |-> {},        \* caller, callee
   calls |-> [n |-> 0, depth |-> 0, max |-> 0],
   applies |-> [n |-> 0, depth |-> 0, max |-> 0],
   mining |-> Nothing,  \* 0..4 -> times
   read |-> Nothing, written |-> Nothing,  \* global -> times
   loops |-> Nothing,   \* location -> times
   trace |-> <<>>,      \* accesses that took place
   r |-> Nothing, w |-> Nothing]  \* byte -> accesses

Func(e) == e.a[Len(e.a) - 1]
Instr(e) == e.a[Len(e.a)]
At(e) == <<Func(e), Instr(e)>>
Enter(c) == [n |-> c.n + 1, depth |-> c.depth + 1, max |-> Max(c.max, c.depth + 1)]
Leave(c) == [c EXCEPT !.depth = @ - 1]

MiningOps == << {"i32.add", "i64.add", "f32.add", "f64.add"}, {"i32.and", "i64.and"}, {"i32.shl", "i64.shl"}, {"i32.shr_u", "i64.shr_u"}, {"i32.xor", "i64.xor"} >>
Mined(e) == LET op == BinaryOps[Nat4(e.a[3])][1] IN { i - 1 : i \in { i \in DOMAIN MiningOps : op \in MiningOps[i] } }

Offset(e) == e.a[Len(e.a) - 3]
Reachable(e) == Short(e.a[1]) /\ Short(Offset(e))
Address(e) == Nat4(SubSeq(e.a[1], 1, 4)) + Nat4(SubSeq(Offset(e), 1, 4))
Width(e, h) == LET c == Nat4(e.a[Len(e.a) - 2]) IN IF h = "Load" THEN LoadOps[c][3] ELSE StoreOps[c][3]
Touch(m, e, h) == IF ~Reachable(e) THEN m
                  ELSE LET B == Address(e)..(Address(e) + Width(e, h) - 1) IN [b \in B \cup DOMAIN m |-> Of(m, b, 0) + (IF b \in B THEN 1 ELSE 0)]

Conditional(h) == h \in {"IfThenElse", "IfThen", "BranchIf", "BranchTable"}
Condition(e, h) == IF h = "BranchTable" THEN e.a[2] ELSE e.a[1]
Target(e, h) == IF h \in {"IfThenElse", "IfThen", "CallIndirectPre"} THEN e.a[1] ELSE <<0, 0, 0, 0>>

Noted(R, e) ==
  LET h == HookOfTrap[e.n] IN
  [R EXCEPT
    !.kinds = Plus(@, h, 1),
    !.per = Plus(@, <<Func(e), h>>, 1),
    !.cov = @ \cup {At(e)},
    !.branch = IF Conditional(h) THEN (At(e) :> Condition(e, h)) @@ @ ELSE @,
    !.cond = IF Conditional(h) \/ h = "Select" THEN (At(e) :> Condition(e, h)) @@ @ ELSE @,
    !.enter = IF h \in Needs["block-profiling"] THEN Plus(@, At(e) \o <<Target(e, h)>>, 1) ELSE @,
    !.edges = IF h = "CallPre" THEN @ \cup {<<Func(e), e.a[1]>>} ELSE @,
    !.calls = IF h \in {"CallPre", "CallIndirectPre"} THEN Enter(@) ELSE IF h \in {"CallPost", "CallIndirectPost"} THEN Leave(@) ELSE @,
    !.mining = IF h = "Binary" /\ Mined(e) # {} THEN Plus(@, CHOOSE i \in Mined(e) : TRUE, 1) ELSE @,
    !.read = IF h = "Global" THEN Plus(@, e.a[2], IF e.n \in { "trap_global_get_" \o t : t \in NumT } THEN 1 ELSE 0) ELSE @,
    !.written = IF h = "Global" THEN Plus(@, e.a[2], IF e.n \in { "trap_global_set_" \o t : t \in NumT } THEN 1 ELSE 0) ELSE @,
    !.loops = IF h = "LoopPre" THEN Plus(@, At(e), 1) ELSE @,
    !.trace = IF h \in {"Load", "Store"} /\ e.t = "" THEN Append(@, <<Func(e), Instr(e), Le(Address(e), 8), h>>) ELSE @,
    !.r = IF h = "Load" THEN Touch(@, e, h) ELSE @,
    !.w = IF h = "Store" THEN Touch(@, e, h) ELSE @]
Step(R, e) ==
  CASE e.k = "ev" -> Noted(R, e)
    [] e.k = "ap" -> [R EXCEPT !.applies = Enter(@)]
    [] e.k = "apd" -> [R EXCEPT !.applies = Leave(@)]
    [] OTHER -> R

(* -------------------- what is asked, and the answers ------------------- *)
(* A question q has a name q.q and arguments q.a (bytes).  The answer is   *)
(* the bytes of the result; "trap" for what does not exist.                *)
Trap == <<"trap">>
Answer(an, R, q) ==
  CASE an = "block-profiling" -> Le(Of(R.enter, q.a, 0), 8)
    [] an = "branches" -> Of(R.branch, q.a, MinusOne(4))
    [] an = "coverage-branch" -> Of(R.cond, q.a, MinusOne(4))
    [] an = "coverage-instruction" -> Le(IF q.a \in R.cov THEN 1 ELSE 0, 4)
    [] an = "call-graph" /\ q.q = "get_total_edges" -> Le(Cardinality(R.edges), 4)
    [] an \in {"call-stack-eq-wasabi", "call-stack-wastrumentation"} ->
         Le(CASE q.q = "get_number_of_calls" -> R.calls.n [] q.q = "get_max_call_depth" -> R.calls.max [] q.q = "get_call_stack" -> R.calls.depth
              [] q.q = "get_number_of_applies" -> R.applies.n [] q.q = "get_max_apply_depth" -> R.applies.max, 4)
    [] an = "cryptominer-detection" -> Le(Of(R.mining, Nat4(q.a[1]), 0), 8)
    [] an = "globals" -> (IF q.a[1] \notin DOMAIN R.read THEN MinusTwo(4) ELSE IF Nat4(q.a[2]) = 0 THEN Le(R.read[q.a[1]], 4)
                          ELSE IF Nat4(q.a[2]) = 1 THEN Le(R.written[q.a[1]], 4) ELSE MinusOne(4))
    [] an = "icount" -> (CASE q.q = "total_instrs" -> Le(Len(Kinds), 4)
                           [] q.q = "total_counted_fs" -> Le(Cardinality({ k[1] : k \in DOMAIN R.per }), 4)
                           [] OTHER -> LET i == Nat4(q.a[2]) + 1 IN
                                       IF i > Len(Kinds) \/ ~\E k \in DOMAIN R.per : k[1] = q.a[1] THEN MinusOne(4)
                                       ELSE Le(Of(R.per, <<q.a[1], Kinds[i]>>, 0), 4))
    [] an = "opcodes" -> (CASE q.q = "total_instrs" -> Le(Len(Kinds), 4)
                            [] OTHER -> LET i == Nat4(q.a[1]) + 1 IN IF i > Len(Kinds) THEN Trap ELSE Le(Of(R.kinds, Kinds[i], 0), 4))
    [] an = "loops" -> (IF q.q = "total_counted_loops" THEN Le(Cardinality(DOMAIN R.loops), 4)
                        ELSE IF q.a \in DOMAIN R.loops THEN Le(R.loops[q.a], 4) ELSE MinusOne(4))
    [] an = "memory-tracing" -> (CASE q.q = "total_accesses" -> Le(Len(R.trace), 8)
                                   [] q.q = "get_total_accesses_from_buffer" -> Le(Len(R.trace), 4)
                                   [] Nat4(q.a[1]) >= Len(R.trace) -> Trap
                                   [] OTHER -> LET x == R.trace[Nat4(q.a[1]) + 1] IN
                                       CASE q.q = "get_nth_funct_index" -> x[1] [] q.q = "get_nth_instr_index" -> x[2] [] q.q = "get_nth_address" -> x[3]
                                         [] q.q = "get_nth_operation" -> Le(IF x[4] = "Store" THEN 1 ELSE 0, 4))
    [] an = "memstats" -> LET m == IF q.q = "get_read_at" THEN R.r ELSE R.w  b == Nat4(q.a[1]) IN
                          IF \A x \in DOMAIN m : x < b THEN Trap ELSE Le(Of(m, b, 0), 4)

(* the call graph is told edge by edge, in any order, each once            *)
Edges(answers) ==
  LET pick(name) == { i \in DOMAIN answers : answers[i].q = name }
      n(i) == Nat4(answers[i].a[1]) IN
  { <<n(i), answers[i].r, answers[j].r>> : <<i, j>> \in { <<i, j>> \in pick("get_from_at") \X pick("get_to_at") : n(i) = n(j) } }
ToldEdges(R, answers) ==
  LET told == { x \in Edges(answers) : x[2] # Trap /\ x[3] # Trap } IN
  /\ { <<x[2], x[3]>> : x \in told } \subseteq { <<e[1], e[2] \o <<0, 0, 0, 0>>>> : e \in R.edges }
  /\ \A x, y \in told : x # y => <<x[2], x[3]>> # <<y[2], y[3]>>
  /\ \A x \in Edges(answers) : (x[2] # Trap) = (x[1] < Cardinality(R.edges)) /\ (x[3] # Trap) = (x[1] < Cardinality(R.edges))

(* --------------- analyses that change what programs do ----------------- *)
(* denan lets no NaN through: constants, locals, globals are handed on     *)
(* with NaN replaced by zero, operators and loads result in no NaN, and    *)
(* none is stored.  safe-heap stops accesses that are not aligned to the   *)
(* size of the value, or not wholly inside the memory.                     *)
NaN(b) == LET hi == b[Len(b)] % 128  lo == b[Len(b) - 1]
              rest == \E i \in 1..(Len(b) - 2) : b[i] # 0 IN
          IF Len(b) = 4 THEN hi = 127 /\ lo >= 128 /\ (lo > 128 \/ rest) ELSE hi = 127 /\ lo >= 240 /\ (lo > 240 \/ rest)
Zero(b) == [i \in DOMAIN b |-> 0]
FloatResult(n) == \E t \in {"f32", "f64"} :
  n \in { "trap_" \o x \o t : x \in {"const_", "local_get_", "local_set_", "local_tee_", "global_get_", "global_set_"} } \cup { "trap_" \o t \o "_load" }
        \cup { UnaryTrap(i) : i \in { i \in DOMAIN UnaryOps : UnaryOps[i][3] = t } } \cup { BinaryTrap(i) : i \in { i \in DOMAIN BinaryOps : BinaryOps[i][3] = t } }
FloatTraps == { n \in { t.n : t \in AllTraps } : FloatResult(n) }
ValueSize(e) == IF e.n \in { "trap_" \o t \o x : t \in {"i32", "f32"}, x \in {"_load", "_store"} } THEN 4 ELSE 8
Pages(e) == { Nat4(e.x[i].r) : i \in { i \in DOMAIN e.x : e.x[i].k = "Z" } }
Performed(e) == \E i \in DOMAIN e.x : e.x[i].k \in {"L", "S"}
Acts(an, e) ==
  IF e.k # "ev" THEN TRUE
  ELSE LET h == HookOfTrap[e.n] IN
  CASE an = "denan" /\ h \in {"Const", "Local", "Global"} -> e.r = IF e.n \in FloatTraps /\ NaN(e.a[1]) THEN Zero(e.a[1]) ELSE e.a[1]
    [] an = "denan" /\ e.n \in FloatTraps -> e.t = "" => ~NaN(e.r)
    [] an = "denan" /\ h = "Store" -> \A i \in DOMAIN e.x : e.x[i].k = "S" =>
         e.x[i].a[2] = IF e.n \in {"trap_f32_store", "trap_f64_store"} /\ NaN(e.a[2]) THEN Zero(e.a[2]) ELSE e.a[2]
    [] an = "safe-heap" /\ Reachable(e) -> LET good == /\ e.a[1][1] % ValueSize(e) = 0
                                                       /\ \A p \in Pages(e) : Address(e) + ValueSize(e) <= p * 65536 IN
         (e.t = "") = good /\ (good => Performed(e))
    [] an = "safe-heap" -> e.t # ""  \* whether the analysis or the memory itself refuses it
    [] OTHER -> TRUE

(* ---------------------- how the tallies fit together ------------------- *)
RECURSIVE Total(_, _)
Total(m, D) == IF D = {} THEN 0 ELSE LET k == CHOOSE k \in D : TRUE IN m[k] + Total(m, D \ {k})
Sum(m) == Total(m, DOMAIN m)
Consistent(R) ==
  /\ \A k \in DOMAIN R.kinds : R.kinds[k] = Total(R.per, { p \in DOMAIN R.per : p[2] = k })
  /\ Sum(R.kinds) >= Cardinality(R.cov)
  /\ DOMAIN R.branch \subseteq DOMAIN R.cond /\ DOMAIN R.cond \subseteq R.cov
  /\ \A l \in DOMAIN R.branch : R.cond[l] = R.branch[l]
  /\ Sum(R.loops) = Of(R.kinds, "LoopPre", 0) /\ DOMAIN R.loops \subseteq R.cov
  /\ Sum(R.enter) >= Sum(R.loops)
  /\ R.calls.depth <= R.calls.max /\ R.calls.max <= R.calls.n /\ R.applies.depth <= R.applies.max /\ R.applies.max <= R.applies.n
  /\ R.calls.n = Of(R.kinds, "CallPre", 0) + Of(R.kinds, "CallIndirectPre", 0)
  /\ Cardinality(R.edges) <= Of(R.kinds, "CallPre", 0)
  /\ Sum(R.mining) <= Of(R.kinds, "Binary", 0)
  /\ Sum(R.read) + Sum(R.written) = Of(R.kinds, "Global", 0) /\ DOMAIN R.read = DOMAIN R.written
  /\ Len(R.trace) <= Of(R.kinds, "Load", 0) + Of(R.kinds, "Store", 0)
=============================================================================
