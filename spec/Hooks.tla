------------------------------- MODULE Hooks -------------------------------
(***************************************************************************)
(* The notifications: for every hook an analysis can ask for, the          *)
(* functions it must export, with their types.  The last two arguments are *)
(* always the function and instruction index.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Codes

HookNames == {"GenericApply", "CallPre", "CallPost", "CallIndirectPre", "CallIndirectPost", "IfThen", "IfThenPost",
              "IfThenElse", "IfThenElsePost", "Branch", "BranchIf", "BranchTable", "Select", "Unary", "Binary", "Drop",
              "Return", "Const", "Local", "Global", "Store", "Load", "MemorySize", "MemoryGrow", "BlockPre", "BlockPost",
              "LoopPre", "LoopPost"}
NumT == {"i32", "i64", "f32", "f64"}
Where == <<"i64", "i64">>
T(n, p, r) == [n |-> n, p |-> p \o Where, r |-> r]

(* every operator notification that some operator needs                    *)
UnaryTraps == { T(UnaryTrap(i), <<UnaryOps[i][2], "i32">>, <<UnaryOps[i][3]>>) : i \in DOMAIN UnaryOps }
BinaryTraps == { T(BinaryTrap(i), <<BinaryOps[i][2], BinaryOps[i][2], "i32">>, <<BinaryOps[i][3]>>) : i \in DOMAIN BinaryOps }

Traps(h) ==
  CASE h = "GenericApply" -> { [n |-> "generic_apply", p |-> [i \in 1..7 |-> "i32"], r |-> <<>>] }
    [] h = "CallPre" -> { T("specialized_call_pre", <<"i32">>, <<>>) }
    [] h = "CallPost" -> { T("specialized_call_post", <<"i32">>, <<>>) }
    [] h = "CallIndirectPre" -> { T("specialized_call_indirect_pre", <<"i32", "i32">>, <<"i32">>) }
    [] h = "CallIndirectPost" -> { T("specialized_call_indirect_post", <<"i32">>, <<>>) }
    [] h = "IfThen" -> { T("specialized_if_then_k", <<"i32", "i32", "i32">>, <<"i32">>) }
    [] h = "IfThenPost" -> { T("trap_if_then_post", <<>>, <<>>) }
    [] h = "IfThenElse" -> { T("specialized_if_then_else_k", <<"i32", "i32", "i32">>, <<"i32">>) }
    [] h = "IfThenElsePost" -> { T("trap_if_then_else_post", <<>>, <<>>) }
    [] h = "Branch" -> { T("specialized_br", <<"i64">>, <<>>) }
    [] h = "BranchIf" -> { T("specialized_br_if", <<"i32", "i32">>, <<"i32">>) }
    [] h = "BranchTable" -> { T("specialized_br_table", <<"i32", "i32", "i32">>, <<"i32">>) }
    [] h = "Select" -> { T("specialized_select", <<"i32">>, <<"i32">>) }
    [] h = "Unary" -> UnaryTraps
    [] h = "Binary" -> BinaryTraps
    [] h = "Drop" -> { T("drop_trap", <<>>, <<>>) }
    [] h = "Return" -> { T("return_trap", <<>>, <<>>) }
    [] h = "Const" -> { T("trap_const_" \o t, <<t>>, <<t>>) : t \in NumT }
    [] h = "Local" -> { T("trap_local_" \o o \o "_" \o t, <<t, "i64">>, <<t>>) : o \in {"get", "set", "tee"}, t \in NumT }
    [] h = "Global" -> { T("trap_global_" \o o \o "_" \o t, <<t, "i64">>, <<t>>) : o \in {"get", "set"}, t \in NumT }
    [] h = "Store" -> { T("trap_" \o t \o "_store", <<"i32", t, "i64", "i32">>, <<>>) : t \in NumT }
    [] h = "Load" -> { T("trap_" \o t \o "_load", <<"i32", "i64", "i32">>, <<t>>) : t \in NumT }
    [] h = "MemorySize" -> { T("trap_memory_size", <<"i32", "i64">>, <<"i32">>) }
    [] h = "MemoryGrow" -> { T("trap_memory_grow", <<"i32", "i64">>, <<"i32">>) }
    [] h = "BlockPre" -> { T("trap_block_pre", <<"i32", "i32">>, <<>>) }
    [] h = "BlockPost" -> { T("trap_block_post", <<>>, <<>>) }
    [] h = "LoopPre" -> { T("trap_loop_pre", <<"i32", "i32">>, <<>>) }
    [] h = "LoopPost" -> { T("trap_loop_post", <<>>, <<>>) }
TrapsOf(hooks) == UNION { Traps(h) : h \in hooks }
(* the hook a notification belongs to                                      *)
AllTraps == TrapsOf(HookNames)
HookOfTrap == [n \in { t.n : t \in AllTraps } |-> CHOOSE h \in HookNames : \E t \in Traps(h) : t.n = n]

RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o " " \o Join(Tail(q))
Sig(p, r) == "(" \o Join(p) \o ")->(" \o Join(r) \o ")"

(* the access functions an instrumented module offers to the analysis      *)
AccessName(i) == CASE LoadOps[i][1] \in {"i32.load", "i64.load", "f32.load", "f64.load"} -> LoadOps[i][2]
                   [] OTHER -> LoadOps[i][2] \o "_" \o (IF LoadOps[i][3] = 1 THEN "8" ELSE IF LoadOps[i][3] = 2 THEN "16" ELSE "32")
                               \o (IF LoadOps[i][4] = "s" THEN "S" ELSE "U")
StoreName(i) == IF StoreOps[i][1] \in {"i32.store", "i64.store", "f32.store", "f64.store"} THEN StoreOps[i][2]
                ELSE StoreOps[i][2] \o "_" \o (IF StoreOps[i][3] = 1 THEN "8" ELSE IF StoreOps[i][3] = 2 THEN "16" ELSE "32")
Access ==
  { [n |-> "instrumented_base_load_" \o AccessName(i), t |-> Sig(<<"i32", "i32">>, <<LoadOps[i][2]>>)] : i \in DOMAIN LoadOps }
  \cup { [n |-> "instrumented_base_store_" \o StoreName(i), t |-> Sig(<<"i32", StoreOps[i][2], "i32">>, <<>>)] : i \in DOMAIN StoreOps }
  \cup { [n |-> "instrumented_memory_grow", t |-> Sig(<<"i32", "i32">>, <<"i32">>)],
         [n |-> "instrumented_memory_size", t |-> Sig(<<"i32">>, <<"i32">>)] }
CallBase == [n |-> "call_base", t |-> Sig(<<"i32", "i32">>, <<>>)]

(* no two notifications share a name, and every hook has one               *)
ASSUME \A t, u \in AllTraps : t.n = u.n => t = u
ASSUME \A h, k \in HookNames : h # k => Traps(h) \cap Traps(k) = {}
ASSUME \A h \in HookNames : Traps(h) # {}
=============================================================================
