--------------------------- MODULE StackLibTrace ---------------------------
(***************************************************************************)
(* Histories recorded from the real libraries, checked against StackLib    *)
(* one call at a time.                                                     *)
(***************************************************************************)
EXTENDS StackLib, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cc, n, live, used, peak, bad
vars == <<cc, n, live, used, peak, bad>>
C == Cases[cc]
S(e) == C.sigs[e.s]
Has(e, f) == f \in DOMAIN e
Max(a, b) == IF a > b THEN a ELSE b

After(e) ==
  CASE e.op = "alloc"  -> Make(live, Values(e.s, S(e), e.v))
    [] e.op = "talloc" -> Make(live, Types(e.s, S(e)))
    [] e.op \in {"free", "tfree"} -> Release(live)
    [] e.op = "store"  -> Put(live, e.b, SlotOf(S(e), e.side, e.i), [t |-> e.t, v |-> e.v])
    [] e.op = "gstore" -> Put(live, e.b, e.i + 1, [t |-> e.t, v |-> e.v])
    [] e.op = "rets"   -> PutResults(live, e.b, S(e), e.v)
    [] OTHER -> live
UsedAfter(e) ==
  CASE e.op \in {"alloc", "talloc"} -> used + Room(S(e))
    [] e.op \in {"free", "tfree"} -> used - Room(S(e))
    [] OTHER -> used
Wrong(e) ==
  IF Has(e, "error") THEN "fails"
  ELSE IF e.op = "load" THEN
    (IF e.r[1] # e.t THEN "gives another type"
     ELSE IF ~MayFind(live, e.b, SlotOf(S(e), e.side, e.i), e.t, e.r[2]) THEN "gives something else than what was stored" ELSE "")
  ELSE IF e.op = "gload" THEN
    (IF e.r[1] # e.t THEN "gives another type"
     ELSE IF ~MayFind(live, e.b, e.i + 1, e.t, e.r[2]) THEN "gives something else than what was stored" ELSE "")
  ELSE IF e.op = "type" THEN
    (IF live[e.b].slots[e.i + 1].v # <<e.r>> THEN "reports another type" ELSE "")
  ELSE IF C.pages > 0 /\ e.pages > C.pages + Max(peak, UsedAfter(e)) \div 65536 + 1 THEN "leaves less room than before"
  ELSE ""

(* the recorded script itself keeps to the discipline                      *)
Proper(e) ==
  CASE e.op \in {"free", "tfree"} -> live # <<>> /\ Top(live).s = e.s /\ (Top(live).kind = "values") = (e.op = "free")
    [] e.op \in {"alloc", "talloc", "churn"} -> TRUE
    [] e.op = "type" -> live[e.b].kind = "types"
    [] OTHER -> live[e.b].kind = "values"
ASSUME \A x \in DOMAIN Cases : Cases[x].log # <<>>

Init == cc \in DOMAIN Cases /\ n = 1 /\ live = <<>> /\ used = 0 /\ peak = 0 /\ bad = "?"
Done(b) == bad' = b /\ PrintT("LIB " \o ToJson([case |-> cc, bad |-> b, at |-> n])) /\ UNCHANGED <<n, live, used, peak>>
Next == /\ bad = "?"
        /\ UNCHANGED cc
        /\ IF n > Len(C.log) THEN Done("")
           ELSE IF ~Proper(C.log[n]) THEN Done("script")
           ELSE LET b == Wrong(C.log[n]) IN
                IF b # "" THEN Done(b)
                ELSE /\ live' = After(C.log[n])
                     /\ used' = UsedAfter(C.log[n])
                     /\ peak' = Max(peak, used')
                     /\ n' = n + 1 /\ UNCHANGED bad
Spec == Init /\ [][Next]_vars
(* a history leads to one state after each call                            *)
View == <<cc, n, bad>>
(* each buffer has a slot for every result and argument                    *)
Shape == live # <<>> => Len(Top(live).slots) = Len(Slots(C.sigs[Top(live).s]))
RoomLeft == used >= 0 /\ (live = <<>> => used = 0)
=============================================================================
