------------------------------- MODULE Agree -------------------------------
(***************************************************************************)
(* Two runs of one program, the second with fewer hooks and fewer          *)
(* functions: what it reports is what the first reports for those hooks    *)
(* and functions, and everything else is the same.  The runs are walked in *)
(* step.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Hooks

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cc, i, j, st,
          names  \* the notifications of the second run's hooks
vars == <<cc, i, j, st, names>>

C == Cases[cc]
Elems(q) == { q[x] : x \in DOMAIN q }
(* the function index is the first of the last two arguments               *)
FunctionOf(e) == LET b == e.a[Len(e.a) - 1] IN b[1] + 256 * b[2]
Kept(e) ==
  IF e.k \in {"ap", "aset", "rset", "cb", "cbr", "apd"} THEN "GenericApply" \in Elems(C.hooks)
  ELSE IF e.k # "ev" THEN TRUE
  ELSE /\ e.n \in names
       /\ C.all = 1 \/ FunctionOf(e) \in Elems(C.targets)
Done == i > Len(C.full) /\ j > Len(C.part)
Result(s) == PrintT("AGREE " \o ToJson([case |-> cc, st |-> s, i |-> i, j |-> j]))
End(s) == st' = s /\ Result(s) /\ UNCHANGED <<cc, i, j>>

Init == cc \in DOMAIN Cases /\ i = 1 /\ j = 1 /\ st = "run"
        /\ names = { t.n : t \in TrapsOf(Elems(Cases[cc].hooks)) }
Next ==
  /\ st = "run"
  /\ UNCHANGED names
  /\ IF Done THEN End("ok")
     ELSE IF i <= Len(C.full) /\ C.full[i].k = "cut" THEN End(IF C.hangs = 1 THEN "differ" ELSE "cut")
     ELSE IF j <= Len(C.part) /\ C.part[j].k = "cut" THEN End("cut")
     ELSE IF i > Len(C.full) THEN (IF C.fullcut = 1 THEN End("cut") ELSE End("differ"))
     ELSE IF ~Kept(C.full[i]) THEN i' = i + 1 /\ UNCHANGED <<cc, j, st>>
     ELSE IF j > Len(C.part) THEN (IF C.partcut = 1 THEN End("cut") ELSE End("differ"))
     ELSE IF C.full[i] = C.part[j] THEN i' = i + 1 /\ j' = j + 1 /\ UNCHANGED <<cc, st>>
     ELSE End("differ")
Spec == Init /\ [][Next]_vars
=============================================================================
