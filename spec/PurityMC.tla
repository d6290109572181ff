------------------------------ MODULE PurityMC ------------------------------
(***************************************************************************)
(* The search for immutable functions: every function starts undecided and *)
(* is looked at again and again, in any order, with what is known of the   *)
(* others at that time.  Whatever the order, the answer is the same, it is *)
(* Certain, and it is safe.  Every call graph with up to SIZE functions is *)
(* explored and printed.                                                   *)
(***************************************************************************)
EXTENDS Purity, TLC, Json, IOUtils

N == IF IOEnv.SIZE = "2" THEN 2 ELSE IF IOEnv.SIZE = "3" THEN 3 ELSE 4
VARIABLES fns, known
vars == <<fns, known>>
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o AsSeq(S \ {m})
Shapes(n) == {[imp |-> 1, ks |-> <<>>, cs |-> <<>>]} \cup
             { [imp |-> 0, ks |-> k, cs |-> AsSeq(c)] : k \in {<<>>, <<"load">>}, c \in SUBSET (0..(n - 1)) }
(* imported functions come first                                           *)
Ordered(q) == \A i, j \in DOMAIN q : q[i].imp < q[j].imp => j < i
Init == /\ \E n \in 1..N : fns \in { q \in [1..n -> Shapes(n)] : Ordered(q) }
        /\ known = [i \in Ix(fns) |-> IF Fn(fns, i).imp = 1 THEN "impure" ELSE "unknown"]
        /\ PrintT("GRAPH " \o ToJson(fns))
Look(i) ==
  LET f == Fn(fns, i)  cs == Callees(f) \ {i} IN
  IF Touches(f) \/ \E j \in cs : known[j] = "impure" THEN "impure"
  ELSE IF \A j \in cs : known[j] = "pure" THEN "pure" ELSE "unknown"
Next == \E i \in Ix(fns) : /\ known[i] = "unknown"
                           /\ Look(i) # "unknown"
                           /\ known' = [known EXCEPT ![i] = Look(i)]
                           /\ UNCHANGED fns
Spec == Init /\ [][Next]_vars
Pure == { i \in Ix(fns) : known[i] = "pure" }
Quiet == ~ENABLED Next
Sound == Pure \subseteq Safe(fns) /\ { i \in Ix(fns) : known[i] = "impure" } \cap Safe(fns) = {}
Answer == Quiet => Pure = Certain(fns) /\ Fault(fns, Pure) = ""
Between == Certain(fns) \subseteq Safe(fns)
=============================================================================
