----------------------------- MODULE NestingMC -----------------------------
(***************************************************************************)
(* Every sequence of delimiters and plain instructions up to a length:     *)
(* the reader accepts exactly the well formed ones, and what it builds     *)
(* flattens to the sequence it was built from, each construct at the       *)
(* position where it was opened.  Every sequence is printed.               *)
(***************************************************************************)
EXTENDS Nesting, TLC, Json, IOUtils

Limit == LET s == IOEnv.LIMIT IN CHOOSE n \in 0..20 : ToString(n) = s
VARIABLES seq, z
vars == <<seq, z>>
Init == seq = <<>> /\ z = Start
Next == /\ Len(seq) < Limit
        /\ \E k \in Delimiters \cup {"plain"} :
             /\ seq' = Append(seq, k)
             /\ z' = Read(z, Len(seq) + 1, k)
             /\ PrintT("SEQ " \o ToJson([q |-> seq', ok |-> Accepted(z')]))
Spec == Init /\ [][Next]_vars

ExactlyTheWellFormed == Accepted(z) <=> WellFormed(seq)
RoundTrip == Accepted(z) => Flat(Body(z)) \o <<"end">> = seq
Positions == Accepted(z) => Walk(Body(z)) = Tokens(seq)
(* what is refused stays refused                                           *)
Final == [][z.st = "refused" => z'.st = "refused"]_vars
=============================================================================
