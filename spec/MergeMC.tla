---------------------------- MODULE MergeMC ----------------------------
(* Exhaustive exploration of Merge: all interleavings, all tool behaviours. *)
EXTENDS Merge

CONSTANTS Count, MaxMods

Ids == { ToString(i) : i \in 1..Count }
Paths == { "f" \o ToString(n) : n \in 1..(Count * (MaxMods + 1)) }
Requests(p) == { [names |-> [i \in 1..n |-> "m" \o p \o ToString(i)],
                  inputs |-> [i \in 1..n |-> "bytes" \o p \o ToString(i)],
                  opts |-> o, fault |-> f]
                 : n \in 0..MaxMods, o \in {{"simd"}}, f \in {"none", "any"} }
Outputs(p) == { "whole" \o p, "part" \o p }
Exits == { [status |-> 0, signal |-> 0, hasdiag |-> FALSE, diag |-> ""],
           [status |-> 0, signal |-> 0, hasdiag |-> TRUE,  diag |-> "why"],
           [status |-> 1, signal |-> 0, hasdiag |-> FALSE, diag |-> ""],
           [status |-> 1, signal |-> 0, hasdiag |-> TRUE,  diag |-> "why"],
           [status |-> 0, signal |-> 9, hasdiag |-> FALSE, diag |-> ""] }

Init == /\ phase = [p \in Ids |-> "idle"]
        /\ req = [p \in Ids |-> [names |-> << >>, inputs |-> << >>, opts |-> {}, fault |-> "none"]]
        /\ made = [p \in Ids |-> << >>]
        /\ outp = [p \in Ids |-> NoPath]
        /\ files = [x \in {"bystander"} |-> [owner |-> "other", data |-> "theirs"]]
        /\ given = [p \in Ids |-> NotLaunched]
        /\ exit = [p \in Ids |-> NoExit]
        /\ result = [p \in Ids |-> NoResult]

\* the least unused path: which one is taken does not matter
Fresh == LET F == { x \in Paths : x \notin DOMAIN files } IN IF F = {} THEN {} ELSE { CHOOSE x \in F : TRUE }

Next == \E p \in Ids :
    \/ \E r \in Requests(p) : Call(p, r)
    \/ \E x \in (IF Mutant = "sharedpath" THEN {"f1"} ELSE Fresh) : CreateInput(p, x)
    \/ WriteInput(p)
    \/ \E x \in Fresh : CreateOutput(p, x)
    \/ Launch(p) \/ Refused(p)
    \/ \E b \in Outputs(p) : ToolWrites(p, b)
    \/ \E e \in Exits : ToolExits(p, e)
    \/ Decide(p) \/ RemoveFile(p) \/ Return(p)

Done == \A p \in Ids : phase[p] = "returned"
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
EveryMergeReturns == \A p \in Ids : (phase[p] = "making") ~> (phase[p] = "returned")

\* a merge that is alone in this state space returns its tool's bytes, whatever the others do
OwnBytes == \A p \in Ids : result[p].kind = "ok" => result[p].bytes \in Outputs(p) \cup {""}
=============================================================================
