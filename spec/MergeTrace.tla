--------------------------- MODULE MergeTrace ---------------------------
(***************************************************************************)
(* Recorded merges against Merge: every case is the event log of one run   *)
(* of the real code (call / tool start / tool exit / return, in the order  *)
(* they happened) plus the temporary directory before and after.  Steps    *)
(* between two events (creating, writing, removing files, deciding) are    *)
(* silent and are taken only for the merge the next event belongs to.      *)
(* Where a recorded value departs from the specified one the run goes on   *)
(* and the departure is noted in bad.                                      *)
(***************************************************************************)
EXTENDS Merge, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES c, l, bad
tvars == << c, l, bad, phase, req, made, outp, files, given, exit, result >>

Log == Cases[c].events
SetOf(s) == { s[n] : n \in DOMAIN s }
Ids == SetOf(Cases[c].ids)
EmptyBytes == "cbf29ce484222325-0"

Init == /\ c \in 1..Len(Cases)
        /\ l = 1 /\ bad = {}
        /\ phase = [p \in Ids |-> "idle"]
        /\ req = [p \in Ids |-> [names |-> << >>, inputs |-> << >>, opts |-> {}, fault |-> "none"]]
        /\ made = [p \in Ids |-> << >>]
        /\ outp = [p \in Ids |-> NoPath]
        /\ files = [x \in { b[1] : b \in SetOf(Cases[c].before) } |->
                       [owner |-> "other", data |-> (CHOOSE b \in SetOf(Cases[c].before) : b[1] = x)[2]]]
        /\ given = [p \in Ids |-> NotLaunched]
        /\ exit = [p \in Ids |-> NoExit]
        /\ result = [p \in Ids |-> NoResult]

Note(cond, tag) == IF cond THEN {} ELSE {tag}
More == l <= Len(Log)
E == Log[l]
Is(ev) == More /\ E.ev = ev /\ (ev = "end" \/ E.p \in Ids)
Advance == l' = l + 1 /\ UNCHANGED c
Silent == UNCHANGED << c, l, bad >>

TCall == /\ Is("call")
         /\ Call(E.p, [names |-> E.names, inputs |-> E.inputs, opts |-> SetOf(E.opts), fault |-> E.fault])
         /\ Advance /\ UNCHANGED bad

\* before the tool event of p: its files come into being, under the recorded paths
Making == /\ Is("tool")
          /\ LET p == E.p n == Len(made[p]) + 1 IN
             \/ /\ n <= Len(E.paths) /\ CreateInput(p, E.paths[n]) /\ Silent
             \/ WriteInput(p) /\ Silent
             \/ /\ Len(E.outs) = 1 /\ CreateOutput(p, E.outs[1]) /\ Silent

TTool == /\ Is("tool")
         /\ Launch(E.p)
         /\ bad' = bad \cup Note(given'[E.p].names = E.names /\ E.even, "names")
                       \cup Note(given'[E.p].inputs = E.inputs, "inputs")
                       \cup Note(given'[E.p].flags = SetOf(E.flags) /\ Len(E.flags) = Cardinality(SetOf(E.flags)), "flags")
         /\ Advance

Writing == /\ Is("exit") /\ E.wrote # "nothing" /\ phase[E.p] = "running"
           /\ ToolWrites(E.p, E.wrote) /\ Silent

TExit == /\ Is("exit") /\ (E.wrote = "nothing" \/ phase[E.p] = "wrote")
         /\ ToolExits(E.p, [status |-> E.status, signal |-> E.signal, hasdiag |-> E.hasdiag, diag |-> E.diag])
         /\ bad' = bad \cup Note(E.stable, "unstable")
         /\ Advance

Deciding == /\ Is("return")
            /\ \/ Refused(E.p) \/ Decide(E.p) \/ RemoveFile(E.p)
            /\ Silent

BytesOf(r) == IF r.bytes = "" THEN EmptyBytes ELSE r.bytes
TReturn == /\ Is("return")
           /\ Return(E.p)
           /\ LET r == result[E.p] IN
              bad' = bad \cup Note(E.kind = r.kind, "kind")
                         \cup Note(r.kind # "ok" \/ E.kind # "ok" \/ E.bytes = BytesOf(r), "bytes")
                         \cup Note(r.kind # "error" \/ ~exit[E.p].hasdiag \/ E.kind # "error" \/ E.carries, "diagnostic")
                         \cup Note(E.left = 0, "left")
           /\ Advance

\* the temporary directory once everything has returned
TEnd == /\ Is("end")
        /\ bad' = bad \cup Note(SetOf(E.listing) = { << x, files[x].data >> : x \in DOMAIN files }, "listing")
        /\ Advance /\ UNCHANGED vars

Next == TCall \/ Making \/ TTool \/ Writing \/ TExit \/ Deciding \/ TReturn \/ TEnd
Spec == Init /\ [][Next]_tvars

-----------------------------------------------------------------------------
Explained == More => ENABLED Next
P06_Request == bad \cap {"names", "inputs", "flags"} = {}
P07_Outcome == bad \cap {"kind", "bytes", "diagnostic"} = {}
P08_Isolation == bad \cap {"left", "listing", "inputs", "names", "unstable", "bytes", "kind"} = {}
=============================================================================
