---------------------------- MODULE NestingTrace ----------------------------
(***************************************************************************)
(* Conversions recorded from the real code: the flat body, whether it was  *)
(* accepted, a walk over the nested form, and that form written out again. *)
(***************************************************************************)
EXTENDS Nesting, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cc, p, z, bad
vars == <<cc, p, z, bad>>
C == Cases[cc]
(* only the stack matters here, not what the constructs contain            *)
Forget(y) == [y EXCEPT !.fr = [i \in DOMAIN @ |-> [@[i] EXCEPT !.items = <<>>, !.then = <<>>]]]

Same(c, i) ==
  LET w == c.got.walk[i]  e == c.seq[i] IN
  /\ w.k = e.k
  /\ e.k \in {"else", "end"} \/
     /\ w.s = e.s
     /\ c.typed = 1 => w.i = i - 1 /\ w.f = c.f
     /\ (c.typed = 1 /\ e.k = "plain") => w.t = e.t
Judge(c, ok) ==
  LET g == c.got  n == Len(c.seq) IN
  IF g.st = "panic" THEN "crashes"
  ELSE IF ~ok THEN (IF g.st = "ok" THEN "accepts delimiters that do not match" ELSE "")
  ELSE IF g.st = "refused" THEN (IF c.welltyped = 1 THEN "refuses a valid body" ELSE "")
  ELSE IF Len(g.walk) # n - 1 \/ \E i \in 1..(n - 1) : ~Same(c, i) THEN "is read into something else"
  ELSE IF Len(g.back) # n \/ \E i \in 1..n : g.back[i] # c.seq[i].s THEN "is written out differently"
  ELSE ""

Init == cc \in DOMAIN Cases /\ p = 1 /\ z = Start /\ bad = "?"
Next == /\ bad = "?"
        /\ UNCHANGED cc
        /\ IF p <= Len(C.seq) /\ z.st # "refused"
           THEN z' = Forget(Read(z, p, C.seq[p].k)) /\ p' = p + 1 /\ UNCHANGED bad
           ELSE /\ bad' = Judge(C, Accepted(z))
                /\ PrintT("NEST " \o ToJson([case |-> cc, ok |-> Accepted(z), bad |-> bad']))
                /\ UNCHANGED <<p, z>>
Spec == Init /\ [][Next]_vars
=============================================================================
