------------------------------ MODULE Nesting ------------------------------
(***************************************************************************)
(* Reading a flat function body into nested form.  The reader keeps a      *)
(* stack of open constructs, each with what it contains so far; the last   *)
(* instruction must be the end that closes the function, and nothing may   *)
(* follow it.  A sequence whose delimiters are missing, misplaced or       *)
(* surplus is refused.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Openers == {"block", "loop", "if"}
Delimiters == Openers \cup {"else", "end"}

Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
(* kind of construct, where it was opened, what it contains; for an if     *)
(* that has seen its else: what the first branch contains                  *)
Frame(k, at) == [k |-> k, at |-> at, items |-> <<>>, then |-> <<>>]
Start == [st |-> "reading", fr |-> <<Frame("fn", 0)>>]
Node(k, at, body, els) == [k |-> k, at |-> at, body |-> body, els |-> els]

Refuse(z) == [z EXCEPT !.st = "refused", !.fr = <<>>]
Put(z, node) == [z EXCEPT !.fr[Len(z.fr)].items = Append(@, node)]
(* the construct a closed frame makes                                      *)
Closed(f) == IF f.k = "else" THEN Node("if", f.at, f.then, <<f.items>>) ELSE Node(f.k, f.at, f.items, <<>>)

(* reads an instruction of kind k at position p                            *)
Read(z, p, k) ==
  IF z.st # "reading" THEN Refuse(z)
  ELSE LET f == Last(z.fr) IN
  CASE k \in Openers -> [z EXCEPT !.fr = Append(@, Frame(k, p))]
    [] k = "else" -> IF f.k # "if" THEN Refuse(z)
                     ELSE [z EXCEPT !.fr[Len(z.fr)] = [f EXCEPT !.k = "else", !.then = f.items, !.items = <<>>]]
    [] k = "end" -> IF f.k = "fn" THEN [z EXCEPT !.st = "complete"]
                    ELSE Put([z EXCEPT !.fr = Front(@)], Closed(f))
    [] OTHER -> Put(z, Node("plain", p, <<>>, <<>>))
Accepted(z) == z.st = "complete"
Body(z) == z.fr[1].items

(* ------------------- what it means, said independently ----------------- *)
(* the sequences of complete instructions                                  *)
RECURSIVE Items(_)
Items(q) ==
  \/ q = <<>>
  \/ q[1] \notin Delimiters /\ Items(Tail(q))
  \/ /\ q[1] \in Openers
     /\ \E j \in 2..Len(q) : q[j] = "end" /\ Items(SubSeq(q, 2, j - 1)) /\ Items(SubSeq(q, j + 1, Len(q)))
  \/ /\ q[1] = "if"
     /\ \E j \in 3..Len(q) : \E i \in 2..(j - 1) :
          /\ q[i] = "else" /\ q[j] = "end"
          /\ Items(SubSeq(q, 2, i - 1)) /\ Items(SubSeq(q, i + 1, j - 1)) /\ Items(SubSeq(q, j + 1, Len(q)))
WellFormed(q) == q # <<>> /\ Last(q) = "end" /\ Items(Front(q))

(* nested form written out again                                           *)
RECURSIVE Flat(_)
Flat(items) ==
  IF items = <<>> THEN <<>>
  ELSE LET n == items[1] IN
    (IF n.k = "plain" THEN <<"plain">>
     ELSE <<n.k>> \o Flat(n.body) \o (IF n.els = <<>> THEN <<>> ELSE <<"else">> \o Flat(n.els[1])) \o <<"end">>)
    \o Flat(Tail(items))
(* a walk over nested form: kinds and positions                            *)
RECURSIVE Walk(_)
Walk(items) ==
  IF items = <<>> THEN <<>>
  ELSE LET n == items[1] IN
    <<[k |-> n.k, at |-> n.at]>>
    \o (IF n.k = "plain" THEN <<>>
        ELSE Walk(n.body) \o (IF n.els = <<>> THEN <<>> ELSE <<[k |-> "else", at |-> 0]>> \o Walk(n.els[1])) \o <<[k |-> "end", at |-> 0]>>)
    \o Walk(Tail(items))
(* ... which is the sequence itself, its last end excepted                 *)
Token(k, p) == [k |-> k, at |-> IF k \in {"else", "end"} THEN 0 ELSE p]
Tokens(q) == [i \in 1..(Len(q) - 1) |-> Token(q[i], i)]
=============================================================================
