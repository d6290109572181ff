----------------------------- MODULE StackLibMC -----------------------------
(***************************************************************************)
(* The buffers as the libraries implement them: a bump pointer into a      *)
(* memory of pages that grows on demand, value slots of one width and type *)
(* slots of another.  It behaves as StackLib in every history, and giving  *)
(* back restores the pointer.  Every history up to a length is printed, to *)
(* be replayed in the real libraries.                                      *)
(***************************************************************************)
EXTENDS StackLib, TLC, Json, IOUtils

Limit == LET s == IOEnv.LIMIT IN CHOOSE n \in 0..20 : ToString(n) = s
Sigs == << [r |-> <<>>, a |-> <<>>], [r |-> <<"i32">>, a |-> <<"i64", "f32">>], [r |-> <<"f64", "f32">>, a |-> <<>>] >>
Page == 12      \* bytes of a page, in units of half a type
VW == 4         \* width of a value slot
TW == 2         \* width of a type slot

VARIABLES live, mem, sp, pages, bases, hist
vars == <<live, mem, sp, pages, bases, hist>>

RECURSIVE PagesFor(_, _)
PagesFor(p, top) == IF top > p * Page THEN PagesFor(p + 1, top) ELSE p
Size(b) == IF b.kind = "values" THEN VW * Len(b.slots) ELSE TW * Len(b.slots)
Store(m, at, x) == [y \in (DOMAIN m) \cup {at} |-> IF y = at THEN x ELSE m[y]]
RECURSIVE StoreAll(_, _, _, _)
StoreAll(m, at, w, xs) == IF xs = <<>> THEN m ELSE StoreAll(IF xs[1] = Unset THEN m ELSE Store(m, at, xs[1]), at + w, w, Tail(xs))
Cell(b, i) == bases[b] + (i - 1) * (IF live[b].kind = "values" THEN VW ELSE TW)

(* values are told apart by the step that made them                        *)
Now == Len(hist) + 1
Args(s) == [i \in 1..Len(s.a) |-> <<Now, i>>]

Allocate(b) ==
  /\ live' = Make(live, b)
  /\ bases' = Append(bases, sp)
  /\ sp' = sp + Size(b)
  /\ pages' = PagesFor(pages, sp + Size(b))
  /\ mem' = StoreAll(mem, sp, IF b.kind = "values" THEN VW ELSE TW, b.slots)
Init == live = <<>> /\ mem = [x \in {} |-> 0] /\ sp = 0 /\ pages = 1 /\ bases = <<>> /\ hist = <<>>
Step(h) == hist' = Append(hist, h)
Next ==
  /\ Len(hist) < Limit
  /\ \/ \E k \in DOMAIN Sigs :
          \/ Allocate(Values(k, Sigs[k], Args(Sigs[k]))) /\ Step([o |-> "alloc", s |-> k, b |-> 0, i |-> 0])
          \/ Allocate(Types(k, Sigs[k])) /\ Step([o |-> "talloc", s |-> k, b |-> 0, i |-> 0])
     \/ \E b \in DOMAIN live : live[b].kind = "values" /\ \E i \in DOMAIN live[b].slots :
          LET s == Sigs[live[b].s]  x == [t |-> Slots(s)[i], v |-> <<Now, 9>>] IN
          /\ live' = Put(live, b, i, x)
          /\ mem' = Store(mem, Cell(b, i), x)
          /\ UNCHANGED <<sp, pages, bases>>
          /\ Step([o |-> "store", s |-> live[b].s, b |-> b, i |-> i])
     \/ \E b \in DOMAIN live : live[b].kind = "values" /\ Sigs[live[b].s].r # <<>> /\
          LET s == Sigs[live[b].s]  vs == [i \in 1..Len(s.r) |-> <<Now, 20 + i>>] IN
          /\ live' = PutResults(live, b, s, vs)
          /\ mem' = StoreAll(mem, bases[b], VW, Typed(s.r, vs))
          /\ UNCHANGED <<sp, pages, bases>>
          /\ Step([o |-> "rets", s |-> live[b].s, b |-> b, i |-> 0])
     \/ /\ live # <<>>
        /\ sp' = sp - Size(Top(live))
        /\ live' = Release(live)
        /\ bases' = SubSeq(bases, 1, Len(bases) - 1)
        /\ UNCHANGED <<mem, pages>>
        /\ Step([o |-> IF Top(live).kind = "values" THEN "free" ELSE "tfree", s |-> Top(live).s, b |-> Len(live), i |-> 0])
  /\ (Len(hist') = Limit => PrintT("HIST " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

(* the memory holds what the buffers hold                                  *)
Found == \A b \in DOMAIN live : \A i \in DOMAIN live[b].slots :
           LET x == live[b].slots[i] IN
           IF live[b].kind = "types" THEN mem[Cell(b, i)] = x
           ELSE x # Unset => mem[Cell(b, i)] = x
(* buffers do not overlap, lie within the memory, and fill it exactly up   *)
(* to the pointer                                                          *)
RECURSIVE Total(_)
Total(l) == IF l = <<>> THEN 0 ELSE Size(Top(l)) + Total(Release(l))
Exact == /\ sp = Total(live)
         /\ sp <= pages * Page
         /\ \A b \in DOMAIN live : bases[b] = Total(SubSeq(live, 1, b - 1))
(* what was there before a buffer was made is what is there once it is gone *)
Restores == [][Len(live') < Len(live) => live' = SubSeq(live, 1, Len(live) - 1)]_vars
=============================================================================
