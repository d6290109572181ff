---------------------------- MODULE WaspText ----------------------------
(***************************************************************************)
(* The WASP language as text: what is an aspect program, what does each    *)
(* definition in it state, and what must a compiler report about it.       *)
(* A text is a sequence of one-character strings (a character outside      *)
(* ASCII is one string such as "u1f534").  Everything here is a constant   *)
(* operator; the state machines in Wasp.tla and WaspGen.tla use them.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Ch(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Set(s) == { SubSeq(s, i, i) : i \in 1..Len(s) }

Blank  == {" ", "\n", "\r", "\t"}
Upper  == Set("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
Lower  == Set("abcdefghijklmnopqrstuvwxyz")
Letter == Upper \cup Lower
Alnum  == Letter \cup Set("0123456789")

Open   == Ch(">>>GUEST>>>")
Close  == Ch("<<<GUEST<<<")
CmOpen == Ch("#|")
CmEnd  == Ch("|#")

(* k occurs in t at position i *)
At(t, i, k) == /\ i + Len(k) - 1 <= Len(t)
               /\ \A j \in 1..Len(k) : t[i + j - 1] = k[j]

(* the first position >= i at which k occurs in t, 0 if there is none *)
RECURSIVE Find(_, _, _)
Find(t, i, k) == IF i + Len(k) - 1 > Len(t) THEN 0
                 ELSE IF t[i] = k[1] /\ At(t, i, k) THEN i ELSE Find(t, i + 1, k)

(* end (exclusive) of the longest run of characters from C starting at i *)
RECURSIVE RunEnd(_, _, _)
RunEnd(t, i, C) == IF i <= Len(t) THEN (IF t[i] \in C THEN RunEnd(t, i + 1, C) ELSE i) ELSE i

(* blanks and closed comments separate tokens; an unclosed comment is no comment *)
RECURSIVE Skip(_, _)
Skip(t, i) ==
    IF i > Len(t) THEN i
    ELSE IF t[i] \in Blank THEN Skip(t, i + 1)
    ELSE IF At(t, i, CmOpen)
         THEN LET e == Find(t, i + 2, CmEnd) IN IF e = 0 THEN i ELSE Skip(t, e + 2)
         ELSE i

-----------------------------------------------------------------------------
(* A definition form is a chain of expected items. *)
L(w)   == [k |-> "lit", w |-> Ch(w)]
Id     == [k |-> "id"]
Ty     == [k |-> "ty"]
Guest  == [k |-> "guest"]
Params == [k |-> "params"]
Formal(w) == << L("("), Id, L(w), L(")") >>

Forms == <<
  [kind |-> "global",             items |-> << L("global"), Guest >>],
  [kind |-> "apply_gen",          items |-> << L("advice"), L("apply") >> \o Formal("WasmFunction")
                                            \o << L("("), Id, Ty, L(")"), L("("), Id, Ty, L(")"), Guest >>],
  [kind |-> "apply_intro",        items |-> << L("advice"), L("apply") >> \o Formal("WasmFunction")
                                            \o << L("("), Params, L(")"), L("("), Params, L(")"), Guest >>],
  [kind |-> "apply_inter",        items |-> << L("advice"), L("apply") >> \o Formal("WasmFunction")
                                            \o << L("("), L("Mut"), Params, L(")"), L("("), L("Mut"), Params, L(")"), Guest >>],
  [kind |-> "call_pre",           items |-> << L("advice"), L("call"), L("pre") >>  \o Formal("FunctionIndex") \o << Guest >>],
  [kind |-> "call_post",          items |-> << L("advice"), L("call"), L("post") >> \o Formal("FunctionIndex") \o << Guest >>],
  [kind |-> "block_pre",          items |-> << L("advice"), L("block"), L("pre"), Guest >>],
  [kind |-> "block_post",         items |-> << L("advice"), L("block"), L("post"), Guest >>],
  [kind |-> "loop_pre",           items |-> << L("advice"), L("loop"), L("pre"), Guest >>],
  [kind |-> "loop_post",          items |-> << L("advice"), L("loop"), L("post"), Guest >>],
  [kind |-> "select",             items |-> << L("advice"), L("select") >> \o Formal("Condition") \o << Guest >>],
  [kind |-> "call_indirect_pre",  items |-> << L("advice"), L("call_indirect"), L("pre") >>
                                            \o Formal("FunctionTable") \o Formal("FunctionTableIndex") \o << Guest >>],
  [kind |-> "call_indirect_post", items |-> << L("advice"), L("call_indirect"), L("post") >> \o Formal("FunctionTable") \o << Guest >>],
  [kind |-> "if_then",            items |-> << L("advice"), L("if_then") >> \o Formal("Condition") \o << Guest >>],
  [kind |-> "if_then_else",       items |-> << L("advice"), L("if_then_else") >> \o Formal("Condition") \o << Guest >>],
  [kind |-> "br_if",              items |-> << L("advice"), L("br_if") >> \o Formal("Condition") \o Formal("Label") \o << Guest >>],
  [kind |-> "br_table",           items |-> << L("advice"), L("br_table") >> \o Formal("Target") \o Formal("Default") \o << Guest >>]
>>
Kinds == { Forms[n].kind : n \in DOMAIN Forms }

Failed == [pos |-> 0, vals |-> << >>]

(* one or more  ( identifier Type )  starting at i *)
RECURSIVE ParamsAt(_, _, _)
ParamsAt(t, i, acc) ==
    LET a  == Skip(t, i)
        b  == IF a <= Len(t) /\ t[a] = "(" THEN Skip(t, a + 1) ELSE 0
        be == IF b = 0 THEN 0 ELSE RunEnd(t, b, Letter)
        c  == IF b = 0 \/ be = b THEN 0 ELSE Skip(t, be)
        ok == c # 0 /\ c <= Len(t) /\ t[c] \in Upper
        ce == IF ok THEN RunEnd(t, c + 1, Alnum) ELSE 0
        d  == IF ok /\ ce > c + 1 THEN Skip(t, ce) ELSE 0
    IN  IF d # 0 /\ d <= Len(t) /\ t[d] = ")"
        THEN ParamsAt(t, d + 1, Append(acc, << SubSeq(t, b, be - 1), SubSeq(t, c, ce - 1) >>))
        ELSE [pos |-> i, vals |-> acc]

RECURSIVE Chain(_, _, _, _, _)
Chain(t, items, n, i, acc) ==
    IF n > Len(items) THEN [pos |-> i, vals |-> acc]
    ELSE LET j == Skip(t, i)  it == items[n] IN
      CASE it.k = "lit" ->
             IF At(t, j, it.w) THEN Chain(t, items, n + 1, j + Len(it.w), acc) ELSE Failed
        [] it.k = "id" ->
             LET e == RunEnd(t, j, Letter)
             IN  IF j > Len(t) \/ e = j THEN Failed
                 ELSE Chain(t, items, n + 1, e, Append(acc, SubSeq(t, j, e - 1)))
        [] it.k = "ty" ->
             IF j > Len(t) THEN Failed
             ELSE IF t[j] \notin Upper THEN Failed
             ELSE LET e == RunEnd(t, j + 1, Alnum)
                  IN  IF e = j + 1 THEN Failed
                      ELSE Chain(t, items, n + 1, e, Append(acc, SubSeq(t, j, e - 1)))
        [] it.k = "guest" ->
             IF ~At(t, j, Open) THEN Failed
             ELSE LET b == j + Len(Open)  e == Find(t, b, Close)
                  IN  IF e = 0 THEN Failed
                      ELSE Chain(t, items, n + 1, e + Len(Close), Append(acc, SubSeq(t, b, e - 1)))
        [] OTHER ->
             LET p == ParamsAt(t, j, << >>)
             IN  IF p.vals = << >> THEN Failed
                 ELSE Chain(t, items, n + 1, p.pos, Append(acc, p.vals))

(* The definition that starts at i: [ok, pos, kind, vals]. *)
DefAt(t, i) ==
    LET P == { n \in DOMAIN Forms : Chain(t, Forms[n].items, 1, i, << >>).pos # 0 }
    IN  IF P = {} THEN [ok |-> FALSE]
        ELSE LET n == CHOOSE n \in P : TRUE
                 r == Chain(t, Forms[n].items, 1, i, << >>)
             IN  [ok |-> TRUE, pos |-> r.pos, kind |-> Forms[n].kind, vals |-> r.vals, unique |-> Cardinality(P) = 1]

(* text positions of the fixed parts: 0 means "not there" *)
LitAt(t, i, w) == LET j == Skip(t, i) k == Ch(w) IN IF At(t, j, k) THEN j + Len(k) ELSE 0
HeadEnd(t) == LET a == LitAt(t, 1, "(") IN IF a = 0 THEN 0 ELSE LitAt(t, a, "aspect")
AtEnd(t, i) == Skip(t, i) = Len(t) + 1

-----------------------------------------------------------------------------
(* What a parsed definition states, and the offence it commits, if any.    *)
Raw(d) == d.vals[Len(d.vals)]

GenericForm(ta, tr) ==
    CASE ta = Ch("Args")       /\ tr = Ch("Results")       -> "HighLevel"
      [] ta = Ch("DynArgs")    /\ tr = Ch("DynResults")    -> "Dynamic"
      [] ta = Ch("MutDynArgs") /\ tr = Ch("MutDynResults") -> "MutableDynamic"
      [] OTHER -> "none"

Types == { Ch("I32"), Ch("F32"), Ch("I64"), Ch("F64") }
None == [class |-> "none", names |-> << >>]

(* first offence within one parameter list *)
ListOffence(ps) ==
    LET Bad(n) == ps[n][2] \notin Types
        Dup(n) == \E m \in 1..(n-1) : ps[m][1] = ps[n][1]
        S == { n \in 1..Len(ps) : Bad(n) \/ Dup(n) }
    IN  IF S = {} THEN None
        ELSE LET n == CHOOSE n \in S : \A m \in S : n <= m
             IN  IF Bad(n) THEN [class |-> "UnsupportedIdentifierType", names |-> << ps[n][2] >>]
                 ELSE [class |-> "DuplicateParameter", names |-> << ps[n][1] >>]

CrossOffence(as, rs) ==
    LET S == { n \in 1..Len(rs) : \E m \in 1..Len(as) : as[m][1] = rs[n][1] }
    IN  IF S = {} THEN None
        ELSE LET n == CHOOSE n \in S : \A m \in S : n <= m
             IN  [class |-> "DuplicateArgsRessParameter", names |-> << rs[n][1] >>]

Offence(d) ==
    IF d.kind = "apply_gen" THEN
        LET f == d.vals[1] a == d.vals[2] ta == d.vals[3] r == d.vals[4] tr == d.vals[5]
        IN  IF GenericForm(ta, tr) = "none" THEN [class |-> "IncorrectArgsRessType", names |-> << ta, tr >>]
            ELSE IF Cardinality({f, a, r}) # 3 THEN [class |-> "NonUniqueParameters", names |-> << f, a, r >>]
            ELSE None
    ELSE IF d.kind \in {"apply_intro", "apply_inter"} THEN
        LET oa == ListOffence(d.vals[2])  orr == ListOffence(d.vals[3])
        IN  IF oa # None THEN oa ELSE IF orr # None THEN orr ELSE CrossOffence(d.vals[2], d.vals[3])
    ELSE None

(* The entry of the compilation result for a definition without offence. *)
Entry(d) ==
    CASE d.kind = "apply_gen" ->
           [kind |-> "apply_gen", form |-> GenericForm(d.vals[3], d.vals[5]),
            names |-> << d.vals[1], d.vals[2], d.vals[4] >>, args |-> << >>, ress |-> << >>, body |-> Raw(d)]
      [] d.kind \in {"apply_intro", "apply_inter"} ->
           [kind |-> "apply_spe", form |-> d.kind, names |-> << d.vals[1] >>,
            args |-> d.vals[2], ress |-> d.vals[3], body |-> Raw(d)]
      [] OTHER ->
           [kind |-> d.kind, form |-> "", names |-> SubSeq(d.vals, 1, Len(d.vals) - 1),
            args |-> << >>, ress |-> << >>, body |-> Raw(d)]

(* What one entry adds to the join points. *)
TypesOf(ps) == [n \in 1..Len(ps) |-> ps[n][2]]
FlagsOf(e) == IF e.kind \in {"global", "apply_spe"} THEN {} ELSE {e.kind}
SpecOf(e)  == IF e.kind = "apply_spe" THEN { << TypesOf(e.args), TypesOf(e.ress) >> } ELSE {}

IfFamily   == {"if_then", "if_then_else", "br_if", "br_table", "select"}
CallFamily == {"call_pre", "call_post", "call_indirect_pre", "call_indirect_post"}
=============================================================================
