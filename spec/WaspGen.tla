---------------------------- MODULE WaspGen ----------------------------
(***************************************************************************)
(* Aspect programs written by the specification: a state machine that adds *)
(* one definition after another, renders the program as text with a chosen *)
(* separator, and states what the compiler must answer.  The answer is     *)
(* derived from the definitions, not from the text; RoundTrip checks that  *)
(* the reading rules of WaspText recover it from the text.                 *)
(***************************************************************************)
EXTENDS WaspText, Json, IOUtils

CONSTANTS MaxDefs,     \* length of the programs
          Random       \* TRUE: one random definition per step, FALSE: all of the pool

VARIABLES prog, sep
vars == << prog, sep >>

Names  == { Ch("a"), Ch("b"), Ch("Mut") }
NamesX == Names \cup { Ch("args"), Ch("call"), Ch("GUEST"), Ch("I"), Ch("zebra"), Ch("aspect") }
GenTys == { Ch(s) : s \in {"Args", "DynArgs", "MutDynArgs", "Results", "DynResults", "MutDynResults", "I32"} }
SpeTys == { Ch(s) : s \in {"I32", "F32", "I64", "F64", "V128", "Args", "I8"} }
\* a guest text is usable if the first closing delimiter after it is the one that follows it
Usable(b) == Find(b \o Close, 1, Close) = Len(b) + 1
Bodies == { b \in { << >>, Ch("x"), Ch(" x \n"), Ch("#|"), Ch("|#"), Ch("a #| ( |# )"), Ch("<<<GUEST<<"), Ch("<"),
            Ch(">>>GUEST>>>"), Ch("(advice block pre >>>GUEST>>>"), << "u1f534", " ", "\\", "\"", "\r", "\n", "\t" >>,
            Ch("GUEST<<<"), Ch("<<<<"), Ch("<<<GUES"), Ch("<<<GUEST<< x"), Ch("//") \o << "\n" >> } : Usable(b) }
Seps   == { Ch(" "), << >>, << "\n", "\t" >>, << "\r" >>, << "\n" >>, << "\t" >>, Ch("#||#"), Ch(" #| ( |#") \o << "\r", "\n" >>, Ch("#|#|#"), Ch("#|"  \o "|" \o "|#") }

ArityOne == {"call_pre", "call_post", "select", "call_indirect_post", "if_then", "if_then_else"}
ArityTwo == {"call_indirect_pre", "br_if", "br_table"}
NoArity  == {"global", "block_pre", "block_post", "loop_pre", "loop_post"}

Lists(n) == UNION { [1..m -> Names \X SpeTys] : m \in 1..n }

(* a random definition: parts are drawn independently *)
RN == RandomElement(NamesX)
RList == LET n == RandomElement({1, 1, 2, 2, 3, 5}) IN
         [i \in 1..n |-> << RandomElement(NamesX \cup { Ch("v") \o << RandomElement(Lower) >> }),
                            RandomElement(SpeTys \cup { Ch("I32"), Ch("F64") }) >>]
\* a list without offence: distinct names, supported types
RGood(prefix) == LET n == RandomElement(1..4) IN
         [i \in 1..n |-> << prefix \o SubSeq(Ch("abcdefgh"), i, i), RandomElement(Types) >>]
RandomVals(k) ==
    LET b == RandomElement(Bodies) good == RandomElement(1..4) # 1 IN
    CASE k \in NoArity  -> << b >>
      [] k \in ArityOne -> << RN, b >>
      [] k \in ArityTwo -> << RN, RN, b >>
      [] k = "apply_gen" ->
           IF good THEN LET g == RandomElement({<<"Args","Results">>, <<"DynArgs","DynResults">>, <<"MutDynArgs","MutDynResults">>})
                        IN << Ch("f"), Ch("x") \o RN, Ch(g[1]), Ch("y") \o RN, Ch(g[2]), b >>
           ELSE << RN, RN, RandomElement(GenTys), RN, RandomElement(GenTys), b >>
      [] OTHER -> IF good THEN << RN, RGood(Ch("p")), RGood(Ch("q")), b >> ELSE << RN, RList, RList, b >>
RandomDef == LET k == RandomElement(Kinds) IN [kind |-> k, vals |-> RandomVals(k)]

(* the exhaustive pool of single definitions *)
Pool ==
    { [kind |-> k, vals |-> << b >>] : k \in NoArity, b \in Bodies } \cup
    { [kind |-> k, vals |-> << n, Ch("x") >>] : k \in ArityOne, n \in NamesX } \cup
    { [kind |-> k, vals |-> << n, m, Ch("y") >>] : k \in ArityTwo, n \in Names, m \in Names } \cup
    { [kind |-> "apply_gen", vals |-> << f, a, ta, r, tr, Ch("z") >>] :
          f \in Names, a \in Names, ta \in GenTys, r \in Names, tr \in GenTys } \cup
    { [kind |-> k, vals |-> << Ch("a"), as, rs, Ch("w") >>] :
          k \in {"apply_intro", "apply_inter"}, as \in Lists(1), rs \in Lists(1) } \cup
    { [kind |-> k, vals |-> << Ch("f"), as, << << Ch("r"), Ch("F64") >> >>, Ch("w") >>] :
          k \in {"apply_intro", "apply_inter"}, as \in [1..2 -> {Ch("a"), Ch("b")} \X SpeTys] } \cup
    { [kind |-> k, vals |-> << Ch("f"), << << Ch("r"), Ch("I64") >> >>, rs, Ch("w") >>] :
          k \in {"apply_intro", "apply_inter"}, rs \in [1..2 -> {Ch("a"), Ch("b")} \X SpeTys] }

-----------------------------------------------------------------------------
(* rendering *)
IdEnds(tok) == tok # << >> /\ tok[Len(tok)] \in Alnum
IdStart(tok) == tok # << >> /\ tok[1] \in Alnum
Glue(a, b, s) == IF s = << >> /\ IdEnds(a) /\ IdStart(b) THEN Ch(" ") ELSE s

RECURSIVE JoinToks(_, _, _, _)
JoinToks(toks, n, s, acc) ==
    IF n > Len(toks) THEN acc
    ELSE JoinToks(toks, n + 1, s, acc \o (IF n = 1 THEN << >> ELSE Glue(toks[n-1], toks[n], s)) \o toks[n])

RECURSIVE ParamToks(_, _)
ParamToks(ps, n) == IF n > Len(ps) THEN << >>
                    ELSE << Ch("("), ps[n][1], ps[n][2], Ch(")") >> \o ParamToks(ps, n + 1)

RECURSIVE ItemToks(_, _, _, _)
ItemToks(items, vals, n, v) ==
    IF n > Len(items) THEN << >>
    ELSE CASE items[n].k = "lit"    -> << items[n].w >> \o ItemToks(items, vals, n + 1, v)
           [] items[n].k = "params" -> ParamToks(vals[v], 1) \o ItemToks(items, vals, n + 1, v + 1)
           [] items[n].k = "guest"  -> << Open \o vals[v] \o Close >> \o ItemToks(items, vals, n + 1, v + 1)
           [] OTHER                 -> << vals[v] >> \o ItemToks(items, vals, n + 1, v + 1)

FormOf(k) == Forms[CHOOSE n \in DOMAIN Forms : Forms[n].kind = k]
RECURSIVE DefToks(_, _)
DefToks(p, n) == IF n > Len(p) THEN << >>
                 ELSE << Ch("(") >> \o ItemToks(FormOf(p[n].kind).items, p[n].vals, 1, 1) \o << Ch(")") >> \o DefToks(p, n + 1)
Toks(p) == << Ch("("), Ch("aspect") >> \o DefToks(p, 1) \o << Ch(")") >>
Render(p, s) == s \o JoinToks(Toks(p), 1, s, << >>) \o s

(* what must be answered *)
RECURSIVE FirstOffence(_, _)
FirstOffence(p, n) == IF n > Len(p) THEN None
                      ELSE IF Offence(p[n]) # None THEN Offence(p[n]) ELSE FirstOffence(p, n + 1)
Expected(p) ==
    LET o == FirstOffence(p, 1) IN
    IF o # None THEN [class |-> o.class, names |-> o.names, defs |-> << >>, flags |-> {}, specs |-> {},
                      generic |-> FALSE, cond |-> FALSE, call |-> FALSE]
    ELSE LET es == [n \in 1..Len(p) |-> Entry(p[n])]
             fl == UNION { FlagsOf(es[n]) : n \in 1..Len(p) }
         IN  [class |-> "none", names |-> << >>, defs |-> es, flags |-> fl,
              specs |-> UNION { SpecOf(es[n]) : n \in 1..Len(p) },
              generic |-> "apply_gen" \in fl, cond |-> fl \cap IfFamily # {}, call |-> fl \cap CallFamily # {}]

-----------------------------------------------------------------------------
Init == prog = << >> /\ sep \in Seps
Next == /\ Len(prog) < MaxDefs
        /\ IF Random
           THEN /\ prog' = Append(prog, RandomDef) /\ sep' = RandomElement(Seps)
           ELSE /\ \E d \in Pool : prog' = Append(prog, d)
                /\ sep' = sep
Spec == Init /\ [][Next]_vars

(* reading the text back *)
RECURSIVE ReadDefs(_, _, _)
ReadDefs(t, i, acc) ==
    IF LitAt(t, i, "(") = 0
    THEN LET e == LitAt(t, i, ")") IN IF e # 0 /\ AtEnd(t, e) THEN acc ELSE << [kind |-> "syntax", vals |-> << >>] >>
    ELSE LET d == DefAt(t, LitAt(t, i, "("))
             e == IF d.ok THEN LitAt(t, d.pos, ")") ELSE 0
         IN  IF e = 0 THEN << [kind |-> "syntax", vals |-> << >>] >> ELSE ReadDefs(t, e, Append(acc, [kind |-> d.kind, vals |-> d.vals]))
ReadBack(t) == IF HeadEnd(t) = 0 THEN << [kind |-> "syntax", vals |-> << >>] >> ELSE ReadDefs(t, HeadEnd(t), << >>)

RoundTrip == ReadBack(Render(prog, sep)) = prog

(* printed for replay in the real compiler *)
Emit == PrintT("CASE " \o ToJson([text |-> Render(prog, sep), sep |-> sep, expect |-> Expected(prog)]))
=============================================================================
