------------------------------ MODULE Wasp ------------------------------
(***************************************************************************)
(* The WASP compiler as a state machine over a text: it reads one          *)
(* definition at a time, then checks the definitions in order, adding one  *)
(* entry to the result and its join points to the collection, and stops at *)
(* the first offence.  Cases come from the real compiler (one record per   *)
(* text: the text and what the real compile() answered); every case is one *)
(* behaviour, and the invariants compare the end of the behaviour with the *)
(* recorded answer.                                                        *)
(***************************************************************************)
EXTENDS WaspText, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES c, phase, pos, defs, result, flags, specs, err
vars == << c, phase, pos, defs, result, flags, specs, err >>

T == Cases[c].text
Real == Cases[c].real

Init == /\ c \in 1..Len(Cases)
        /\ phase = "start" /\ pos = 1
        /\ defs = << >> /\ result = << >>
        /\ flags = {} /\ specs = {} /\ err = None

Reject == /\ phase' = "end"
          /\ err' = [class |-> "Syntax", names |-> << >>]
          /\ UNCHANGED << c, pos, defs, result, flags, specs >>

ReadHead == /\ phase = "start"
            /\ IF HeadEnd(T) = 0 THEN Reject
               ELSE /\ phase' = "read" /\ pos' = HeadEnd(T)
                    /\ UNCHANGED << c, defs, result, flags, specs, err >>

(* ( definition ) *)
ReadDefinition ==
    /\ phase = "read"
    /\ LitAt(T, pos, "(") # 0
    /\ LET d == DefAt(T, LitAt(T, pos, "("))
           e == IF d.ok THEN LitAt(T, d.pos, ")") ELSE 0
       IN  IF e = 0 THEN Reject
           ELSE /\ pos' = e
                /\ Assert(d.unique, "two forms match one text")
                /\ defs' = Append(defs, [kind |-> d.kind, vals |-> d.vals])
                /\ UNCHANGED << c, phase, result, flags, specs, err >>

ReadEnd ==
    /\ phase = "read"
    /\ LitAt(T, pos, "(") = 0
    /\ LET e == LitAt(T, pos, ")")
       IN  IF e = 0 THEN Reject
           ELSE IF ~AtEnd(T, e) THEN Reject
           ELSE /\ phase' = "check" /\ pos' = 1
                /\ UNCHANGED << c, defs, result, flags, specs, err >>

CheckDefinition ==
    /\ phase = "check" /\ pos <= Len(defs)
    /\ LET d == defs[pos] IN
       IF Offence(d) # None
       THEN /\ phase' = "end" /\ err' = Offence(d)
            /\ UNCHANGED << c, pos, defs, result, flags, specs >>
       ELSE /\ result' = Append(result, Entry(d))
            /\ flags' = flags \cup FlagsOf(Entry(d))
            /\ specs' = specs \cup SpecOf(Entry(d))
            /\ pos' = pos + 1
            /\ UNCHANGED << c, phase, defs, err >>

Finish == /\ phase = "check" /\ pos > Len(defs)
          /\ phase' = "end"
          /\ UNCHANGED << c, pos, defs, result, flags, specs, err >>

Next == ReadHead \/ ReadDefinition \/ ReadEnd \/ CheckDefinition \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
AtTheEnd == phase = "end"
Accepted == AtTheEnd /\ err = None
SetOf(s) == { s[n] : n \in DOMAIN s }

(* properties of the machine itself *)
OneEntryPerDefinition == Accepted => Len(result) = Len(defs)
Totality == phase # "end" => ENABLED Next
JoinPointsFollow ==
    AtTheEnd => /\ flags = UNION { FlagsOf(result[n]) : n \in DOMAIN result }
                /\ specs = UNION { SpecOf(result[n]) : n \in DOMAIN result }

(* conformance of the recorded answer, one invariant per property *)
Strip(e) == [kind |-> e.kind, form |-> e.form, names |-> e.names, args |-> e.args, ress |-> e.ress]
P01_Entries == Accepted =>
    /\ Real.class = "none"
    /\ Len(Real.defs) = Len(result)
    /\ \A n \in DOMAIN result : Strip(Real.defs[n]) = Strip(result[n])
P02_Bodies == Accepted =>
    /\ Real.class = "none"
    /\ Len(Real.defs) = Len(result)
    /\ \A n \in DOMAIN result : Real.defs[n].body = result[n].body
P03_Outcome == AtTheEnd => [class |-> Real.class, names |-> Real.names] = err
P04_JoinPoints == Accepted =>
    /\ Real.class = "none"
    /\ SetOf(Real.flags) = flags
    /\ SetOf(Real.specs) = specs /\ Len(Real.specs) = Cardinality(specs)
    /\ Real.generic = ("apply_gen" \in flags)
    /\ Real.cond = (flags \cap IfFamily # {})
    /\ Real.call = (flags \cap CallFamily # {})
(* layout: the case is a re-layout of a base text; the base answer is attached *)
P05_Layout == AtTheEnd =>
    /\ Real.class = err.class
    /\ (Accepted => Real = Cases[c].base)
    /\ Cases[c].base.class = err.class
=============================================================================
