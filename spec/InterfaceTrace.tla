--------------------------- MODULE InterfaceTrace ---------------------------
(***************************************************************************)
(* Interfaces and guest code of the real generators, against Interface.    *)
(***************************************************************************)
EXTENDS Interface, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cc, bad
vars == <<cc, bad>>
HookSet(c) == { AdviceHook(k) : k \in Range(c.advice) \ {"global"} }
Sorted(i) == Range(i.entries)
Hooked(c) ==
  IF ~c.kept THEN "the source of the analysis is not passed on"
  ELSE IF InterfaceFault(c.wasm, Range(c.hooks)) # "" THEN "webassembly: " \o InterfaceFault(c.wasm, Range(c.hooks))
  ELSE IF InterfaceFault(c.rust, Range(c.hooks)) # "" THEN "rust: " \o InterfaceFault(c.rust, Range(c.hooks))
  ELSE IF Sorted(c.wasm) # Sorted(c.rust) THEN "the languages place an entry differently"
  ELSE IF Range(c.known) # HookNames \/ Len(c.known) # Cardinality(HookNames) THEN "not every hook is offered"
  ELSE ""
Aspect(c) ==
  IF c.status # "ok" THEN c.status \o " a well-formed program"
  ELSE IF InterfaceFault(c.as, HookSet(c)) # "" THEN "assemblyscript: " \o InterfaceFault(c.as, HookSet(c))
  ELSE IF Sorted(c.as) # Sorted(c.wasm) THEN "the languages place an entry differently"
  ELSE IF c.errors # <<>> THEN "guest code is no program: " \o c.errors[1]
  ELSE IF GuestFault(c.advice, c.items) # "" THEN "guest code: " \o GuestFault(c.advice, c.items)
  ELSE IF c.frames = <<>> \/ Len(c.frames) # Len(c.bodies) + 1 THEN "guest code: not every guest text is there once"
  ELSE IF Weave(c.frames, c.bodies) # c.text THEN "guest code: guest text is not carried through unmodified"
  ELSE ""
Init == cc \in DOMAIN Cases /\ bad = "?"
Next == /\ bad = "?"
        /\ bad' = IF Cases[cc].kind = "hooks" THEN Hooked(Cases[cc]) ELSE Aspect(Cases[cc])
        /\ cc' = cc
        /\ PrintT("IFC " \o ToJson([case |-> cc, bad |-> bad']))
Spec == Init /\ [][Next]_vars
=============================================================================
