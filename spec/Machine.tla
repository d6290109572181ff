------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* What a WebAssembly module does when it is run under an analysis.        *)
(*                                                                         *)
(* The state of the machine is a WebAssembly store (memory, globals,       *)
(* frames with operand stacks and labels) plus the position in a recorded  *)
(* history.  Every observable step -- a call from the host, a call to the  *)
(* host, a notification with its operands and location, what the analysis  *)
(* did to the memory while notified, what it answered, the stages of an    *)
(* intercepted call, results, traps, and the memory and globals after each *)
(* call -- must be the next entry of the history; everything else is       *)
(* computed.  A run ends in status                                         *)
(*   ok          the whole history is a behaviour of the specification     *)
(*   mismatch    it is not, and info says which kind of entry is wrong     *)
(*   cut         the run was longer than what is explored                  *)
(*   unmodelled  floating-point arithmetic beyond Alu was reached          *)
(*                                                                         *)
(* With no hooks this is the semantics of the original program.  With      *)
(* hooks it is the semantics of the program as instrumented: which         *)
(* notifications occur, with what, and how the answers are used.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Codes, Alu

Cases == JsonDeserialize(IOEnv.CASES)
MAXLOG == 260
MAXDEPTH == 150

VARIABLES cc, s
vars == <<cc, s>>

(* ----------------------------- the program ----------------------------- *)
TSize(t) == IF t \in {"i32", "f32"} THEN 4 ELSE IF t \in {"i64", "f64"} THEN 8 ELSE 0
NumTypes == {"i32", "i64", "f32", "f64"}
C == Cases[cc]
FnType(c, f) == c.ft[c.fn[f + 1].ty]
Range(q) == { q[i] : i \in DOMAIN q }
NumbersOnly(ty) == Range(ty.p) \subseteq NumTypes /\ Range(ty.r) \subseteq NumTypes
(* functions that are instrumented: the selected ones, unless references   *)
(* occur in their signature                                                *)
TargetsOf(c) == { f \in 0..(Len(c.fn) - 1) : NumbersOnly(FnType(c, f)) /\ (c.all = 1 \/ f \in Range(c.targets)) }
TargetTable == [x \in DOMAIN Cases |-> TargetsOf(Cases[x])]
HookTable == [x \in DOMAIN Cases |-> Range(Cases[x].hooks)]
On(h, f) == h \in HookTable[cc] /\ f \in TargetTable[cc]
Forward == C.fwd = 1

(* index of the end (and else) that closes the construct opened at i       *)
RECURSIVE CloseR(_, _, _, _)
CloseR(body, i, d, stopAtElse) ==
  LET o == body[i].k IN
  CASE o \in {"block", "loop", "if"} -> CloseR(body, i + 1, d + 1, stopAtElse)
    [] o = "end" -> IF d = 0 THEN i ELSE CloseR(body, i + 1, d - 1, stopAtElse)
    [] o = "else" /\ d = 0 /\ stopAtElse -> i
    [] OTHER -> CloseR(body, i + 1, d, stopAtElse)
EndOf(body, i) == CloseR(body, i + 1, 0, FALSE)
ElseOf(body, i) == CloseR(body, i + 1, 0, TRUE)

(* ------------------------------ the history ---------------------------- *)
Log == C.log
Entry == IF s.pos > Len(Log) THEN [k |-> "none"] ELSE Log[s.pos]
EntryAt(p) == IF p > Len(Log) THEN [k |-> "none"] ELSE Log[p]

Mismatch(z, class, want) == [z EXCEPT !.st = "mismatch", !.info = [class |-> class, pos |-> z.pos, want |-> want]]
Unmodelled(z, what) == [z EXCEPT !.st = "unmodelled", !.info = what]
Cut(z) == [z EXCEPT !.st = "cut"]
(* the recorder gives up when its log is full or the stack is deep         *)
Unexpected(z, class, want) ==
  IF EntryAt(z.pos).k = "cut" /\ (z.pos > MAXLOG \/ Len(z.fr) > 60) THEN Cut(z) ELSE Mismatch(z, class, want)

NoOut == [k |-> "none"]
TrapOut(z, t) == IF t = "cut" THEN Cut(z) ELSE [z EXCEPT !.fr = <<>>, !.out = [k |-> "trap", t |-> t]]

(* ------------------------------- memory -------------------------------- *)
PAGE == 65536
Byte(mem, a) == IF a \in DOMAIN mem THEN mem[a] ELSE 0
(* the address of an access of n bytes, or TooBig outside the memory       *)
Address(z, ptr, off, n) ==
  LET sum == Add(ptr \o <<0>>, off \o <<0>>)
      a == ToNat(SubSeq(sum, 1, 4))
  IN IF sum[5] # 0 \/ a = TooBig THEN TooBig ELSE IF n > z.pg * PAGE \/ a > z.pg * PAGE - n THEN TooBig ELSE a
Loaded(z, code, a) ==
  LET op == LoadOps[code]
      raw == Force([i \in 1..op[3] |-> Byte(z.mem, a + i - 1)])
      n == TSize(op[2])
  IN IF op[4] = "n" THEN raw ELSE IF op[4] = "s" THEN ExtS(raw, op[3], n) ELSE ExtU(raw, op[3], n)
Write(mem, a, v, n) == [x \in {a + i : i \in 0..(n - 1)} |-> v[x - a + 1]] @@ mem
Grow(z, amount) ==
  LET d == ToNat(amount) IN
  IF d = TooBig \/ d > 65536 \/ z.pg + d > C.mem.limit THEN [z |-> z, r |-> <<255, 255, 255, 255>>]
  ELSE [z |-> [z EXCEPT !.pg = @ + d], r |-> I32(z.pg)]

(* --------------------------- notifications ----------------------------- *)
Class(z, n, args) ==
  LET e == EntryAt(z.pos)  m == Len(args) IN
  IF e.k # "ev" THEN "event"
  ELSE IF e.n # n THEN "event"
  ELSE IF Len(e.a) # m THEN "args"
  ELSE IF \E i \in 1..(m - 2) : e.a[i] # args[i] THEN "args"
  ELSE IF e.a # args THEN "loc"
  ELSE "ok"

(* what the analysis did through the access exports while it was notified; *)
(* result [ok, z, t, why]                                                  *)
ActOk(z) == [ok |-> TRUE, z |-> z, t |-> ""]
ActBad(z) == [ok |-> FALSE, z |-> z, t |-> ""]
Act(z, x) ==
  CASE x.k = "L" ->
         LET a == Address(z, x.a[1], x.a[2], LoadOps[x.c][3]) IN
         IF a = TooBig THEN [ok |-> x.t = "oob", z |-> z, t |-> "oob"]
         ELSE [ok |-> x.t = "" /\ x.r = Loaded(z, x.c, a), z |-> z, t |-> ""]
    [] x.k = "S" ->
         LET n == StoreOps[x.c][3]
             a == Address(z, x.a[1], x.a[3], n) IN
         IF a = TooBig THEN [ok |-> x.t = "oob", z |-> z, t |-> "oob"]
         ELSE [ok |-> x.t = "", z |-> [z EXCEPT !.mem = Write(@, a, x.a[2], n)], t |-> ""]
    [] x.k = "G" -> LET g == Grow(z, x.a[1]) IN [ok |-> x.t = "" /\ x.r = g.r, z |-> g.z, t |-> ""]
    [] OTHER -> [ok |-> x.t = "" /\ x.r = I32(z.pg), z |-> z, t |-> ""]
RECURSIVE Acts(_, _, _)
Acts(z, xs, i) ==
  IF i > Len(xs) THEN ActOk(z)
  ELSE LET r == Act(z, xs[i]) IN IF ~r.ok \/ r.t # "" THEN r ELSE Acts(r.z, xs, i + 1)

(* A notification n with arguments args: the entry must be there, its      *)
(* accesses must be right; Go continues after it with the entry, GoTrap    *)
(* when it ended in a trap of its own.                                     *)
Notify(z, n, args, Go(_, _)) ==
  LET cl == Class(z, n, args) IN
  IF cl # "ok" THEN Unexpected(z, cl, [n |-> n, a |-> args])
  ELSE LET e == EntryAt(z.pos)
           r == Acts(z, e.x, 1)
       IN IF ~r.ok THEN Mismatch(z, "access", [n |-> n, a |-> args])
          ELSE IF r.t # "" THEN (IF e.t = r.t THEN TrapOut([r.z EXCEPT !.pos = @ + 1], r.t) ELSE Mismatch(z, "access", [n |-> n, a |-> args]))
          ELSE IF e.t = "cut" THEN Cut(z)
          ELSE Go([r.z EXCEPT !.pos = @ + 1], e)
(* a notification that cannot trap                                         *)
Plainly(z, n, args, Go(_, _)) ==
  LET Go2(y, e) == IF e.t # "" THEN Mismatch(z, "access", [n |-> n, a |-> args]) ELSE Go(y, e)
  IN Notify(z, n, args, Go2)
(* its answer must be w when the analysis only forwards                    *)
Answered(z, n, args, w, Go(_, _)) ==
  LET Go2(y, e) == IF Forward /\ e.r # w THEN Mismatch(z, "answer", [n |-> n, a |-> args, r |-> w]) ELSE Go(y, e.r)
  IN Plainly(z, n, args, Go2)

(* ------------------------------- frames -------------------------------- *)
Depth(z) == Len(z.fr)
Top(z) == z.fr[Len(z.fr)]
SetTop(z, fr) == [z EXCEPT !.fr[Len(z.fr)] = fr]
Pop(z) == [z EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]
Push(z, fr) == IF Depth(z) >= MAXDEPTH THEN Cut(z) ELSE [z EXCEPT !.fr = Append(@, fr)]

(* values returned to whoever is now on top                                *)
Deliver(z, vals) ==
  IF z.fr = <<>> THEN [z EXCEPT !.out = [k |-> "ret", r |-> vals]]
  ELSE IF Top(z).k = "w" THEN [z EXCEPT !.fr[Len(z.fr)].vs = @ \o vals]
  ELSE [z EXCEPT !.fr[Len(z.fr)].rets = vals, !.fr[Len(z.fr)].ph = "back"]

(* the original function itself                                            *)
EnterBase(z, f, args) ==
  LET fn == C.fn[f + 1]  ty == FnType(C, f) IN
  IF fn.imp # "" THEN
    LET e == EntryAt(z.pos) IN
    IF e.k # "host" THEN Unexpected(z, "host", [n |-> fn.imp, a |-> args])
    ELSE IF e.n # fn.imp \/ e.a # args THEN Mismatch(z, "host", [n |-> fn.imp, a |-> args])
    ELSE Deliver([z EXCEPT !.pos = @ + 1], e.r)
  ELSE Push(z, [k |-> "w", f |-> f, pc |-> 1,
                loc |-> args \o Force([i \in 1..Len(fn.loc) |-> Zero(TSize(fn.loc[i]))]),
                vs |-> <<>>, pend |-> <<>>,
                lb |-> << [k |-> "fn", ar |-> Len(ty.r), h |-> 0, b |-> 0, e |-> Len(fn.body)] >>])
(* a call of function f, intercepted when that is asked for                *)
Enter(z, f, args) ==
  IF On("GenericApply", f)
  THEN Push(z, [k |-> "a", f |-> f, args |-> args, rets |-> Force([i \in 1..Len(FnType(C, f).r) |-> <<>>]), ph |-> "new"])
  ELSE EnterBase(z, f, args)

(* ---------------------- interception of whole calls -------------------- *)
TypeCode(t) == CASE t = "i32" -> 0 [] t = "f32" -> 1 [] t = "i64" -> 2 [] OTHER -> 3
TypeCodes(q) == [i \in 1..Len(q) |-> TypeCode(q[i])]
ApplyStep(z) ==
  LET fr == Top(z)  ty == FnType(C, fr.f)  e == EntryAt(z.pos)
      present == IF C.fn[fr.f + 1].imp = "" THEN 0 ELSE 1
      want == [f |-> fr.f, args |-> fr.args, rets |-> fr.rets, ph |-> fr.ph]
      next == [z EXCEPT !.pos = @ + 1]
  IN
  CASE fr.ph = "new" ->
         IF e.k # "ap" THEN Unexpected(z, "apply", want)
         ELSE IF e.f # fr.f THEN Mismatch(z, "apply", want)
         ELSE IF e.argc # Len(ty.p) \/ e.resc # Len(ty.r) \/ e.present # present
                 \/ e.t # TypeCodes(ty.r \o ty.p) \/ e.v # fr.args THEN Mismatch(z, "apply", want)
         ELSE SetTop(next, [fr EXCEPT !.ph = "asked"])
    [] fr.ph = "back" ->
         IF e.k # "cbr" THEN Unexpected(z, "apply", want)
         ELSE IF e.v # fr.rets \o fr.args THEN Mismatch(z, "apply", want)
         ELSE SetTop(next, [fr EXCEPT !.ph = "asked"])
    [] OTHER ->
         CASE e.k = "aset" -> SetTop(next, [fr EXCEPT !.args[e.i + 1] = e.v])
           [] e.k = "rset" -> SetTop(next, [fr EXCEPT !.rets[e.i + 1] = e.v])
           [] e.k = "cb" -> EnterBase(next, fr.f, fr.args)
           [] e.k = "apd" -> Deliver(Pop(next), fr.rets)
           [] OTHER -> Unexpected(z, "apply", want)

(* ----------------------------- instructions ---------------------------- *)
Take(q, n) == SubSeq(q, Len(q) - n + 1, Len(q))
Less(q, n) == SubSeq(q, 1, Len(q) - n)
Nth(q, n) == q[Len(q) - n]  \* 0 is the top

Outside(at, n, size) == at = TooBig \/ n = TooBig \/ n > size \/ at > size - n
Over(q, at, new) == SubSeq(q, 1, at) \o new \o SubSeq(q, at + Len(new) + 1, Len(q))
Step1(z, vs) == [z EXCEPT !.fr[Len(z.fr)].pc = @ + 1, !.fr[Len(z.fr)].vs = vs]
Loc(f, i) == << I64(f), I64(i) >>
IsTrue(v) == ~IsZero(v)

Leave(z) == LET fr == Top(z) IN Deliver(Pop(z), Take(fr.vs, fr.lb[1].ar))
(* the loop body starts (again)                                            *)
LoopStart(z, f, b) ==
  LET ty == C.fn[f + 1].body[b + 1] IN
  IF On("LoopPre", f)
  THEN [z EXCEPT !.fr[Len(z.fr)].pend = <<[n |-> "trap_loop_pre", a |-> <<I32(Len(ty.p)), I32(Len(ty.r))>> \o Loc(f, b)]>>]
  ELSE z
Branch(z, l) ==
  LET fr == Top(z)
      d == Len(fr.lb) - l
      lab == fr.lb[d]
      vs == SubSeq(fr.vs, 1, lab.h) \o Take(fr.vs, lab.ar)
  IN IF lab.k = "fn" THEN Leave(z)
     ELSE IF lab.k = "loop"
     THEN LoopStart(SetTop(z, [fr EXCEPT !.vs = vs, !.lb = SubSeq(fr.lb, 1, d), !.pc = lab.b + 2]), fr.f, lab.b)
     ELSE SetTop(z, [fr EXCEPT !.vs = vs, !.lb = SubSeq(fr.lb, 1, d - 1), !.pc = lab.e + 1])
Open(z, kind, ins, e, pc) ==
  LET fr == Top(z) IN
  SetTop(z, [fr EXCEPT !.pc = pc,
    !.lb = Append(@, [k |-> kind, ar |-> IF kind = "loop" THEN Len(ins.p) ELSE Len(ins.r),
                      h |-> Len(fr.vs) - Len(ins.p), b |-> fr.pc - 1, e |-> e])])

PostEvent(kind, b, f) ==
  CASE kind = "block" -> IF On("BlockPost", f) THEN "trap_block_post" ELSE ""
    [] kind = "loop" -> IF On("LoopPost", f) THEN "trap_loop_post" ELSE ""
    [] kind = "if" -> IF On("IfThenPost", f) THEN "trap_if_then_post" ELSE ""
    [] kind = "ifelse" -> IF On("IfThenElsePost", f) THEN "trap_if_then_else_post" ELSE ""
    [] OTHER -> ""

Name(prefix, t) == prefix \o t

Instruction(z) ==
  LET fr == Top(z)
      f == fr.f
      ins == C.fn[f + 1].body[fr.pc]
      vs == fr.vs
      i == fr.pc - 1
      at == Loc(f, i)
      v0 == Nth(vs, 0)
      v1 == Nth(vs, 1)
      Pushing(y, v) == Step1(y, Append(vs, v))
      Replacing1(y, v) == Step1(y, Append(Less(vs, 1), v))
  IN
  CASE ins.k = "nop" -> Step1(z, vs)
    [] ins.k = "unreachable" -> TrapOut(z, "unreachable")
    [] ins.k = "const" ->
         IF On("Const", f) THEN Answered(z, Name("trap_const_", ins.t), <<ins.v>> \o at, ins.v, Pushing)
         ELSE Pushing(z, ins.v)
    [] ins.k = "drop" ->
         LET Go(y, e) == Step1(y, Less(vs, 1)) IN
         IF On("Drop", f) THEN Plainly(z, "drop_trap", at, Go) ELSE Go(z, <<>>)
    [] ins.k = "select" ->
         LET Go(y, c) == Step1(y, Append(Less(vs, 3), IF IsTrue(c) THEN Nth(vs, 2) ELSE v1)) IN
         IF On("Select", f) THEN Answered(z, "specialized_select", <<v0>> \o at, v0, Go) ELSE Go(z, v0)
    [] ins.k = "local.get" ->
         LET v == fr.loc[ins.i + 1] IN
         IF On("Local", f) /\ ins.t \in NumTypes THEN Answered(z, Name("trap_local_get_", ins.t), <<v, I64(ins.i)>> \o at, v, Pushing)
         ELSE Pushing(z, v)
    [] ins.k = "local.set" ->
         LET Go(y, v) == Step1(SetTop(y, [fr EXCEPT !.loc[ins.i + 1] = v]), Less(vs, 1)) IN
         IF On("Local", f) /\ ins.t \in NumTypes THEN Answered(z, Name("trap_local_set_", ins.t), <<v0, I64(ins.i)>> \o at, v0, Go)
         ELSE Go(z, v0)
    [] ins.k = "local.tee" ->
         LET Go(y, v) == Step1(SetTop(y, [fr EXCEPT !.loc[ins.i + 1] = v]), Append(Less(vs, 1), v)) IN
         IF On("Local", f) /\ ins.t \in NumTypes THEN Answered(z, Name("trap_local_tee_", ins.t), <<v0, I64(ins.i)>> \o at, v0, Go)
         ELSE Go(z, v0)
    [] ins.k = "global.get" ->
         LET v == z.gl[ins.i + 1] IN
         IF On("Global", f) /\ ins.t \in NumTypes THEN Answered(z, Name("trap_global_get_", ins.t), <<v, I64(ins.i)>> \o at, v, Pushing)
         ELSE Pushing(z, v)
    [] ins.k = "global.set" ->
         LET Go(y, v) == Step1([y EXCEPT !.gl[ins.i + 1] = v], Less(vs, 1)) IN
         IF On("Global", f) /\ ins.t \in NumTypes THEN Answered(z, Name("trap_global_set_", ins.t), <<v0, I64(ins.i)>> \o at, v0, Go)
         ELSE Go(z, v0)
    [] ins.k = "un" ->
         LET code == UCode[ins.o]
             w == Unary(ins.o, v0)
             args == <<v0, I32(code)>> \o at
             Go(y, e) ==
               IF w.s = "u" THEN (IF e.t # "" THEN TrapOut(y, e.t) ELSE Replacing1(y, e.r))
               ELSE IF w.s = "t" THEN (IF e.t = w.t THEN TrapOut(y, e.t) ELSE Mismatch(z, "answer", [n |-> UnaryTrap(code), a |-> args, t |-> w.t]))
               ELSE IF e.t # "" \/ (Forward /\ e.r # w.v) THEN Mismatch(z, "answer", [n |-> UnaryTrap(code), a |-> args, r |-> w.v])
               ELSE Replacing1(y, e.r)
         IN IF On("Unary", f) THEN Notify(z, UnaryTrap(code), args, Go)
            ELSE IF w.s = "u" THEN Unmodelled(z, ins.o)
            ELSE IF w.s = "t" THEN TrapOut(z, w.t) ELSE Replacing1(z, w.v)
    [] ins.k = "bin" ->
         LET code == BCode[ins.o]
             w == Binary(ins.o, v1, v0)
             args == <<v1, v0, I32(code)>> \o at
             Put(y, v) == Step1(y, Append(Less(vs, 2), v))
             Go(y, e) ==
               IF w.s = "u" THEN (IF e.t # "" THEN TrapOut(y, e.t) ELSE Put(y, e.r))
               ELSE IF w.s = "t" THEN (IF e.t = w.t THEN TrapOut(y, e.t) ELSE Mismatch(z, "answer", [n |-> BinaryTrap(code), a |-> args, t |-> w.t]))
               ELSE IF e.t # "" \/ (Forward /\ e.r # w.v) THEN Mismatch(z, "answer", [n |-> BinaryTrap(code), a |-> args, r |-> w.v])
               ELSE Put(y, e.r)
         IN IF On("Binary", f) THEN Notify(z, BinaryTrap(code), args, Go)
            ELSE IF w.s = "u" THEN Unmodelled(z, ins.o)
            ELSE IF w.s = "t" THEN TrapOut(z, w.t) ELSE Put(z, w.v)
    [] ins.k = "load" ->
         LET code == LCode[ins.o]
             a == Address(z, v0, ins.off, LoadOps[code][3])
             args == <<v0, ins.off \o <<0, 0, 0, 0>>, I32(code)>> \o at
             Go(y, e) == IF Forward /\ (Len(e.x) # 1 \/ e.r # Loaded(z, code, a)) THEN Mismatch(z, "answer", [n |-> LoadTrap(code), a |-> args])
                         ELSE Replacing1(y, e.r)
         IN IF On("Load", f) THEN Plainly(z, LoadTrap(code), args, Go)
            ELSE IF a = TooBig THEN TrapOut(z, "oob") ELSE Replacing1(z, Loaded(z, code, a))
    [] ins.k = "store" ->
         LET code == SCode[ins.o]
             n == StoreOps[code][3]
             a == Address(z, v1, ins.off, n)
             args == <<v1, v0, ins.off \o <<0, 0, 0, 0>>, I32(code)>> \o at
             Go(y, e) == IF Forward /\ (a = TooBig \/ y.mem # Write(z.mem, a, v0, n)) THEN Mismatch(z, "answer", [n |-> StoreTrap(code), a |-> args])
                         ELSE Step1(y, Less(vs, 2))
         IN IF On("Store", f) THEN Plainly(z, StoreTrap(code), args, Go)
            ELSE IF a = TooBig THEN TrapOut(z, "oob") ELSE Step1([z EXCEPT !.mem = Write(@, a, v0, n)], Less(vs, 2))
    [] ins.k = "memory.fill" ->
         LET n == ToNat(v0)
             a == ToNat(Nth(vs, 2))
             b == v1[1]
         IN IF n = TooBig \/ a = TooBig THEN TrapOut(z, "oob")
            ELSE IF n > z.pg * PAGE \/ a > z.pg * PAGE - n THEN TrapOut(z, "oob")
            ELSE Step1([z EXCEPT !.mem = [x \in {a + j : j \in 0..(n - 1)} |-> b] @@ @], Less(vs, 3))
    [] ins.k = "memory.copy" ->
         LET n == ToNat(v0)
             from == ToNat(v1)
             to == ToNat(Nth(vs, 2))
         IN IF n = TooBig \/ from = TooBig \/ to = TooBig THEN TrapOut(z, "oob")
            ELSE IF n > z.pg * PAGE \/ from > z.pg * PAGE - n \/ to > z.pg * PAGE - n THEN TrapOut(z, "oob")
            ELSE Step1([z EXCEPT !.mem = [x \in {to + j : j \in 0..(n - 1)} |-> Byte(z.mem, from + (x - to))] @@ @], Less(vs, 3))
    [] ins.k = "ref.null" -> Step1(z, Append(vs, <<>>))
    [] ins.k = "ref.func" -> Step1(z, Append(vs, <<9, ins.f>>))
    [] ins.k = "ref.is_null" -> Step1(z, Append(Less(vs, 1), Bool(v0 = <<>>)))
    [] ins.k = "table.size" -> Step1(z, Append(vs, I32(Len(z.tb[ins.i + 1]))))
    [] ins.k = "table.get" ->
         LET t == z.tb[ins.i + 1]  x == ToNat(v0) IN
         IF x = TooBig \/ x >= Len(t) THEN TrapOut(z, "table") ELSE Step1(z, Append(Less(vs, 1), t[x + 1]))
    [] ins.k = "table.set" ->
         LET t == z.tb[ins.i + 1]  x == ToNat(v1) IN
         IF x = TooBig \/ x >= Len(t) THEN TrapOut(z, "table") ELSE Step1([z EXCEPT !.tb[ins.i + 1][x + 1] = v0], Less(vs, 2))
    [] ins.k = "table.grow" ->
         LET t == z.tb[ins.i + 1]  n == ToNat(v0) IN
         IF n = TooBig \/ n > C.tabmax[ins.i + 1] - Len(t) THEN Step1(z, Append(Less(vs, 2), <<255, 255, 255, 255>>))
         ELSE Step1([z EXCEPT !.tb[ins.i + 1] = @ \o Force([q \in 1..n |-> v1])], Append(Less(vs, 2), I32(Len(t))))
    [] ins.k = "table.fill" ->
         LET t == z.tb[ins.i + 1]  n == ToNat(v0)  at0 == ToNat(Nth(vs, 2)) IN
         IF Outside(at0, n, Len(t)) THEN TrapOut(z, "table")
         ELSE Step1([z EXCEPT !.tb[ins.i + 1] = Over(@, at0, Force([q \in 1..n |-> v1]))], Less(vs, 3))
    [] ins.k = "table.copy" ->
         LET from == z.tb[ins.j + 1]  n == ToNat(v0)  src == ToNat(v1)  dst == ToNat(Nth(vs, 2)) IN
         IF Outside(src, n, Len(from)) \/ Outside(dst, n, Len(z.tb[ins.i + 1])) THEN TrapOut(z, "table")
         ELSE Step1([z EXCEPT !.tb[ins.i + 1] = Over(@, dst, SubSeq(from, src + 1, src + n))], Less(vs, 3))
    [] ins.k = "table.init" ->
         LET from == z.es[ins.e + 1]  n == ToNat(v0)  src == ToNat(v1)  dst == ToNat(Nth(vs, 2)) IN
         IF Outside(src, n, Len(from)) \/ Outside(dst, n, Len(z.tb[ins.i + 1])) THEN TrapOut(z, "table")
         ELSE Step1([z EXCEPT !.tb[ins.i + 1] = Over(@, dst, SubSeq(from, src + 1, src + n))], Less(vs, 3))
    [] ins.k = "elem.drop" -> Step1([z EXCEPT !.es[ins.e + 1] = <<>>], vs)
    [] ins.k = "memory.init" ->
         LET from == z.ds[ins.d + 1]  n == ToNat(v0)  src == ToNat(v1)  dst == ToNat(Nth(vs, 2)) IN
         IF Outside(src, n, Len(from)) \/ Outside(dst, n, z.pg * PAGE) THEN TrapOut(z, "oob")
         ELSE Step1([z EXCEPT !.mem = Write(@, dst, SubSeq(from, src + 1, src + n), n)], Less(vs, 3))
    [] ins.k = "data.drop" -> Step1([z EXCEPT !.ds[ins.d + 1] = <<>>], vs)
    [] ins.k = "memory.size" ->
         IF On("MemorySize", f) THEN Answered(z, "trap_memory_size", <<I32(z.pg), I64(0)>> \o at, I32(z.pg), Pushing)
         ELSE Pushing(z, I32(z.pg))
    [] ins.k = "memory.grow" ->
         LET g == Grow(z, v0) IN
         IF On("MemoryGrow", f) THEN Answered(z, "trap_memory_grow", <<v0, I64(0)>> \o at, g.r, Replacing1)
         ELSE Replacing1(g.z, g.r)
    [] ins.k \in {"block", "loop"} ->
         LET e == EndOf(C.fn[f + 1].body, fr.pc)
             y == Open(z, ins.k, ins, e, fr.pc + 1)
         IN IF ins.k = "loop" THEN LoopStart(y, f, i)
            ELSE IF On("BlockPre", f)
            THEN [y EXCEPT !.fr[Len(z.fr)].pend = <<[n |-> "trap_block_pre", a |-> <<I32(Len(ins.p)), I32(Len(ins.r))>> \o at]>>]
            ELSE y
    [] ins.k = "if" ->
         LET body == C.fn[f + 1].body
             e == EndOf(body, fr.pc)
             el == ElseOf(body, fr.pc)
             two == el # e
             kind == IF two THEN "ifelse" ELSE "if"
             Go(y, c) ==
               LET u == SetTop(y, [fr EXCEPT !.vs = Less(vs, 1)]) IN
               IF IsTrue(c) THEN Open(u, kind, ins, e, fr.pc + 1)
               ELSE IF two THEN Open(u, kind, ins, e, el + 1)
               ELSE LET w == SetTop(u, [Top(u) EXCEPT !.pc = e + 1]) IN
                    IF On("IfThenPost", f) THEN SetTop(w, [Top(w) EXCEPT !.pend = <<[n |-> "trap_if_then_post", a |-> at]>>]) ELSE w
             args == <<v0, I32(Len(ins.p)), I32(Len(ins.r))>> \o at
         IN IF On(IF two THEN "IfThenElse" ELSE "IfThen", f)
            THEN Answered(z, IF two THEN "specialized_if_then_else_k" ELSE "specialized_if_then_k", args, v0, Go)
            ELSE Go(z, v0)
    [] ins.k \in {"end", "else"} ->
         LET lab == fr.lb[Len(fr.lb)]
             Go(y, e) == SetTop(y, [fr EXCEPT !.lb = Less(@, 1), !.pc = lab.e + 1])
             n == PostEvent(lab.k, lab.b, f)
         IN IF lab.k = "fn" THEN Leave(z)
            ELSE IF n # "" THEN Plainly(z, n, Loc(f, lab.b), Go) ELSE Go(z, <<>>)
    [] ins.k = "br" ->
         LET Go(y, e) == Branch(y, ins.l) IN
         IF On("Branch", f) THEN Plainly(z, "specialized_br", <<I64(ins.l)>> \o at, Go) ELSE Go(z, <<>>)
    [] ins.k = "br_if" ->
         LET Go(y, c) == IF IsTrue(c) THEN Branch(SetTop(y, [fr EXCEPT !.vs = Less(vs, 1)]), ins.l) ELSE Step1(y, Less(vs, 1)) IN
         IF On("BranchIf", f) THEN Answered(z, "specialized_br_if", <<v0, I32(ins.l)>> \o at, v0, Go) ELSE Go(z, v0)
    [] ins.k = "br_table" ->
         LET Label(v) == LET x == ToNat(v) IN IF x = TooBig \/ x >= Len(ins.ls) THEN ins.d ELSE ins.ls[x + 1]
             Go(y, v) == Branch(SetTop(y, [fr EXCEPT !.vs = Less(vs, 1)]), Label(v)) IN
         IF On("BranchTable", f)
         THEN Answered(z, "specialized_br_table", <<v0, I32(Label(v0)), I32(ins.d)>> \o at, v0, Go) ELSE Go(z, v0)
    [] ins.k = "return" ->
         LET Go(y, e) == Leave(y) IN
         IF On("Return", f) THEN Plainly(z, "return_trap", at, Go) ELSE Go(z, <<>>)
    [] ins.k = "call" ->
         LET n == Len(FnType(C, ins.f).p)
             Go(y, e) ==
               LET post == IF On("CallPost", f) THEN <<[n |-> "specialized_call_post", a |-> <<I32(ins.f)>> \o at]>> ELSE <<>>
               IN Enter(SetTop(y, [fr EXCEPT !.pc = @ + 1, !.vs = Less(vs, n), !.pend = post]), ins.f, Take(vs, n))
         IN IF On("CallPre", f) THEN Plainly(z, "specialized_call_pre", <<I32(ins.f)>> \o at, Go) ELSE Go(z, <<>>)
    [] ins.k = "call_indirect" ->
         LET ty == C.ft[ins.ty]
             rest == Less(vs, 1)
             n == Len(ty.p)
             Go(y, v) ==
               LET x == ToNat(v)
                   t == y.tb[ins.tb + 1]
                   post == IF On("CallIndirectPost", f) THEN <<[n |-> "specialized_call_indirect_post", a |-> <<I32(ins.tb)>> \o at]>> ELSE <<>>
               IN IF x = TooBig \/ x >= Len(t) THEN TrapOut(y, "table")
                  ELSE IF t[x + 1] = <<>> THEN TrapOut(y, "null")
                  ELSE LET g == t[x + 1][2] IN
                       IF FnType(C, g) # ty THEN TrapOut(y, "sig")
                       ELSE Enter(SetTop(y, [fr EXCEPT !.pc = @ + 1, !.vs = Less(rest, n), !.pend = post]), g, Take(rest, n))
         IN IF On("CallIndirectPre", f)
            THEN Answered(z, "specialized_call_indirect_pre", <<v0, I32(ins.tb)>> \o at, v0, Go) ELSE Go(z, v0)
    [] OTHER -> Unmodelled(z, ins.k)

Pending(z) ==
  LET p == Top(z).pend[1]
      Go(y, e) == [y EXCEPT !.fr[Len(y.fr)].pend = <<>>]
  IN Plainly(z, p.n, p.a, Go)

(* ------------------------------- the host ------------------------------ *)
NonZero(mem) == { <<a, mem[a]>> : a \in { x \in DOMAIN mem : mem[x] # 0 } }
Host(z) ==
  LET e == EntryAt(z.pos)
      next == [z EXCEPT !.pos = @ + 1]
  IN
  CASE z.out.k = "none" ->
         IF e.k = "none" THEN [z EXCEPT !.st = "ok"]
         ELSE IF e.k # "call" THEN Mismatch(z, "event", [n |-> "nothing"])
         ELSE Enter([next EXCEPT !.calls = @ + 1], e.f, e.a)
    [] z.out.k = "ret" ->
         IF e.k # "ret" THEN Unexpected(z, "result", z.out)
         ELSE IF e.r # z.out.r THEN Mismatch(z, "result", z.out)
         ELSE [next EXCEPT !.out = [k |-> "state"]]
    [] z.out.k = "trap" ->
         IF e.k # "trap" THEN Unexpected(z, "result", z.out)
         ELSE IF e.t # z.out.t THEN Mismatch(z, "result", z.out)
         ELSE [next EXCEPT !.out = [k |-> "state"]]
    [] OTHER ->
         (* a module that traps when it starts leaves nothing to look at   *)
         IF e.k = "none" /\ C.start >= 0 /\ z.calls = 1 THEN [z EXCEPT !.st = "ok"]
         ELSE IF e.k # "state" THEN Mismatch(z, "state", <<>>)
         ELSE IF e.g # z.gl THEN Mismatch(z, "globals", z.gl)
         ELSE IF e.pages # z.pg THEN Mismatch(z, "memory", z.pg)
         ELSE IF Range(e.m) # NonZero(z.mem) THEN Mismatch(z, "memory", NonZero(z.mem))
         ELSE IF e.tb # z.tb THEN Mismatch(z, "tables", z.tb)
         (* calls that are over take up no room                            *)
         ELSE IF e.buf # 0 THEN Mismatch(z, "buffers", 0)
         ELSE [next EXCEPT !.out = NoOut]

Initial(c) ==
  [pos |-> 1, fr |-> <<>>, out |-> NoOut, st |-> "run", info |-> <<>>, n |-> 0, calls |-> 0, es |-> c.elems, ds |-> c.datas,
   mem |-> [a \in { c.mem.data[i][1] : i \in DOMAIN c.mem.data } |->
              (CHOOSE p \in Range(c.mem.data) : p[1] = a)[2]],
   pg |-> c.mem.pages, gl |-> c.gl, tb |-> c.tabs]

StepOf(z) ==
  IF z.n >= C.steps \/ (C.cutok = 1 /\ EntryAt(z.pos).k = "cut") THEN Cut(z)
  ELSE LET y == IF z.fr = <<>> THEN Host(z)
                ELSE IF Top(z).k = "a" THEN ApplyStep(z)
                ELSE IF Top(z).pend # <<>> THEN Pending(z)
                ELSE Instruction(z)
       IN [y EXCEPT !.n = @ + 1]

Init == cc \in DOMAIN Cases /\ s = Initial(Cases[cc])
Next == /\ s.st = "run"
        /\ s' = StepOf(s)
        /\ cc' = cc
        /\ s'.st # "run" => PrintT("RES " \o ToJson([case |-> cc, st |-> s'.st, info |-> s'.info, n |-> s'.n, pos |-> s'.pos, len |-> Len(Log)]))
Spec == Init /\ [][Next]_vars

(* --------------------------- properties of the machine ----------------- *)
(* Labels nest, and never reach below the operands they were opened with.  *)
WellFormed ==
  \A i \in DOMAIN s.fr : s.fr[i].k = "w" =>
    /\ s.fr[i].lb # <<>>
    /\ \A j \in 1..(Len(s.fr[i].lb) - 1) : s.fr[i].lb[j].h <= s.fr[i].lb[j + 1].h /\ s.fr[i].lb[j + 1].e < s.fr[i].lb[j].e
    /\ s.fr[i].lb[Len(s.fr[i].lb)].h <= Len(s.fr[i].vs)
(* Every byte of the store is a byte.                                      *)
Bytes == /\ \A a \in DOMAIN s.mem : s.mem[a] \in 0..255
         /\ \A i \in DOMAIN s.gl : \A j \in DOMAIN s.gl[i] : s.gl[i][j] \in 0..255
(* Memory only grows, within its limit; the position only advances.        *)
Limits == s.pg <= C.mem.limit /\ \A i \in DOMAIN s.tb : Len(s.tb[i]) \in Len(C.tabs[i])..C.tabmax[i]
Advances == [][s'.pos >= s.pos /\ s'.pg >= s.pg]_vars
=============================================================================
