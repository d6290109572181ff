----------------------------- MODULE Merge -----------------------------
(***************************************************************************)
(* Merging modules with an external tool: any number of merges run side by *)
(* side, each creating temporary files, launching the tool on them,        *)
(* waiting for it, deciding on the outcome and removing its files.  The    *)
(* tool and the file system may fail at every step.                        *)
(*                                                                         *)
(* Mutant selects a deliberately wrong variant (used to show that the      *)
(* properties below have teeth); "none" is the system as it should be.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Mutant

(* the flag of every option *)
FlagOf == [
    no_validation |-> "--no-validation", rename_export_conflicts |-> "--rename-export-conflicts",
    sign_ext |-> "--enable-sign-ext", threads |-> "--enable-threads", mutable_globals |-> "--enable-mutable-globals",
    nontrapping_float_to_int |-> "--enable-nontrapping-float-to-int", simd |-> "--enable-simd",
    bulk_memory |-> "--enable-bulk-memory", bulk_memory_opt |-> "--enable-bulk-memory-opt",
    call_indirect_overlong |-> "--enable-call-indirect-overlong", exception_handling |-> "--enable-exception-handling",
    tail_call |-> "--enable-tail-call", reference_types |-> "--enable-reference-types",
    multivalue |-> "--enable-multivalue", gc |-> "--enable-gc", memory64 |-> "--enable-memory64",
    relaxed_simd |-> "--enable-relaxed-simd", extended_const |-> "--enable-extended-const",
    strings |-> "--enable-strings", multimemory |-> "--enable-multimemory",
    typed_continuations |-> "--enable-typed-continuations", shared_everything |-> "--enable-shared-everything",
    fp16 |-> "--enable-fp16" ]
Options == DOMAIN FlagOf
Flags(opts) == { FlagOf[o] : o \in opts }

VARIABLES phase, req, made, outp, files, given, exit, result
vars == << phase, req, made, outp, files, given, exit, result >>

NoPath == "no path"
NotLaunched == [names |-> << >>, inputs |-> << >>, flags |-> {"not launched"}]
NoExit == [status |-> 0, signal |-> 0, hasdiag |-> FALSE, diag |-> ""]
NoResult == [kind |-> "none", bytes |-> "", diag |-> ""]
Error(text) == [kind |-> "error", bytes |-> "", diag |-> text]

Procs == DOMAIN phase
N(p) == Len(req[p].names)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* p is called with a request r = [names, inputs, opts, fault] *)
Call(p, r) ==
    /\ phase[p] = "idle"
    /\ phase' = [phase EXCEPT ![p] = "making"]
    /\ req' = [req EXCEPT ![p] = r]
    /\ UNCHANGED << made, outp, files, given, exit, result >>

(* creating the file for the next module, under a path nobody uses *)
CreateInput(p, path) ==
    /\ phase[p] = "making" /\ Len(made[p]) < N(p)
    /\ Mutant = "sharedpath" \/ path \notin DOMAIN files
    /\ made' = [made EXCEPT ![p] = Append(@, path)]
    /\ files' = Put(files, path, [owner |-> p, data |-> ""])
    /\ phase' = [phase EXCEPT ![p] = "writing"]
    /\ UNCHANGED << req, outp, given, exit, result >>

WriteInput(p) ==
    /\ phase[p] = "writing"
    /\ LET n == Len(made[p]) IN
       files' = Put(files, made[p][n], [owner |-> p, data |-> req[p].inputs[n]])
    /\ phase' = [phase EXCEPT ![p] = "making"]
    /\ UNCHANGED << req, made, outp, given, exit, result >>

CreateOutput(p, path) ==
    /\ phase[p] = "making" /\ Len(made[p]) = N(p)
    /\ path \notin DOMAIN files
    /\ outp' = [outp EXCEPT ![p] = path]
    /\ files' = Put(files, path, [owner |-> p, data |-> ""])
    /\ phase' = [phase EXCEPT ![p] = "ready"]
    /\ UNCHANGED << req, made, given, exit, result >>

(* the tool starts: it sees the names, the files as they are now, and the flags *)
Launch(p) ==
    /\ phase[p] = "ready"
    /\ given' = [given EXCEPT ![p] =
          [names |-> req[p].names,
           inputs |-> [n \in 1..N(p) |-> files[made[p][n]].data],
           flags |-> Flags(req[p].opts)]]
    /\ phase' = [phase EXCEPT ![p] = "running"]
    /\ UNCHANGED << req, made, outp, files, exit, result >>

(* a resource is refused: a file cannot be created or written, the tool cannot be started *)
Refused(p) ==
    /\ phase[p] \in {"making", "writing", "ready"}
    /\ req[p].fault # "none"
    /\ result' = [result EXCEPT ![p] = Error("")]
    /\ phase' = [phase EXCEPT ![p] = "removing"]
    /\ UNCHANGED << req, made, outp, files, given, exit >>

ToolWrites(p, bytes) ==
    /\ phase[p] = "running"
    /\ files' = Put(files, outp[p], [owner |-> p, data |-> bytes])
    /\ phase' = [phase EXCEPT ![p] = "wrote"]
    /\ UNCHANGED << req, made, outp, given, exit, result >>

ToolExits(p, e) ==
    /\ phase[p] \in {"running", "wrote"}
    /\ exit' = [exit EXCEPT ![p] = e]
    /\ phase' = [phase EXCEPT ![p] = "exited"]
    /\ UNCHANGED << req, made, outp, files, given, result >>

Succeeded(e) == e.status = 0 /\ e.signal = 0 /\ ~e.hasdiag

Decide(p) ==
    /\ phase[p] = "exited"
    /\ result' = [result EXCEPT ![p] =
          IF exit[p].hasdiag THEN Error(exit[p].diag)
          ELSE IF ~Succeeded(exit[p]) /\ Mutant # "ignorestatus" THEN Error("")
          ELSE [kind |-> "ok", bytes |-> files[outp[p]].data, diag |-> ""]]
    /\ phase' = [phase EXCEPT ![p] = "removing"]
    /\ UNCHANGED << req, made, outp, files, given, exit >>

Own(p) == { x \in DOMAIN files : files[x].owner = p }

RemoveFile(p) ==
    /\ phase[p] = "removing" /\ Own(p) # {}
    /\ files' = Drop(files, CHOOSE x \in Own(p) : TRUE)
    /\ UNCHANGED << phase, req, made, outp, given, exit, result >>

Return(p) ==
    /\ phase[p] = "removing"
    /\ Own(p) = {} \/ (Mutant = "leak" /\ result[p].kind = "error")
    /\ phase' = [phase EXCEPT ![p] = "returned"]
    /\ UNCHANGED << req, made, outp, files, given, exit, result >>

-----------------------------------------------------------------------------
(* Properties *)

\* the tool gets exactly what was asked for
ToolGetsRequest == \A p \in Procs : phase[p] \in {"running", "wrote", "exited"} =>
    given[p] = [names |-> req[p].names, inputs |-> req[p].inputs, flags |-> Flags(req[p].opts)]

\* and its inputs stay as they are while it runs
InputsStable == \A p \in Procs : phase[p] \in {"running", "wrote"} =>
    \A n \in 1..N(p) : /\ made[p][n] \in DOMAIN files
                       /\ files[made[p][n]].data = req[p].inputs[n]

\* success only after the tool's success, with the tool's bytes
SuccessIsSuccess == \A p \in Procs : result[p].kind = "ok" =>
    /\ given[p] # NotLaunched /\ Succeeded(exit[p])
ErrorCarriesDiagnostic == \A p \in Procs :
    (result[p].kind = "error" /\ exit[p].hasdiag) => result[p].diag = exit[p].diag
FailureIsError == \A p \in Procs :
    (phase[p] \in {"removing", "returned"} /\ (given[p] = NotLaunched \/ ~Succeeded(exit[p]))) => result[p].kind = "error"

\* nothing is left, nothing foreign is touched
NothingLeft == \A p \in Procs : phase[p] = "returned" => Own(p) = {}
Exclusive == \A p, q \in Procs : p # q =>
    ({ made[p][n] : n \in DOMAIN made[p] } \cap { x \in DOMAIN files : files[x].owner = q }) = {}
      \/ phase[p] \in {"removing", "returned"} \/ phase[q] \in {"removing", "returned"}
Bystander == "bystander" \in DOMAIN files /\ files["bystander"].data = "theirs"
=============================================================================
