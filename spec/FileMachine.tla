---------------------------- MODULE FileMachine ----------------------------
(***************************************************************************)
(* .abc.yaml files as a store.  State: F, what every file contains: no     *)
(* file, an instance x, or something that has to be refused.  An instance  *)
(* is [m, V, k, desc, comp]: candidates, voters [a, w], committee size     *)
(* (0: none), description, compute instances [rule, params, result].       *)
(* Operations: write an instance, read a file, read and write back to      *)
(* another file, recompute a stored compute instance, and tampering with a *)
(* file by other means.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Text

Files == 1..2
NoFile == [st |-> "none"]
FSet(q) == {q[j] : j \in 1..Len(q)}
Norm(x) == [x EXCEPT !.V = [j \in 1..Len(x.V) |-> [a |-> FSet(x.V[j].a), w |-> x.V[j].w]],
                     !.comp = [j \in 1..Len(x.comp) |-> [rule |-> x.comp[j].rule, params |-> x.comp[j].params, kind |-> x.comp[j].kind,
                                                          result |-> [t \in 1..Len(x.comp[j].result) |-> FSet(x.comp[j].result[t])], how |-> x.comp[j].how]]]
Approved(x) == UNION {x.V[j].a : j \in 1..Len(x.V)}
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a

Malformed == {"unknownkey", "typo", "noprofile", "shortweights", "longweights", "norule"}     \* MalformattedFileException
Invalid   == {"smallnumcand", "dupcand", "negcand", "zeroweight", "negweight", "dupresult", "notyaml", "textcand"}   \* some exception
Harmless  == {"reorder", "noweights", "nonumcand", "nosize", "explicitweights"}
TamperEnabled(x, kind) ==
    CASE kind = "nonumcand" -> Approved(x) # {}
      [] kind \in {"smallnumcand", "dupcand"} -> Approved(x) # {}
      [] kind \in {"shortweights", "zeroweight", "negweight", "negcand", "textcand"} -> Len(x.V) > 0
      [] kind = "typo" -> x.k > 0
      [] kind \in {"norule", "dupresult"} -> Len(x.comp) > 0
      [] OTHER -> TRUE
Given(comp) == [j \in 1..Len(comp) |-> [comp[j] EXCEPT !.how = "given"]]     \* the stored results belong to another instance now
Tampered(x, kind) ==
    CASE kind = "noweights" -> [x EXCEPT !.V = [j \in 1..Len(x.V) |-> [x.V[j] EXCEPT !.w = "1/1"]], !.comp = Given(@)]
      [] kind = "nonumcand" -> [x EXCEPT !.m = 1 + MaxOf(Approved(x)), !.comp = Given(@)]
      [] kind = "nosize" -> [x EXCEPT !.k = 0, !.comp = Given(@)]
      [] OTHER -> x

FEnabled(F, op) ==
    CASE op.op = "tamper" -> F[op.f].st = "ok" /\ TamperEnabled(F[op.f].x, op.kind)
      [] op.op = "recompute" -> F[op.f].st = "ok" /\ op.i \in 1..Len(F[op.f].x.comp)
      [] OTHER -> TRUE
(* the exceptions an operation has to raise: {} none, {"any"} whichever *)
FErrors(F, op) ==
    LET unreadable(f) == IF F[f].st = "none" THEN {"FileNotFoundError"} ELSE IF F[f].st = "bad" THEN F[f].err ELSE {} IN
    CASE op.op = "write" -> IF op.fault = "" THEN {} ELSE {"ValueError"}
      [] op.op \in {"read", "rewrite"} -> unreadable(op.f)
      [] OTHER -> {}
FAfter(F, op) ==
    IF FErrors(F, op) # {} THEN F
    ELSE CASE op.op = "write" -> [F EXCEPT ![op.f] = [st |-> "ok", x |-> Norm(op.x)]]
           [] op.op = "rewrite" -> [F EXCEPT ![op.g] = F[op.f]]
           [] op.op = "tamper" -> [F EXCEPT ![op.f] = IF op.kind \in Malformed THEN [st |-> "bad", err |-> {"MalformattedFileException"}]
                                                      ELSE IF op.kind \in Invalid THEN [st |-> "bad", err |-> {"any"}]
                                                      ELSE [st |-> "ok", x |-> Tampered(F[op.f].x, op.kind)]]
           [] OTHER -> F
(* a stored result that was computed for this instance is found again *)
Recomputes(x, i) == x.comp[i].how = "computed"

Differences(x, y) ==
       (IF x.m # y.m THEN {"number of candidates differs"} ELSE {})
  \cup (IF Len(x.V) # Len(y.V) \/ \E j \in 1..Len(x.V) : j <= Len(y.V) /\ x.V[j].a # y.V[j].a THEN {"ballots differ"} ELSE {})
  \cup (IF \E j \in 1..Len(x.V) : j <= Len(y.V) /\ x.V[j].w # y.V[j].w THEN {"weights differ"} ELSE {})
  \cup (IF x.k # y.k THEN {"committee size differs"} ELSE {})
  \cup (IF x.desc # y.desc THEN {"description differs"} ELSE {})
  \cup (IF Len(x.comp) # Len(y.comp) THEN {"number of compute instances differs"}
        ELSE UNION {(IF x.comp[j].rule # y.comp[j].rule THEN {"rule of a compute instance differs"} ELSE {})
                    \cup (IF x.comp[j].params # y.comp[j].params THEN {"parameters of a compute instance differ"} ELSE {})
                    \cup (IF x.comp[j].kind # y.comp[j].kind \/ x.comp[j].result # y.comp[j].result THEN {"result of a compute instance differs"} ELSE {})
                    : j \in 1..Len(x.comp)})

(* c: recorded step; cls, digests before/after, and for reads the instance that was read *)
FileStepFails(F, c) ==
    LET op == c.do
        errs == FErrors(F, op)
        G == FAfter(F, op)
        stays == {f \in Files : G[f] = F[f] /\ ~ (op.op = "write" /\ op.f = f /\ errs = {}) /\ ~ (op.op = "rewrite" /\ op.g = f /\ errs = {}) /\ ~ (op.op = "tamper" /\ op.f = f)}
    IN  IF ~ FEnabled(F, op) THEN {}
        ELSE (IF errs = {} /\ c.cls # "" /\ op.op # "recompute" THEN {op.op \o ": raised " \o c.cls}
              ELSE IF errs # {} /\ c.cls = "" THEN {op.op \o ": accepted what has to be refused"}
              ELSE IF errs # {} /\ errs # {"any"} /\ c.cls \notin errs THEN {op.op \o ": refused with " \o c.cls} ELSE {})
             \cup (IF \E f \in stays : c.before[f] # c.after[f] THEN {op.op \o ": changed a file"} ELSE {})
             \cup (IF c.argsbefore # c.argsafter THEN {op.op \o ": changed its arguments"} ELSE {})
             \cup (IF op.op = "read" /\ errs = {} /\ c.cls = ""
                   THEN {"read: " \o t : t \in Differences(F[op.f].x, Norm(c.x))}
                        \cup (IF ~ c.linked THEN {"read: a compute instance does not refer to the profile and committee size of the file"} ELSE {})
                   ELSE {})
             \cup (IF op.op = "recompute" /\ Recomputes(F[op.f].x, op.i)
                   THEN (IF c.cls # "" THEN {"recompute: raised " \o c.cls}
                         ELSE IF {FSet(c.out[t]) : t \in 1..Len(c.out)} # FSet(F[op.f].x.comp[op.i].result) THEN {"recompute: other committees than stored"} ELSE {})
                   ELSE {})
=============================================================================
