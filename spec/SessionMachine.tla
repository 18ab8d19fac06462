--------------------------- MODULE SessionMachine ---------------------------
(***************************************************************************)
(* A session: computations, scores, property checks and analyses on shared *)
(* profiles, interleaved with edits and verbosity changes.                 *)
(* State: the profiles (module ProfileMachine), the verbosity, the global  *)
(* settings.  Pure operations leave all of it unchanged, and what they     *)
(* return is a function of the operation and the profile it is applied to: *)
(* the observed result has to be the one that the same operation returns   *)
(* in a process that has done nothing else, on a profile built afresh.     *)
(***************************************************************************)
EXTENDS ProfileMachine

Pure == {"compute", "score", "property", "analysis", "wrapper", "info"}
Levels == {0, 10, 20, 25, 30, 40, 50, 100}

SessionEnabled(s, op) == IF op.op \in Pure THEN s.P[op.p].ex
                         ELSE IF op.op = "verbosity" THEN TRUE ELSE Enabled(s, op)
SessionAfter(s, op) == IF op.op \in Pure THEN s
                       ELSE IF op.op = "verbosity" THEN [s EXCEPT !.verb = op.verb]
                       ELSE LET t == After([P |-> s.P, V |-> s.V], op) IN [s EXCEPT !.P = t.P]

(* call: the recorded operation with the state observed before (b) and after (o) *)
SessionStepFails(b, c, o) ==
    LET op == c.do
        exp == SessionAfter(b, op)
        merged(j) == op.op = "merge" /\ op.p = j
    IN  IF ~ SessionEnabled(b, op) THEN {}
        ELSE UNION {SlotFails(exp.P[j], o.P[j], op, j, merged(j)) : j \in {1, 2}}
             \cup (IF exp.verb # o.verb THEN {op.op \o ": verbosity is " \o ToString(o.verb) \o " instead of " \o ToString(exp.verb)} ELSE {})
             \cup (IF b.settings # o.settings THEN {op.op \o ": global settings changed"} ELSE {})
             \cup (IF op.op \in Pure
                   THEN (IF c.argsbefore # c.argsafter THEN {op.op \o ": an argument was changed"} ELSE {})
                        \cup (IF c.det /\ c.result # c.fresh THEN {op.op \o ": result depends on what happened before"} ELSE {})
                        \cup (IF c.returned # c.result THEN {op.op \o ": a returned result changed later"} ELSE {})
                   ELSE {})
=============================================================================
