-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* Conformance of recorded executions of abcvoting with the specification. *)
(* The trace file (one JSON record per line) holds elections together with *)
(* the calls made on the real code and what they returned.  Every record   *)
(* is processed by actions of this machine: Load, then for sequential      *)
(* rules Step (one round of the rule in all parallel universes, and in the *)
(* resolute universe, by the actions of module Machines) until every       *)
(* universe is final, then Judge.  Verdicts are total: a record yields the *)
(* set of clauses that fail, printed as FAIL|id|call|clause.            *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, pc, F, G, bad
vars == <<i, pc, F, G, bad>>

Init == i = 1 /\ pc = "idle" /\ F = {} /\ G = {} /\ bad = 0

Load == /\ pc = "idle" /\ i <= Len(Recs)
        /\ LET rec == Recs[i] IN
           IF IsMachine(rec)
           THEN LET u == InitU(ElectionOf(rec), RuleOf(rec.rule)) IN
                pc' = "run" /\ F' = (IF rec.resonly THEN {} ELSE {u}) /\ G' = {u}
           ELSE pc' = "judge" /\ F' = {} /\ G' = {}
        /\ UNCHANGED <<i, bad>>

Step == /\ pc = "run"
        /\ LET E == ElectionOf(Recs[i])
               r == RuleOf(Recs[i].rule)
               done == \A u \in F \cup G : Done(E, r, u)
           IN  /\ pc' = IF done THEN "judge" ELSE "run"
               /\ F' = IF done THEN F ELSE StepFrontier(E, r, F, FALSE)
               /\ G' = IF done THEN G ELSE StepFrontier(E, r, G, TRUE)
        /\ UNCHANGED <<i, bad>>

Report(id, fails) == \A f \in fails : PrintT("FAIL|" \o id \o "|" \o ToString(f[1]) \o "|" \o f[2])

JudgeStep ==
    /\ pc = "judge"
    /\ LET rec == Recs[i]
           fails == Verdict(rec, {u.W : u \in F}, {u.W : u \in G})
       IN  /\ (fails = {} \/ Report(rec.id, fails))
           /\ bad' = bad + Cardinality(fails)
    /\ pc' = "idle" /\ i' = i + 1 /\ F' = {} /\ G' = {}

Finish == /\ pc = "idle" /\ i = Len(Recs) + 1
          /\ PrintT("FINISHED|" \o ToString(Len(Recs)) \o "|" \o ToString(bad))
          /\ pc' = "end" /\ UNCHANGED <<i, F, G, bad>>

Next == Load \/ Step \/ JudgeStep \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
