----------------------------- MODULE ProfileGen -----------------------------
(* Generates operation histories of the profile machine (TLC simulation).   *)
(* Parameters are drawn at random; the state only decides what is enabled.  *)
EXTENDS ProfileMachine, Json
CONSTANT Depth
VARIABLES s, h

Pick(S) == RandomElement(S)
Chance(k) == Pick(1..100) <= k
NameSeqs == {<<"b", "a", "d", "c", "x">>, <<"10", "9", "2", "1", "0">>, <<"aa", "a", "a b", "Z", "A">>, <<"c1", "c2">>, <<"e", "e", "f", "e", "d">>}
Weights == {"1/1", "1/1", "2/1", "3/1", "1/2", "4/3", "7/1"}
(* TLC may evaluate a LET definition more than once: random values are bound by quantifiers over singletons *)
BallotOf(q, m, r) == IF r <= 4 THEN Append(q, m) ELSE IF r <= 7 THEN <<-1>> \o q
                     ELSE IF r <= 11 /\ q # <<>> THEN Append(q, q[1]) ELSE IF r <= 40 THEN Reverse(q) ELSE q
Ballot(m) == CHOOSE b \in {BallotOf(q, m, r) : q \in {SetToSeq({c \in 0..(m - 1) : Chance(45)})}, r \in {Pick(1..100)}} : TRUE
Cands(p) == IF s.P[p].ex THEN s.P[p].m ELSE 3
Live == {p \in Slots : s.P[p].ex}
Held == {v \in Objs : s.V[v].ex}
Base == [op |-> "", p |-> 0, q |-> 0, v |-> 0, i |-> 0, m |-> 0, c |-> 0, b |-> <<>>, bs |-> <<>>, vs |-> <<>>, w |-> "1/1",
         names |-> <<>>, name |-> "", how |-> ""]
Some(S) == IF S = {} THEN 1 ELSE Pick(S)
OpOf(kind, p, obj) ==
    LET n == IF s.P[p].ex THEN Len(s.P[p].V) ELSE 0
        B == [Base EXCEPT !.op = kind, !.p = p]
    IN  CASE kind = "new" -> [B EXCEPT !.p = Pick(Slots), !.m = IF Chance(6) THEN Pick({0, -1}) ELSE Pick({2, 3, 3, 4, 12}),
                                       !.names = IF Chance(40) THEN Pick(NameSeqs) ELSE <<>>]
          [] kind = "voter" -> [B EXCEPT !.v = Pick(Objs), !.b = Ballot(3), !.w = IF Chance(6) THEN Pick({"0/1", "-1/1"}) ELSE Pick(Weights)]
          [] kind = "add" -> [B EXCEPT !.v = obj, !.b = Ballot(Cands(p))]
          [] kind = "addmany" -> [B EXCEPT !.bs = [x \in 1..Pick(0..4) |-> Ballot(Cands(p))]]
          [] kind = "addvoters" -> [B EXCEPT !.vs = IF Held = {} THEN <<>> ELSE [x \in 1..Pick(1..3) |-> Pick(Held)]]
          [] kind = "set" -> [B EXCEPT !.v = obj, !.b = Ballot(Cands(p)), !.i = IF Chance(8) THEN Pick({n, -(n + 1), n + 3})
                                                                               ELSE IF n = 0 THEN 0 ELSE Pick((-n)..(n - 1))]
          [] kind = "copy" -> [B EXCEPT !.q = Pick(Slots), !.how = Pick({"copy", "copy.copy", "deepcopy"})]
          [] kind = "rename" -> [B EXCEPT !.i = IF s.P[p].ex THEN Pick(1..s.P[p].m) ELSE 1, !.name = Pick({"new", "0", "zz", "B"})]
          [] kind = "editvoter" -> [B EXCEPT !.v = Some(Held), !.c = Pick(0..3), !.w = Pick(Weights)]
          [] kind = "editentry" -> [B EXCEPT !.i = IF n = 0 THEN 1 ELSE Pick(1..n), !.c = Pick(0..(Cands(p) - 1)), !.w = Pick(Weights)]
          [] OTHER -> B
Kinds == {"new", "voter", "add", "addmany", "addvoters", "set", "unit", "merge", "copy", "rename", "editvoter", "editentry"}
WeightsOfKind(k) == CASE k = "new" -> IF Live = {} THEN 30 ELSE 2
                      [] k = "voter" -> IF Held = {} THEN 10 ELSE 3
                      [] k \in {"add", "set", "addvoters"} -> 8
                      [] k \in {"unit", "merge", "copy"} -> 6
                      [] OTHER -> 4
(* one random operation per step, kinds drawn by weight *)
KindSeq == SetToSeq(Kinds)
RECURSIVE Cum(_)
Cum(j) == IF j = 0 THEN 0 ELSE Cum(j - 1) + WeightsOfKind(KindSeq[j])
Draw(r) == KindSeq[CHOOSE j \in 1..Len(KindSeq) : Cum(j - 1) < r /\ r <= Cum(j)]
Init == s = InitState /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E r \in {Pick(1..Cum(Len(KindSeq)))}, p \in {Some(Live)}, obj \in {IF Held # {} /\ Chance(50) THEN Pick(Held) ELSE 0} :
           \E op \in {OpOf(Draw(r), p, obj)} :
             IF Enabled(s, op) THEN s' = After(s, op) /\ h' = Append(h, op) ELSE UNCHANGED s /\ h' = h
Emit == Len(h) = Depth => PrintT("HIST|" \o ToJson(h))
=============================================================================
