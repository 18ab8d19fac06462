------------------------------- MODULE Scores -------------------------------
(* The published score functions: expected value of one recorded call.       *)
EXTENDS Machines

LOCAL S2(s) == {s[j] : j \in 1..Len(s)}
Seq0(E, f(_)) == [x \in 1..E.m |-> f(x - 1)]
(* a list with one entry per candidate: exact for the candidates in Sure, larger/smaller than those otherwise *)
ScoreFails(E, W, c) ==
    LET sf == SFp(c.sf, c.p)
        wrong == c.fn \o (IF c.sf = "" THEN "" ELSE " " \o c.sf) \o ": wrong value"
        exact(v) == IF c.val = <<v>> THEN {} ELSE {wrong}
    IN
    CASE c.fn = "thiele_score" -> exact(ThieleScore(E, sf, W))
      [] c.fn = "marginal" -> exact(Marg(sf, c.x))
      [] c.fn = "cumulative" -> exact(RSum([j \in 1..c.x |-> Marg(sf, j)]))
      [] c.fn = "add" -> IF c.val = Seq0(E, LAMBDA d : IF d \in W THEN "-1/1" ELSE Gain(E, sf, W, d)) THEN {} ELSE {wrong}
      [] c.fn = "remove" ->
            IF /\ Len(c.val) = E.m
               /\ \A d \in W : c.val[d + 1] = Loss(E, sf, W, d)
               /\ \A d \in Cands(E) \ W : \A e \in W : RLt(c.val[e + 1], c.val[d + 1]) THEN {} ELSE {wrong}
      [] c.fn \in {"monroe", "monroe-flow"} -> exact(R(MonroeScore(E, W)))
      [] c.fn = "monroe-matching" -> exact(R(MonroeScore(E, W)))
      [] c.fn = "minimaxav" -> exact(R(MaxHam(E, W)))
      [] c.fn = "bounded" -> exact(R(Cardinality({v \in Voters(E) : Ham(E.A[v], W) <= c.x})))
      [] c.fn = "hamming" -> exact(R(Ham(E.A[1], W)))
MustRefuse(E, W, c) == \/ c.sf = "unknown"
                       \/ c.fn = "monroe-matching" /\ E.n % Cardinality(W) # 0
ScoresFails(E, W, calls) ==
    LET Fail(c) == IF MustRefuse(E, W, c) THEN (IF c.cls = "" THEN {c.fn \o ": accepted " \o c.name}
                                                ELSE IF c.cls # "ValueError" THEN {c.fn \o ": refused with " \o c.cls} ELSE {})
                   ELSE IF c.cls # "" THEN {c.fn \o ": raised " \o c.cls}
                   ELSE ScoreFails(E, W, c)
    IN  UNION {{<<j, t>> : t \in Fail(calls[j])} : j \in 1..Len(calls)}
=============================================================================
