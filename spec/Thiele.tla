------------------------------- MODULE Thiele -------------------------------
(* Thiele methods.  A scoring function sf is a record [id, p]; Marg(sf, i)   *)
(* is the marginal score of the i-th approved committee member.              *)
EXTENDS Elections

SF(id)     == [id |-> id, p |-> Zero]
SFp(id, p) == [id |-> id, p |-> p]

RECURSIVE RPow(_, _)
RPow(b, i) == IF i = 0 THEN One ELSE RMul(b, RPow(b, i - 1))

Marg(sf, i) ==
    IF i <= 0 THEN Zero ELSE
    CASE sf.id = "pav"  -> RFrac(1, i)
      [] sf.id = "slav" -> RFrac(1, 2*i - 1)
      [] sf.id = "cc"   -> IF i = 1 THEN One ELSE Zero
      [] sf.id = "av"   -> One
      [] sf.id = "geom" -> RDiv(One, RPow(sf.p, i - 1))
      [] sf.id = "atleast" -> IF R(i) = sf.p THEN One ELSE Zero

(* H[u+1] is the score of a voter with u approved committee members *)
CumTable(sf, u) == [i \in 1..(u+1) |-> RSum([j \in 1..(i-1) |-> Marg(sf, j)])]

ThieleScoreT(E, H, W) == RSum([v \in Voters(E) |-> RMul(E.w[v], H[Cardinality(E.A[v] \cap W) + 1])])
ThieleScore(E, sf, W) == LET H == CumTable(sf, Cardinality(W)) IN ThieleScoreT(E, H, W)

ThieleWinners(E, sf) ==
    LET H == CumTable(sf, E.k) IN ArgMax(Committees(E), LAMBDA W : ThieleScoreT(E, H, W))

(* Lex-CC: weight of the voters with at least 1, 2, ..., k approved members *)
AtLeastVector(E, W) == [l \in 1..E.k |-> Weight(E, {v \in Voters(E) : Util(E, v, W) >= l})]
LexCCWinners(E) == ArgLexMax(Committees(E), LAMBDA W : AtLeastVector(E, W), E.k)

(* gain of adding c to W, loss of removing c from W *)
Gain(E, sf, W, c) == RSum([v \in Voters(E) |->
                           IF c \in E.A[v] THEN RMul(E.w[v], Marg(sf, Util(E, v, W) + 1)) ELSE Zero])
Loss(E, sf, W, c) == RSum([v \in Voters(E) |->
                           IF c \in E.A[v] THEN RMul(E.w[v], Marg(sf, Util(E, v, W))) ELSE Zero])
=============================================================================
