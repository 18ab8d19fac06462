------------------------------- MODULE Across -------------------------------
(***************************************************************************)
(* How results of one rule on several electorates fit together, and how the  *)
(* results of different rules on one election do.  No rule is computed.      *)
(***************************************************************************)
EXTENDS Apportionment

(* ------------------------------------------------ joining two electorates *)
(* exact: rules that compare sums (or merged vectors) over the voters:       *)
(* committees winning in both parts are exactly the winners of the whole;    *)
(* weak (minimax AV): they are among the winners of the whole                *)
Joined(E, X, U) == /\ E.m = X.m /\ E.m = U.m /\ E.k = X.k /\ E.k = U.k
                   /\ U.n = E.n + X.n /\ U.A = E.A \o X.A /\ U.w = E.w \o X.w
JoinFails(rec) ==
    LET E == RawElection(rec.a)  X == RawElection(rec.b)  U == RawElection(rec.ab)
        Fail(c, d, u) ==
            LET both == Coms(c) \cap Coms(d) IN
            IF c.err # "" \/ d.err # "" \/ u.err # "" THEN {"raised " \o c.err \o d.err \o u.err}
            ELSE IF both = {} THEN {}
            ELSE (IF ~ (both \subseteq Coms(u)) THEN {"wins in both parts but not in the whole"} ELSE {})
                 \cup (IF rec.exact /\ ~ (Coms(u) \subseteq both) THEN {"wins in the whole but not in both parts"} ELSE {})
    IN  IF ~ Joined(E, X, U) THEN {<<0, "record: not the two parts of the electorate">>}
        ELSE UNION {{<<j, t>> : t \in Fail(rec.a.calls[j], rec.b.calls[j], rec.ab.calls[j])} : j \in 1..Len(rec.calls)}

(* -------------------------------------- ballots and candidates without effect *)
Prefix(A, X) == \A v \in Voters(A) : X.A[v] = A.A[v] /\ X.w[v] = A.w[v]
Neglected(rel, E, X) ==
    CASE rel = "empty ballots" -> E.m = X.m /\ E.k = X.k /\ X.n > E.n /\ Prefix(E, X) /\ \A v \in (E.n + 1)..X.n : X.A[v] = {}
      [] rel = "full ballots"  -> E.m = X.m /\ E.k = X.k /\ X.n > E.n /\ Prefix(E, X) /\ \A v \in (E.n + 1)..X.n : X.A[v] = Cands(E)
      [] rel = "new candidates" -> E.m < X.m /\ E.k = X.k /\ X.n = E.n /\ Prefix(E, X) /\ Cardinality(Approved(E)) >= E.k
NeglectFails(rec) ==
    LET E == RawElection(rec.a)  X == RawElection(rec.b)
        Fail(c, d) == IF c.err # "" \/ d.err # "" THEN {"raised " \o c.err \o d.err}
                      ELSE IF Coms(c) # Coms(d) THEN {rec.rel \o ": different winning committees"} ELSE {}
    IN  IF ~ Neglected(rec.rel, E, X) THEN {<<0, "record: elections not related as stated">>}
        ELSE UNION {{<<j, t>> : t \in Fail(rec.a.calls[j], rec.b.calls[j])} : j \in 1..Len(rec.calls)}

(* -------------------------------------------- extra support for a winner, and losers *)
(* an approval of candidate c (or a voter for c alone) is added: c keeps what it had.   *)
(* strict: from winning in some committee it then gets into all winning committees      *)
Strict == {"av", "pav", "slav", "geom2", "geom3/2", "lexcc", "lexminimaxav"}
(* rules that build one committee step by step and break ties by candidate numbers      *)
Stepwise == {"av", "seqpav", "seqslav", "seqcc", "seqgeom2", "seqgeom3/2", "seqphragmen", "maximin-support", "equal-shares", "equal-shares-without-completion",
             "phragmen-enestroem", "consensus-rule", "greedy-monroe"}
MoreFor(rel, c, E, X) ==
    /\ E.m = X.m /\ E.k = X.k
    /\ CASE rel = "approval" -> X.n = E.n /\ X.w = E.w /\ \A v \in Voters(E) : E.A[v] \subseteq X.A[v] /\ X.A[v] \subseteq E.A[v] \cup {c}
         [] rel = "voter"    -> X.n > E.n /\ Prefix(E, X) /\ \A v \in (E.n + 1)..X.n : X.A[v] = {c}
InSome(c, Ws) == \E S \in Ws : c \in S
InAll(c, Ws) == \A S \in Ws : c \in S
Unharmed(name, c, Before, After) ==
    /\ InSome(c, Before) => InSome(c, After)
    /\ InAll(c, Before) => InAll(c, After)
    /\ name \in Strict /\ InSome(c, Before) => InAll(c, After)
PromoteFails(rec) ==
    LET E == RawElection(rec.a)  X == RawElection(rec.b)
        Fail(c, d) ==
            IF c.err # "" \/ d.err # "" THEN {"raised " \o c.err \o d.err}
            ELSE IF c.res THEN IF rec.name \in Strict \cup Stepwise /\ InSome(rec.c, Coms(c)) /\ ~ InAll(rec.c, Coms(d))
                               THEN {rec.rel \o ": the supported candidate is no longer elected"} ELSE {}
            ELSE IF ~ Unharmed(rec.name, rec.c, Coms(c), Coms(d)) THEN {rec.rel \o ": the supported candidate is worse off"} ELSE {}
    IN  IF ~ MoreFor(rec.rel, rec.c, E, X) THEN {<<0, "record: elections not related as stated">>}
        ELSE UNION {{<<j, t>> : t \in Fail(rec.a.calls[j], rec.b.calls[j])} : j \in 1..Len(rec.calls)}
(* candidates who win nowhere are removed; p gives the former numbers of the others, in order *)
Back(p, S) == {p[c + 1] : c \in S}
Without(p, E, X) == /\ X.m = Len(p) /\ X.k = E.k /\ X.n = E.n /\ X.w = E.w
                    /\ \A i, j \in 1..Len(p) : i < j => p[i] < p[j]
                    /\ AsSet(p) \subseteq Cands(E)
                    /\ \A v \in Voters(E) : Back(p, X.A[v]) = E.A[v] \cap AsSet(p)
DropFails(rec) ==
    LET E == RawElection(rec.a)  X == RawElection(rec.b)
        Fail(c, d) ==
            IF c.err # "" \/ d.err # "" THEN {"raised " \o c.err \o d.err}
            ELSE IF ~ (UNION Coms(c) \subseteq AsSet(rec.p)) THEN {}
            ELSE IF {Back(rec.p, S) : S \in Coms(d)} # Coms(c) THEN {"without some losing candidates: other committees"} ELSE {}
    IN  IF ~ Without(rec.p, E, X) THEN {<<0, "record: elections not related as stated">>}
        ELSE UNION {{<<j, t>> : t \in Fail(rec.a.calls[j], rec.b.calls[j])} : j \in 1..Len(rec.calls)}

(* ------------------------------------------------------ several rules, one election *)
(* calls carry the rule's name; out holds some or all (res = FALSE, max = 0) winning committees *)
Refinement == {<<"leximaxphragmen", "minimaxphragmen">>, <<"lexminimaxav", "minimaxav">>, <<"lexcc", "cc">>}
(* with a single seat these rules elect a candidate approved by the largest weight *)
SingleSeat == {"av", "pav", "slav", "cc", "geom2", "geom3/2", "lexcc", "seqpav", "seqslav", "seqcc", "seqgeom2", "seqgeom3/2", "seqphragmen",
               "minimaxphragmen", "leximaxphragmen", "maximin-support", "monroe", "greedy-monroe", "phragmen-enestroem", "consensus-rule",
               "equal-shares", "equal-shares-with-av-completion", "equal-shares-with-increment-completion"}
ExactSingle == SingleSeat \ {"greedy-monroe", "equal-shares-with-increment-completion"}
(* what an optimisation rule maximises; all scores are exact rationals *)
Objective(E, name, W) ==
    CASE name = "av"   -> ThieleScore(E, SF("av"), W)
      [] name = "pav"  -> ThieleScore(E, SF("pav"), W)
      [] name = "slav" -> ThieleScore(E, SF("slav"), W)
      [] name \in {"cc", "lexcc"} -> ThieleScore(E, SF("cc"), W)
      [] name = "geom2" -> ThieleScore(E, SFp("geom", "2/1"), W)
      [] name = "geom3/2" -> ThieleScore(E, SFp("geom", "3/2"), W)
      [] name \in {"minimaxav", "lexminimaxav"} -> RSub(Zero, R(MaxHam(E, W)))
      [] name = "monroe" -> R(MonroeScore(E, W))
      [] name \in {"minimaxphragmen", "leximaxphragmen"} ->
            IF Supported(E, W) THEN RSub(Zero, MinimaxLoad(E, W)) ELSE RSub(Zero, R(1000000))
      \* leximax-optimal vectors are compared by module Phragmen (C07); here only their first entry
Optimising == {"av", "pav", "slav", "cc", "lexcc", "geom2", "geom3/2", "minimaxav", "lexminimaxav", "monroe", "minimaxphragmen", "leximaxphragmen"}
Swaps(E, W) == {(W \ {x}) \cup {y} : x \in W, y \in Cands(E) \ W}
AcrossFails(rec) ==
    LET E == RawElection(rec)
        ok == {j \in 1..Len(rec.calls) : rec.calls[j].err = ""}
        all == {j \in ok : ~ rec.calls[j].res /\ rec.calls[j].max = 0}
        seen == {W \in UNION {Coms(rec.calls[j]) : j \in ok} : Cardinality(W) = E.k}
        best == ArgMax(Cands(E), LAMBDA c : ApprovalWeight(E, c))
        Opt(c) == LET obj == [W \in seen |-> Objective(E, c.name, W)]
                      mine == {W \in Coms(c) : W \in seen} IN
            (IF \E W \in mine, X \in seen : RLt(obj[W], obj[X]) THEN {"another rule's committee scores higher"} ELSE {})
            \cup (IF rec.swaps /\ \E W \in mine : \E X \in Swaps(E, W) : RLt(obj[W], Objective(E, c.name, X))
                  THEN {"exchanging one member scores higher"} ELSE {})
    IN  {<<j, "raised " \o rec.calls[j].err>> : j \in (1..Len(rec.calls)) \ ok}
        \cup {<<i, "not among the winners of " \o rec.calls[j].name>> :
                <<i, j>> \in {x \in ok \X all : /\ <<rec.calls[x[1]].name, rec.calls[x[2]].name>> \in Refinement
                                                /\ ~ (Coms(rec.calls[x[1]]) \subseteq Coms(rec.calls[x[2]]))}}
        \cup (IF E.k # 1 THEN {} ELSE
              {<<j, "single seat: not a most approved candidate">> :
                 j \in {x \in ok : rec.calls[x].name \in SingleSeat /\ \E W \in Coms(rec.calls[x]) : ~ (W \subseteq best)}}
              \cup {<<j, "single seat: misses a most approved candidate">> :
                 j \in {x \in all : rec.calls[x].name \in ExactSingle /\ \E c \in best : {c} \notin Coms(rec.calls[x])}})
        \cup (IF E.k # E.m THEN {} ELSE
              {<<j, "all seats: not the committee of all candidates">> :
                 j \in {x \in ok : rec.calls[x].name # "equal-shares-without-completion" /\ Coms(rec.calls[x]) # {Cands(E)}}})
        \cup {<<j, "does not contain the committee bought without completion">> :
                 j \in {x \in ok : /\ rec.calls[x].name \in {"equal-shares", "equal-shares-with-av-completion"}
                                   /\ \E i \in all : /\ rec.calls[i].name = "equal-shares-without-completion"
                                                     /\ \E W \in Coms(rec.calls[x]) : \A T \in Coms(rec.calls[i]) : ~ (T \subseteq W)}}
        \cup UNION {{<<j, t>> : t \in Opt(rec.calls[j])} : j \in {x \in ok : rec.calls[x].name \in Optimising}}
=============================================================================
