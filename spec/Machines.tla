------------------------------ MODULE Machines ------------------------------
(***************************************************************************)
(* The sequential rules as one state machine.  A universe u is a record    *)
(*   W   : set of candidates elected so far (revseq: still present)        *)
(*   aux : loads / budgets / remaining voters, as the rule needs           *)
(*   ph  : phase (1; 2 = completion phase of the Method of Equal Shares)   *)
(* Best(E, r, u) are the candidates tied for the next step; Apply(E,r,u,c) *)
(* is the universe after choosing c; Done(E,r,u) says that u is final.     *)
(* A rule r is a record [id, sf, comp, bud].                               *)
(***************************************************************************)
EXTENDS Thiele, Phragmen, OtherRules

ConstV(E, x) == [v \in Voters(E) |-> x]

(* ---------------------------------------------------------- seq-Phragmen *)
PhrLoad(E, load, c) ==
    RDiv(RAdd(One, RSum([v \in Voters(E) |-> IF c \in E.A[v] THEN RMul(E.w[v], load[v]) ELSE Zero])),
         ApprovalWeight(E, c))
PhrBest(E, W, load) ==
    LET open == Cands(E) \ W
        sup  == open \cap Approved(E)
    IN  IF sup = {} THEN open ELSE ArgMin(sup, LAMBDA c : PhrLoad(E, load, c))
PhrApply(E, load, c) ==
    IF c \notin Approved(E) THEN load
    ELSE LET l == PhrLoad(E, load, c) IN [v \in Voters(E) |-> IF c \in E.A[v] THEN l ELSE load[v]]

(* ------------------------------------------------ Method of Equal Shares *)
(* q is the smallest number such that supporters paying min(budget, q*weight) *)
(* raise a total of one; supporters with budget/weight below q give all       *)
Affordable(E, bud, c) == RLe(One, RSum([v \in Voters(E) |-> IF c \in E.A[v] THEN bud[v] ELSE Zero]))
MinQ(E, bud, c) ==
    LET N    == Supporters(E, c)
        rate == [v \in N |-> RDiv(bud[v], E.w[v])]
        (* candidate values: the supporters with rate < t are exhausted, the others pay q *)
        cut  == {rate[v] : v \in N}
        q(t) == LET poor == {v \in N : RLt(rate[v], t)}
                    rich == N \ poor
                IN  RDiv(RSub(One, RSum([v \in Voters(E) |-> IF v \in poor THEN bud[v] ELSE Zero])), Weight(E, rich))
        ok(t) == LET x == q(t) IN \A v \in N : RLt(rate[v], t) <=> RLt(rate[v], x)
    IN  q(CHOOSE t \in cut : ok(t))
Pay(E, bud, c) == LET q == MinQ(E, bud, c)
                  IN  [v \in Voters(E) |-> IF c \in E.A[v] /\ RLt(RMul(q, E.w[v]), bud[v]) THEN RMul(q, E.w[v])
                                           ELSE IF c \in E.A[v] THEN bud[v] ELSE Zero]
MESAff(E, W, bud)  == {c \in Cands(E) \ W : Supporters(E, c) # {} /\ Affordable(E, bud, c)}
MESBest(E, W, bud) == ArgMin(MESAff(E, W, bud), LAMBDA c : MinQ(E, bud, c))
MESApply(E, bud, c) == LET pay == Pay(E, bud, c) IN [v \in Voters(E) |-> RSub(bud[v], pay[v])]
MESLoads(E, bud) == [v \in Voters(E) |-> RDiv(RSub(Zero, bud[v]), E.w[v])]
(* per-voter budget b: a voter of weight w starts with w*b *)
MESStart(E, b) == [v \in Voters(E) |-> RMul(E.w[v], b)]
StdBudget(E) == RDiv(R(E.k), TotalWeight(E))

(* ------------------------------------------ Phragmen-Enestroem, Consensus *)
EneSupport(E, bud, c) == RSum([v \in Voters(E) |-> IF c \in E.A[v] THEN bud[v] ELSE Zero])
EneBest(E, W, bud) == ArgMax(Cands(E) \ W, LAMBDA c : EneSupport(E, bud, c))
EneApply(E, bud, c) ==
    LET price == RDiv(TotalWeight(E), R(E.k))
        s     == EneSupport(E, bud, c)
        mult  == IF RLt(price, s) THEN RDiv(RSub(s, price), s) ELSE Zero
    IN  [v \in Voters(E) |-> IF c \in E.A[v] THEN RMul(bud[v], mult) ELSE bud[v]]

ConEarn(E, bud) == [v \in Voters(E) |-> RAdd(bud[v], E.w[v])]
ConPayers(E, bud, c) == {v \in Supporters(E, c) : RLt(Zero, bud[v])}
ConSupport(E, bud, c) == RSum([v \in Voters(E) |-> IF c \in E.A[v] /\ RLt(Zero, bud[v]) THEN bud[v] ELSE Zero])
ConBest(E, W, bud) == LET b == ConEarn(E, bud) IN ArgMax(Cands(E) \ W, LAMBDA c : ConSupport(E, b, c))
ConApply(E, bud, c) ==
    LET b == ConEarn(E, bud)
        P == ConPayers(E, b, c)
    IN  IF P = {} THEN b
        ELSE LET f == RDiv(TotalWeight(E), Weight(E, P))
             IN  [v \in Voters(E) |-> IF v \in P THEN RSub(b[v], RMul(E.w[v], f)) ELSE b[v]]

(* ------------------------------------------------------------ Greedy Monroe *)
GMBest(E, W, rem) ==
    LET a == [c \in Cands(E) \ W |-> Cardinality({v \in rem : c \in E.A[v]})]
        b == MaxOf({a[c] : c \in DOMAIN a})
    IN  {MinOf({c \in DOMAIN a : a[c] = b})}
GMDistrict(E, W, rem, c) ==
    LET t    == Cardinality(W)
        size == IF t < E.n % E.k THEN (E.n \div E.k) + 1 ELSE E.n \div E.k
        sup  == {v \in rem : c \in E.A[v]}
    IN  {v \in sup : Cardinality({x \in sup : x < v}) < size}

(* ------------------------------------------------------------------ machine *)
Rule(id) == [id |-> id, sf |-> SF("pav"), comp |-> "none", bud |-> Zero]
ThieleRule(id, sf) == [id |-> id, sf |-> sf, comp |-> "none", bud |-> Zero]
MESRule(comp) == [id |-> "mes", sf |-> SF("pav"), comp |-> comp, bud |-> Zero]
MESRuleBudget(b) == [id |-> "mes", sf |-> SF("pav"), comp |-> "none", bud |-> b]

InitU(E, r) ==
    CASE r.id = "seqthiele"  -> [W |-> {}, aux |-> <<>>, ph |-> 1]
      [] r.id = "revseqthiele" -> [W |-> Cands(E), aux |-> <<>>, ph |-> 1]
      [] r.id = "seqphragmen" -> [W |-> {}, aux |-> ConstV(E, Zero), ph |-> 1]
      [] r.id = "mes" -> [W |-> {}, aux |-> MESStart(E, IF r.bud = Zero THEN StdBudget(E) ELSE r.bud), ph |-> 1]
      [] r.id = "enestroem" -> [W |-> {}, aux |-> E.w, ph |-> 1]
      [] r.id = "consensus" -> [W |-> {}, aux |-> ConstV(E, Zero), ph |-> 1]
      [] r.id = "maximin" -> [W |-> {}, aux |-> <<>>, ph |-> 1]
      [] r.id = "greedy-monroe" -> [W |-> {}, aux |-> Voters(E), ph |-> 1]

(* does phase 1 of Equal Shares still run? *)
MESRunning(E, r, u) == u.ph = 1 /\ Cardinality(u.W) < E.k /\ MESAff(E, u.W, u.aux) # {}

Done(E, r, u) ==
    CASE r.id = "mes" /\ r.comp = "none" -> ~ MESRunning(E, r, u)
      [] OTHER -> Cardinality(u.W) = E.k

(* the phase-2 view of a universe: same committee, loads instead of budgets *)
Switch(E, r, u) == IF u.ph = 2 THEN u
                   ELSE [W |-> u.W, aux |-> IF r.comp = "seqphragmen" THEN MESLoads(E, u.aux) ELSE <<>>, ph |-> 2]

Best(E, r, u) ==
    CASE r.id = "seqthiele"   -> ArgMax(Cands(E) \ u.W, LAMBDA c : Gain(E, r.sf, u.W, c))
      [] r.id = "revseqthiele" -> ArgMin(u.W, LAMBDA c : Loss(E, r.sf, u.W, c))
      [] r.id = "seqphragmen" -> PhrBest(E, u.W, u.aux)
      [] r.id = "mes"         -> IF MESRunning(E, r, u) THEN MESBest(E, u.W, u.aux)
                                 ELSE IF r.comp = "seqphragmen" THEN PhrBest(E, u.W, Switch(E, r, u).aux)
                                 ELSE ArgMax(Cands(E) \ u.W, LAMBDA c : ApprovalWeight(E, c))
      [] r.id = "enestroem"   -> EneBest(E, u.W, u.aux)
      [] r.id = "consensus"   -> ConBest(E, u.W, u.aux)
      [] r.id = "maximin"     -> ArgMax(Cands(E) \ u.W, LAMBDA c : MaximinSupport(E, u.W \cup {c}))
      [] r.id = "greedy-monroe" -> GMBest(E, u.W, u.aux)

Apply(E, r, u, c) ==
    CASE r.id = "seqthiele"   -> [u EXCEPT !.W = @ \cup {c}]
      [] r.id = "revseqthiele" -> [u EXCEPT !.W = @ \ {c}]
      [] r.id = "seqphragmen" -> [u EXCEPT !.W = @ \cup {c}, !.aux = PhrApply(E, @, c)]
      [] r.id = "mes"         -> IF MESRunning(E, r, u) THEN [u EXCEPT !.W = @ \cup {c}, !.aux = MESApply(E, @, c)]
                                 ELSE LET s == Switch(E, r, u)
                                      IN  [s EXCEPT !.W = @ \cup {c},
                                                    !.aux = IF r.comp = "seqphragmen" THEN PhrApply(E, @, c) ELSE @]
      [] r.id = "enestroem"   -> [u EXCEPT !.W = @ \cup {c}, !.aux = EneApply(E, @, c)]
      [] r.id = "consensus"   -> [u EXCEPT !.W = @ \cup {c}, !.aux = ConApply(E, @, c)]
      [] r.id = "maximin"     -> [u EXCEPT !.W = @ \cup {c}]
      [] r.id = "greedy-monroe" -> [u EXCEPT !.W = @ \cup {c}, !.aux = @ \ GMDistrict(E, u.W, @, c)]

(* one step of parallel-universes tie-breaking, and of the documented resolute tie-breaking *)
SuccPUT(E, r, u) == {Apply(E, r, u, c) : c \in Best(E, r, u)}
Preferred(E, r, B) == IF r.id = "revseqthiele" THEN MaxOf(B) ELSE MinOf(B)
SuccRes(E, r, u) == {Apply(E, r, u, Preferred(E, r, Best(E, r, u)))}

StepFrontier(E, r, F, res) ==
    UNION { IF Done(E, r, u) THEN {u} ELSE IF res THEN SuccRes(E, r, u) ELSE SuccPUT(E, r, u) : u \in F }
RECURSIVE RunFrom(_, _, _, _)
RunFrom(E, r, F, res) == IF \A u \in F : Done(E, r, u) THEN {u.W : u \in F}
                         ELSE RunFrom(E, r, StepFrontier(E, r, F, res), res)
Outcomes(E, r) == RunFrom(E, r, {InitU(E, r)}, FALSE)
ResOutcome(E, r) == RunFrom(E, r, {InitU(E, r)}, TRUE)

(* Equal Shares with increment completion *)
RECURSIVE IncrementFrom(_, _)
IncrementFrom(E, j) == LET X == ResOutcome(E, MESRuleBudget(RDiv(R(j), TotalWeight(E))))
                       IN  IF \E W \in X : Cardinality(W) = E.k THEN X ELSE IncrementFrom(E, j + 1)
IncrementOutcome(E) == IncrementFrom(E, E.k)

(* ------------------------------------------------------------------- EPH *)
SplitScore(E, S, c) == RSum([v \in Voters(E) |-> IF c \in E.A[v] THEN RDiv(E.w[v], R(Cardinality(E.A[v] \cap S))) ELSE Zero])
EPHElim(E, S) ==
    LET sdv  == [c \in S |-> SplitScore(E, S, c)]
        (* second smallest value, counting multiplicity (the smallest one if there is only one candidate) *)
        cut  == {c \in S : Cardinality({d \in S : RLt(sdv[d], sdv[c])}) <= 1}
        low  == cut
    IN  ArgMin(low, LAMBDA c : ApprovalWeight(E, c))
RECURSIVE EPHFrom(_, _)
EPHFrom(E, S) == LET X == EPHElim(E, S)
                 IN  IF Cardinality(S) - Cardinality(X) <= E.k
                     THEN {S \ Y : Y \in KSub(Cardinality(S) - E.k, X)}
                     ELSE EPHFrom(E, S \ X)
EPHOutcomes(E) == EPHFrom(E, Cands(E))

(* ------------------------------------------------------------------- RSD *)
(* universes [W, aux = voters that have not spoken yet] *)
RSDInit(E) == [W |-> {}, aux |-> Voters(E), ph |-> 1]
RSDSucc(E, u) ==
    IF u.aux = {} THEN {[u EXCEPT !.W = @ \cup X] : X \in KSub(E.k - Cardinality(u.W), Cands(E) \ u.W)}
    ELSE {LET new == E.A[v] \ u.W
              room == E.k - Cardinality(u.W)
          IN  [W |-> u.W \cup (IF Cardinality(new) <= room THEN new
                               ELSE {c \in new : Cardinality({d \in new : d < c}) < room}),
               aux |-> u.aux \ {v}, ph |-> 1] : v \in u.aux}
RECURSIVE RSDRun(_, _)
RSDRun(E, F) == IF \A u \in F : Cardinality(u.W) = E.k THEN {u.W : u \in F}
                ELSE RSDRun(E, UNION {IF Cardinality(u.W) = E.k THEN {[u EXCEPT !.aux = {}]} ELSE RSDSucc(E, u) : u \in F})
RSDOutcomes(E) == RSDRun(E, {RSDInit(E)})
=============================================================================
