------------------------------- MODULE Axioms -------------------------------
(***************************************************************************)
(* Proportionality axioms, Pareto optimality, the core, price systems.     *)
(* W is a committee, q a positive quota; groups are measured by weight.    *)
(***************************************************************************)
EXTENDS Elections

Times(l, q) == RMul(R(l), q)
Below(E, W, l) == {v \in Voters(E) : Util(E, v, W) < l}

(* l-cohesive groups: it is enough to look at the largest group for a set T of l common candidates *)
JR(E, W, q) == ~ \E c \in Cands(E) : RLe(q, Weight(E, {v \in Supporters(E, c) : E.A[v] \cap W = {}}))
EJR(E, W, q) == ~ \E T \in NonEmptySubsets(Cands(E)) :
    LET l == Cardinality(T) IN RLe(Times(l, q), Weight(E, {v \in Below(E, W, l) : T \subseteq E.A[v]}))
(* a group of which each member approves T and that jointly approves fewer than |T| members of W *)
PJR(E, W, q) == ~ \E T \in NonEmptySubsets(Cands(E)) :
    LET l == Cardinality(T)
        G == {v \in Voters(E) : T \subseteq E.A[v]}
    IN  RLe(Times(l, q), Weight(E, G)) /\
        \E X \in {Y \in SUBSET W : Cardinality(Y) <= l - 1} :
            RLe(Times(l, q), Weight(E, {v \in G : E.A[v] \cap W \subseteq X}))
EJRplus(E, W, q) == ~ \E c \in Cands(E) \ W, l \in 1..(E.m + 1) :
    RLe(Times(l, q), Weight(E, {v \in Supporters(E, c) : Util(E, v, W) < l}))
FJR(E, W, q) == ~ \E T \in NonEmptySubsets(Cands(E)) : \E b \in 1..Cardinality(T) :
    RLe(Times(Cardinality(T), q), Weight(E, {v \in Voters(E) : Util(E, v, T) >= b /\ Util(E, v, W) < b}))
InCore(E, W, q) == ~ \E T \in NonEmptySubsets(Cands(E)) :
    LET G == {v \in Voters(E) : Util(E, v, T) > Util(E, v, W)}
    IN  G # {} /\ RLe(Times(Cardinality(T), q), Weight(E, G))
Dominates(E, X, W) == /\ \A v \in Voters(E) : Util(E, v, X) >= Util(E, v, W)
                      /\ \E v \in Voters(E) : Util(E, v, X) > Util(E, v, W)
Pareto(E, W) == ~ \E X \in KSub(Cardinality(W), Cands(E)) : Dominates(E, X, W)

StdQuota(E, W) == RDiv(TotalWeight(E), R(Cardinality(W)))

(* --------------------------------------------------------- price systems *)
(* A price system is a budget b per unit of weight and payments p[v][c].    *)
(* FewApprovedFor: the documented special case.                             *)
FewApprovedFor(E, W) == Cardinality(Approved(E)) < Cardinality(W)
Paid(p, v, S, E) == RSum([i \in 1..E.m |-> IF (i - 1) \in S THEN p[v][i] ELSE Zero])
NonNeg(x) == RLe(Zero, x)
PriceSystem(E, W, b, p) ==
    /\ NonNeg(b)
    /\ \A v \in Voters(E) : /\ \A i \in 1..E.m : NonNeg(p[v][i]) /\ ((i - 1) \notin E.A[v] => p[v][i] = Zero)
                            /\ RLe(Paid(p, v, Cands(E), E), RMul(E.w[v], b))
    /\ \A i \in 1..E.m : RSum([v \in Voters(E) |-> p[v][i]]) = IF (i - 1) \in W THEN One ELSE Zero
Left(E, W, b, p, v) == RSub(RMul(E.w[v], b), Paid(p, v, W, E))
Pricing(E, W, b, p) ==
    /\ PriceSystem(E, W, b, p)
    /\ \A c \in Cands(E) \ W :
          RLe(RSum([v \in Voters(E) |-> IF c \in E.A[v] THEN Left(E, W, b, p, v) ELSE Zero]), One)
(* what a voter could offer: what is left or the largest single payment *)
Offer(E, W, b, p, v) == RMaxS({Left(E, W, b, p, v)} \cup {p[v][c + 1] : c \in W})
StablePricing(E, W, b, p) ==
    /\ PriceSystem(E, W, b, p)
    /\ \A c \in Cands(E) \ W :
          RLe(RSum([v \in Voters(E) |-> IF c \in E.A[v] THEN Offer(E, W, b, p, v) ELSE Zero]), One)

(* Farkas certificates that no price system exists: multipliers of the linear conditions whose combination *)
(* is contradictory.  y.alpha[i]: member i-1 is paid exactly one; y.beta[v]: budget; y.gamma[i]: non-member *)
(* i-1 is not affordable; y.delta[v][i]: the offer of v is at least its payment for i-1; y.eps[v]: ... its rest *)
SumG(E, W, y, v) == RSum([i \in 1..E.m |-> IF (i - 1) \notin W /\ (i - 1) \in E.A[v] THEN y.gamma[i] ELSE Zero])
NegTotal(E, W, y) == RLt(RAdd(RSum([i \in 1..E.m |-> IF (i - 1) \in W THEN y.alpha[i] ELSE Zero]),
                              RSum([i \in 1..E.m |-> IF (i - 1) \notin W THEN y.gamma[i] ELSE Zero])), Zero)
NoPricing(E, W, y) ==
    /\ \A v \in Voters(E) : NonNeg(y.beta[v])
    /\ \A i \in 1..E.m : NonNeg(y.gamma[i])
    /\ \A v \in Voters(E), c \in W : c \in E.A[v] =>
          NonNeg(RSub(RAdd(y.alpha[c + 1], y.beta[v]), SumG(E, W, y, v)))
    /\ NonNeg(RSum([v \in Voters(E) |-> RMul(E.w[v], RSub(SumG(E, W, y, v), y.beta[v]))]))
    /\ NegTotal(E, W, y)
NoStablePricing(E, W, y) ==
    /\ \A v \in Voters(E) : NonNeg(y.beta[v]) /\ NonNeg(y.eps[v]) /\ \A i \in 1..E.m : NonNeg(y.delta[v][i])
    /\ \A i \in 1..E.m : NonNeg(y.gamma[i])
    /\ \A v \in Voters(E), c \in W : c \in E.A[v] =>
          NonNeg(RAdd(RSub(RAdd(y.alpha[c + 1], y.beta[v]), y.eps[v]), y.delta[v][c + 1]))
    /\ NonNeg(RSum([v \in Voters(E) |-> RMul(E.w[v], RSub(y.eps[v], y.beta[v]))]))
    /\ \A v \in Voters(E) : NonNeg(RSub(RSub(SumG(E, W, y, v), y.eps[v]),
                                        RSum([i \in 1..E.m |-> IF (i - 1) \in W /\ (i - 1) \in E.A[v]
                                                               THEN y.delta[v][i] ELSE Zero])))
    /\ NegTotal(E, W, y)

(* the value of a property; priceability is decided by a certificate cert that this module checks *)
CertOK(E, W, stable, cert) ==
    CASE cert.kind = "system" -> IF stable THEN StablePricing(E, W, cert.b, cert.p) ELSE Pricing(E, W, cert.b, cert.p)
      [] cert.kind = "farkas" -> IF stable THEN NoStablePricing(E, W, cert.y) ELSE NoPricing(E, W, cert.y)
      [] cert.kind = "few"    -> FewApprovedFor(E, W)
CertValue(E, W, cert) == IF cert.kind = "few" THEN Approved(E) \subseteq W ELSE cert.kind = "system"
Holds(prop, E, W, q) ==
    CASE prop = "jr"   -> JR(E, W, q)
      [] prop = "pjr"  -> PJR(E, W, q)
      [] prop = "ejr"  -> EJR(E, W, q)
      [] prop = "ejr+" -> EJRplus(E, W, q)
      [] prop = "fjr"  -> FJR(E, W, q)
      [] prop = "core" -> InCore(E, W, q)
      [] prop = "pareto" -> Pareto(E, W)
=============================================================================
