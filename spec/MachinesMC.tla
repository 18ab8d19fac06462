----------------------------- MODULE MachinesMC -----------------------------
(***************************************************************************)
(* The sequential rules (module Machines) explored exhaustively on all      *)
(* small elections with parallel-universes tie-breaking: invariants of the  *)
(* states, of the steps, and guarantees of the final committees.            *)
(***************************************************************************)
EXTENDS Machines, SmallElections, Axioms, IOUtils

Group == IOEnv.GROUP
ElectionsUsed == IF IOEnv.DEPTH = "quick" THEN Small ELSE Deeper
RulesUsed ==
    CASE Group = "seqthiele"    -> {ThieleRule("seqthiele", sf) : sf \in {SF("pav"), SF("slav"), SF("cc"), SF("av"), SFp("geom", R(2))}}
      [] Group = "revseqthiele" -> {ThieleRule("revseqthiele", sf) : sf \in {SF("pav"), SF("slav"), SF("cc"), SFp("geom", R(2))}}
      [] Group = "mes"          -> {MESRule("none"), MESRule("seqphragmen")}
      [] OTHER                  -> {Rule(Group)}
Needs(E) == Group # "greedy-monroe" \/ IsUnit(E)

VARIABLES E, r, u
vars == <<E, r, u>>
Init == /\ E \in {X \in ElectionsUsed : Needs(X)}
        /\ r \in RulesUsed
        /\ u = InitU(E, r)
Next == /\ ~ Done(E, r, u)
        /\ \E c \in Best(E, r, u) : u' = Apply(E, r, u, c)
        /\ UNCHANGED <<E, r>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Total(b) == RSum(b)
MaxLoad(l) == RMaxS({l[v] : v \in Voters(E)})
HareQuota == RDiv(TotalWeight(E), R(E.k))

(* ---------------------------------------------------------------- states *)
Typed == /\ u.W \subseteq Cands(E)
         /\ IF r.id = "revseqthiele" THEN Cardinality(u.W) >= E.k ELSE Cardinality(u.W) <= E.k
NeverStuck == Done(E, r, u) \/ Best(E, r, u) # {}
BestIsOpen == Done(E, r, u) \/ Best(E, r, u) \subseteq (IF r.id = "revseqthiele" THEN u.W ELSE Cands(E) \ u.W)
ResoluteIsPossible == Done(E, r, u) \/ SuccRes(E, r, u) \subseteq SuccPUT(E, r, u)
PhragmenLoads == r.id = "seqphragmen" =>
    /\ \A v \in Voters(E) : NonNeg(u.aux[v])
    /\ RSum([v \in Voters(E) |-> RMul(E.w[v], u.aux[v])]) = R(Cardinality(u.W \cap Approved(E)))
    /\ u.W # {} /\ u.W \subseteq Approved(E) => RLe(MinimaxLoad(E, u.W), MaxLoad(u.aux))
EqualSharesBudgets == r.id = "mes" /\ u.ph = 1 =>
    /\ \A v \in Voters(E) : NonNeg(u.aux[v])
    /\ Total(u.aux) = R(E.k - Cardinality(u.W))
EqualSharesPayments == r.id = "mes" /\ MESRunning(E, r, u) => \A c \in MESAff(E, u.W, u.aux) :
    LET p == Pay(E, u.aux, c)  q == MinQ(E, u.aux, c) IN
    /\ Total(p) = One
    /\ \A v \in Voters(E) : NonNeg(p[v]) /\ RLe(p[v], u.aux[v]) /\ (c \notin E.A[v] => p[v] = Zero)
    (* nobody pays more than q per unit of weight, and who pays less gives everything *)
    /\ \A v \in Supporters(E, c) : RLe(p[v], RMul(q, E.w[v])) /\ (p[v] # RMul(q, E.w[v]) => p[v] = u.aux[v])
EnestroemBudgets == r.id = "enestroem" => \A v \in Voters(E) : NonNeg(u.aux[v]) /\ RLe(u.aux[v], E.w[v])
MonroeDistricts == r.id = "greedy-monroe" => E.n - Cardinality(u.aux) <= Cardinality(u.W) * ((E.n + E.k - 1) \div E.k)

(* ----------------------------------------------------------------- steps *)
OneAtATime == [][ IF r.id = "revseqthiele" THEN u'.W \subseteq u.W /\ Cardinality(u'.W) = Cardinality(u.W) - 1
                  ELSE u.W \subseteq u'.W /\ Cardinality(u'.W) = Cardinality(u.W) + 1 ]_u
ThieleTelescopes == [][ r.id = "seqthiele" => LET c == CHOOSE x \in u'.W : x \notin u.W IN
                        /\ ThieleScore(E, r.sf, u'.W) = RAdd(ThieleScore(E, r.sf, u.W), Gain(E, r.sf, u.W, c))
                        /\ \A d \in Cands(E) \ u'.W : RLe(Gain(E, r.sf, u'.W, d), Gain(E, r.sf, u.W, d)) ]_u
RevThieleTelescopes == [][ r.id = "revseqthiele" => LET c == CHOOSE x \in u.W : x \notin u'.W IN
                        ThieleScore(E, r.sf, u'.W) = RSub(ThieleScore(E, r.sf, u.W), Loss(E, r.sf, u.W, c)) ]_u
LoadsGrow == [][ r.id = "seqphragmen" => /\ \A v \in Voters(E) : RLe(u.aux[v], u'.aux[v])
                                         /\ RLe(MaxLoad(u.aux), MaxLoad(u'.aux)) ]_u
(* who buys a candidate carries the largest load afterwards *)
BuyersCarryMost == [][ r.id = "seqphragmen" => LET c == CHOOSE x \in u'.W : x \notin u.W IN
                        \A v \in Supporters(E, c) : u'.aux[v] = MaxLoad(u'.aux) ]_u
PricesGrow == [][ (r.id = "mes" /\ MESRunning(E, r, u)) =>
                    \A d \in MESAff(E, u'.W, u'.aux) : u'.ph = 1 => RLe(MinQ(E, u.aux, CHOOSE x \in u'.W : x \notin u.W), MinQ(E, u'.aux, d)) ]_u
EnestroemPrice == [][ r.id = "enestroem" => LET paid == RSub(Total(u.aux), Total(u'.aux)) IN
                        NonNeg(paid) /\ RLe(paid, HareQuota) ]_u
ConsensusPays == [][ r.id = "consensus" => LET inc == RSub(Total(u'.aux), Total(u.aux))
                                               c == CHOOSE x \in u'.W : x \notin u.W IN
                        inc = IF ConPayers(E, ConEarn(E, u.aux), c) = {} THEN TotalWeight(E) ELSE Zero ]_u
SupportShrinks == [][ r.id = "maximin" /\ u.W # {} => RLe(MaximinSupport(E, u'.W), MaximinSupport(E, u.W)) ]_u

(* ------------------------------------------------------ final committees *)
Final == Done(E, r, u)
CommitteeSize == Final => (Cardinality(u.W) = E.k \/ (r.id = "mes" /\ r.comp = "none"))
ProportionalPJR == Final /\ r.id \in {"seqphragmen", "maximin", "enestroem"} => PJR(E, u.W, HareQuota)
ProportionalEJR == Final /\ r.id = "mes" => EJRplus(E, u.W, HareQuota)
GreedyCCisJR == Final /\ r.id = "seqthiele" /\ r.sf.id \in {"cc", "pav"} => JR(E, u.W, HareQuota)
GreedyMonroeIsJR == Final /\ r.id = "greedy-monroe" /\ E.n % E.k = 0 => JR(E, u.W, HareQuota)
SeqAVisAV == Final /\ r.id = "seqthiele" /\ r.sf.id = "av" => u.W \in SeparableWinners(E, "av")
(* a committee that everybody agrees on *)
Unanimous == \E S \in SUBSET Cands(E) : S # {} /\ \A v \in Voters(E) : E.A[v] = S
Unanimity == Final /\ Unanimous /\ (r.id \in {"seqphragmen", "mes", "enestroem", "consensus", "maximin"}
                                    \/ (r.id \in {"seqthiele", "revseqthiele"} /\ r.sf.id \in {"pav", "slav", "geom"})) =>
             (u.W \subseteq E.A[1] \/ E.A[1] \subseteq u.W)
OutcomesAgree == u = InitU(E, r) => /\ ResOutcome(E, r) \subseteq Outcomes(E, r)
                                    /\ Cardinality(ResOutcome(E, r)) = 1
Terminates == <>Final
=============================================================================
