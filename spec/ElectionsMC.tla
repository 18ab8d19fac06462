----------------------------- MODULE ElectionsMC -----------------------------
(***************************************************************************)
(* What the specification says about single elections and committees,       *)
(* checked on all small elections and committees.            GROUP picks  *)
(*   axioms    implications between the axioms, their equivalent forms      *)
(*   optimal   the optimisation rules: refinements, dualities, guarantees   *)
(*   relations weights as copies, scaling, renaming, merging, monotonicity  *)
(*   parties   party-list elections: rules against methods of apportionment *)
(*   across    joined electorates, irrelevant ballots, rules among themselves *)
(*   judge     the judgement of recorded results accepts exactly the truth  *)
(***************************************************************************)
EXTENDS Judge, SmallElections, IOUtils

(* parties of at most three candidates with one to four votes; voters without approvals do not matter here *)
PartyElections(ms, vs) ==
    {Election(m, [v \in 1..Len(x) |-> {c \in 0..(m - 1) : f[c] = v}], x, k) :
        <<m, f, x, k>> \in UNION {UNION {{<<m, f, x, k>> : f \in {g \in [0..(m - 1) -> 0..Len(x)] : \A c \in 1..(m - 1) : g[c - 1] <= g[c]}, k \in 1..m}
                                  : x \in UNION {{y \in [1..n -> vs] : TRUE} : n \in 1..3}} : m \in ms}}
PartyUsed == IF IOEnv.DEPTH = "quick" THEN PartyElections(1..4, {One, R(2)}) \cup PartyElections({3}, {One, RFrac(3, 2)})
             ELSE PartyElections(1..4, {One, R(2), RFrac(3, 2)}) \cup PartyElections({5}, {One, R(2)})
ElectionsUsed == IF IOEnv.GROUP = "parties" THEN PartyUsed ELSE IF IOEnv.DEPTH = "quick" THEN Small ELSE Deeper
VARIABLES E, W, ready
(* the committee is chosen in a step, so that the workers of TLC share the work *)
Init == E \in ElectionsUsed /\ W = {} /\ ready = FALSE
Next == /\ ~ ready /\ ready' = TRUE /\ UNCHANGED E
        /\ W' \in IF IOEnv.GROUP = "axioms" THEN NonEmptySubsets(Cands(E)) ELSE {{}}
Spec == Init /\ [][Next]_<<E, W, ready>>
On(g) == ready /\ IOEnv.GROUP = g
Hare == RDiv(TotalWeight(E), R(E.k))
Quotas == {Hare, RDiv(TotalWeight(E), R(E.k + 1)), RMul(RFrac(3, 2), Hare), RDiv(TotalWeight(E), R(E.m))}

(* ---------------------------------------------------------------- axioms *)
Implied == On("axioms") => \A q \in Quotas :
    /\ InCore(E, W, q) => FJR(E, W, q)
    /\ FJR(E, W, q) => EJR(E, W, q)
    /\ EJRplus(E, W, q) => EJR(E, W, q)
    /\ EJR(E, W, q) => PJR(E, W, q)
    /\ PJR(E, W, q) => JR(E, W, q)
LargerQuota == On("axioms") => \A q, x \in Quotas : RLt(q, x) =>
    \A p \in {"jr", "pjr", "ejr", "ejr+", "fjr", "core"} : Holds(p, E, W, q) => Holds(p, E, W, x)
(* the definitions over all groups of voters, not only the largest group for a set of candidates *)
Groups == NonEmptySubsets(Voters(E))
Common(G) == {c \in Cands(E) : \A v \in G : c \in E.A[v]}
Joint(G) == UNION {E.A[v] : v \in G}
Deserves(G, l, q) == RLe(Times(l, q), Weight(E, G)) /\ l <= Cardinality(Common(G))
ByGroups == On("axioms") => \A q \in {Hare, RDiv(TotalWeight(E), R(E.k + 1))} :
    /\ JR(E, W, q) <=> \A G \in Groups : Deserves(G, 1, q) => \E v \in G : Util(E, v, W) >= 1
    /\ EJR(E, W, q) <=> \A G \in Groups, l \in 1..E.m : Deserves(G, l, q) => \E v \in G : Util(E, v, W) >= l
    /\ PJR(E, W, q) <=> \A G \in Groups, l \in 1..E.m : Deserves(G, l, q) => Cardinality(Joint(G) \cap W) >= l
    /\ EJRplus(E, W, q) <=> \A G \in Groups, l \in 1..E.m :
            RLe(Times(l, q), Weight(E, G)) /\ Common(G) \ W # {} => \E v \in G : Util(E, v, W) >= l
    /\ FJR(E, W, q) <=> \A G \in Groups, T \in NonEmptySubsets(Cands(E)) : \A b \in 1..Cardinality(T) :
            RLe(Times(Cardinality(T), q), Weight(E, G)) /\ (\A v \in G : Util(E, v, T) >= b) => \E v \in G : Util(E, v, W) >= b
    /\ InCore(E, W, q) <=> \A G \in Groups, T \in NonEmptySubsets(Cands(E)) :
            RLe(Times(Cardinality(T), q), Weight(E, G)) => \E v \in G : Util(E, v, W) >= Util(E, v, T)
EverybodyHappy == On("axioms") /\ Approved(E) \subseteq W =>
    \A p \in {"jr", "pjr", "ejr", "ejr+", "fjr", "core", "pareto"} : Holds(p, E, W, Hare)

(* --------------------------------------------------------------- optimal *)
TR(id) == [id |-> "thiele", sf |-> id, p |-> "2/1", comp |-> "none"]
OR(id) == [id |-> id, sf |-> "", p |-> "0/1", comp |-> "none"]
MR(id, sf) == [id |-> id, sf |-> SFp(sf, R(2)), comp |-> "none", bud |-> Zero]
Win(r) == OptWinners(E, r)
Every(Ws, Q(_)) == \A X \in Ws : Q(X)
Nonempty == On("optimal") => \A r \in {TR("pav"), TR("cc"), OR("lexcc"), OR("minimaxphragmen"), OR("leximaxphragmen"), OR("minimaxav"),
                                       OR("lexminimaxav"), OR("av"), OR("sav"), OR("eph")} :
    Win(r) # {} /\ Every(Win(r), LAMBDA X : Cardinality(X) = E.k)
Refines == On("optimal") =>
    /\ Win(OR("lexcc")) \subseteq Win(TR("cc"))
    /\ Win(OR("lexminimaxav")) \subseteq Win(OR("minimaxav"))
    /\ Win(OR("leximaxphragmen")) \subseteq Win(OR("minimaxphragmen"))
    /\ Win(TR("av")) = Win(OR("av"))
    /\ SeparableResolute(E, "av") \in Win(OR("av")) /\ SeparableResolute(E, "sav") \in Win(OR("sav"))
Proportional == On("optimal") =>
    /\ Every(Win(TR("pav")), LAMBDA X : EJRplus(E, X, Hare))
    /\ Every(Win(TR("cc")), LAMBDA X : JR(E, X, Hare))
    /\ Every(Win(OR("leximaxphragmen")), LAMBDA X : PJR(E, X, Hare))
    /\ IsUnit(E) /\ E.n % E.k = 0 => Every(Win(OR("monroe")), LAMBDA X : JR(E, X, Hare))
ParetoOptimal == On("optimal") =>
    \A r \in {TR("pav"), TR("slav"), TR("av"), TR("geom"), OR("lexcc"), OR("sav")} : Every(Win(r), LAMBDA X : Pareto(E, X))
(* optimal loads: they carry the committee, and reach the dual bounds *)
Duality == On("optimal") => \A X \in Committees(E) : Supported(E, X) =>
    LET l == OptLoads(E, X) IN
    /\ RMul(MinimaxLoad(E, X), MaximinSupport(E, X)) = One
    /\ RMaxS({l[v] : v \in Voters(E)}) = MinimaxLoad(E, X)
    /\ RSum([v \in Voters(E) |-> RMul(E.w[v], l[v])]) = R(Cardinality(X))
MonroeBothWays == On("optimal") /\ IsUnit(E) => \A X \in Committees(E) : MonroeScore(E, X) = MonroeScoreDef(E, X)
(* the score of a committee is what its members gain one after the other, and lose *)
ScoresAdd == On("optimal") => \A X \in Committees(E), sf \in {SF("pav"), SF("cc"), SF("slav")} : \A c \in X :
    /\ ThieleScore(E, sf, X) = RAdd(ThieleScore(E, sf, X \ {c}), Gain(E, sf, X \ {c}, c))
    /\ Loss(E, sf, X, c) = Gain(E, sf, X \ {c}, c)
Completed == On("optimal") => \A c \in {"seqphragmen", "av"} : LET X == Outcomes(E, MESRule(c))  Y == Outcomes(E, MESRule("none")) IN
    /\ \A S \in X : Cardinality(S) = E.k /\ \E T \in Y : T \subseteq S
    /\ \A T \in Y : \E S \in X : T \subseteq S
Dictators == On("optimal") /\ IsUnit(E) => \A X \in RSDOutcomes(E) :
    Cardinality(X) = E.k /\ \E v \in Voters(E) : Cardinality(E.A[v] \cap X) = Least(E.k, Cardinality(E.A[v]))

(* ------------------------------------------------------------- relations *)
Machs == {MR("seqthiele", "pav"), MR("seqthiele", "cc"), MR("revseqthiele", "pav"), MR("seqphragmen", "pav"), MR("mes", "pav"),
          MR("enestroem", "pav"), MR("consensus", "pav"), MR("maximin", "pav")}
Opts  == {TR("pav"), TR("cc"), OR("lexcc"), OR("minimaxphragmen"), OR("leximaxphragmen"), OR("minimaxav"), OR("av"), OR("sav"), OR("eph")}
SameOutcomes(X, f(_)) ==
    /\ \A r \in Machs : Outcomes(X, r) = {f(S) : S \in Outcomes(E, r)}
    /\ \A r \in Opts : OptWinners(X, r) = {f(S) : S \in OptWinners(E, r)}
Id(S) == S
IntWeights == \A v \in Voters(E) : RIsInt(E.w[v])
CopiesOf(X) == LET RECURSIVE f(_)
                   f(v) == IF v = 0 THEN <<>> ELSE f(v - 1) \o [x \in 1..RFloor(X.w[v]) |-> X.A[v]]
               IN  LET A == f(X.n) IN Election(X.m, A, UnitWeights(Len(A)), X.k)
MergedOf(X) == LET q == SetToSeq({X.A[v] : v \in Voters(X)})
               IN  Election(X.m, q, [i \in 1..Len(q) |-> RSum([v \in Voters(X) |-> IF X.A[v] = q[i] THEN X.w[v] ELSE Zero])], X.k)
WeightsAreCopies == On("relations") /\ IntWeights /\ ~ IsUnit(E) => Copies(E, CopiesOf(E)) /\ SameOutcomes(CopiesOf(E), Id)
MergingIsHarmless == On("relations") /\ Cardinality(Ballots(E)) < E.n => Merged(E, MergedOf(E)) /\ SameOutcomes(MergedOf(E), Id)
ScaleFree == On("relations") /\ E.n <= 2 => SameOutcomes([E EXCEPT !.w = [v \in Voters(E) |-> RMul(RFrac(3, 2), @[v])]], Id)
Swap == [c \in 0..(E.m - 1) |-> IF c = 0 THEN E.m - 1 ELSE IF c = E.m - 1 THEN 0 ELSE c]
SwapSet(S) == {Swap[c] : c \in S}
Neutral == On("relations") /\ E.m > 1 => SameOutcomes([E EXCEPT !.A = [v \in Voters(E) |-> SwapSet(@[v])]], SwapSet)
Anonymous == On("relations") /\ E.n > 1 =>
    SameOutcomes([E EXCEPT !.A = [v \in Voters(E) |-> @[E.n + 1 - v]], !.w = [v \in Voters(E) |-> @[E.n + 1 - v]]], Id)
CommitteeMonotone == On("relations") /\ E.k < E.m =>
    \A r \in {MR("seqthiele", "pav"), MR("seqthiele", "slav"), MR("revseqthiele", "pav"), MR("seqphragmen", "pav"), MR("maximin", "pav"), MR("consensus", "pav")} :
        \A S \in ResOutcome(E, r), T \in ResOutcome([E EXCEPT !.k = @ + 1], r) : S \subseteq T
Unan == On("relations") /\ (\A v \in Voters(E) : E.A[v] = E.A[1]) =>
    LET ok(S) == IF Cardinality(E.A[1]) >= E.k THEN S \subseteq E.A[1] ELSE E.A[1] \subseteq S IN
    /\ \A r \in {TR("pav"), TR("slav"), TR("geom"), OR("av"), OR("sav"), OR("lexcc"), OR("minimaxphragmen"), OR("leximaxphragmen"), OR("minimaxav")} :
          Every(OptWinners(E, r), ok)
    /\ \A r \in {MR("seqthiele", "pav"), MR("revseqthiele", "pav"), MR("seqphragmen", "pav"), MR("maximin", "pav"), MR("enestroem", "pav")} :
          Every(Outcomes(E, r), ok)
    /\ Every(Outcomes(E, MESRule("seqphragmen")), ok)

(* ---------------------------------------------------------------- judge *)
(* the judgement of recorded results: the true outcome passes, every lie about it is noticed *)
Texts(Ws) == SetToSeq({SetToSeq(X) : X \in Ws})
Call(res, mx, Ws) == [alg |-> "x", res |-> res, max |-> mx, out |-> Texts(Ws), err |-> ""]
JudgedRules == {TR("pav"), OR("minimaxphragmen"), OR("leximaxphragmen"), OR("minimaxav"), OR("sav"), OR("eph")}
               \cup {OR(id) : id \in {"seqphragmen", "mes", "enestroem", "consensus", "maximin"}} \cup {[TR("pav") EXCEPT !.id = "seqthiele"]}
JudgeRec(r, calls) == [kind |-> "rule", m |-> E.m, A |-> [v \in Voters(E) |-> SetToSeq(E.A[v])], w |-> E.w, k |-> E.k, rule |-> r,
                       resonly |-> FALSE, calls |-> calls]
Clauses(r, fin, res, call) == RuleFails(JudgeRec(r, <<call>>), fin, res)
JudgeOn(r) ==
    LET mach == r.id \in MachineIds
        fin == IF mach THEN Outcomes(E, RuleOf(r)) ELSE {}
        res == IF mach THEN ResOutcome(E, RuleOf(r)) ELSE {}
        win == IF mach THEN fin ELSE OptWinners(E, r)
        rs  == IF mach THEN res ELSE OptResolute(E, r, win)
        some == CHOOSE X \in win : TRUE
        fails(c) == Clauses(r, fin, res, c) # {}
        other == {X \in SUBSET Cands(E) : X \notin win}
    IN  /\ ~ fails(Call(FALSE, 0, win)) /\ ~ fails(Call(FALSE, Cardinality(win) + 1, win)) /\ ~ fails(Call(FALSE, 1, {some}))
        /\ \A X \in win : fails(Call(FALSE, 0, win \ {X}))
        /\ \A X \in other : fails(Call(FALSE, 0, win \cup {X})) /\ fails(Call(FALSE, 1, {X})) /\ fails(Call(TRUE, 0, {X}))
        /\ Cardinality(win) > 1 => fails(Call(FALSE, 1, win)) /\ fails(Call(FALSE, 2, {some})) /\ fails(Call(TRUE, 0, win))
        /\ \A X \in rs : ~ fails(Call(TRUE, 0, {X}))
        /\ \A X \in win \ rs : fails(Call(TRUE, 0, {X}))
        /\ fails([Call(FALSE, 0, win) EXCEPT !.err = "ValueError"]) /\ fails(Call(FALSE, 0, {})) /\ fails(Call(TRUE, 0, {}))
JudgeIsExact == On("judge") => \A r \in JudgedRules : JudgeOn(r)
(* --------------------------------------------------------------- parties *)
Seats(Ws) == {SeatsOf(E, X) : X \in Ws}
PVotes == [p \in Parties(E) |-> Votes(E, p)]
AllSeats == Distribs(Parties(E), Caps(E), E.k)
NoSeats == [p \in Parties(E) |-> 0]
Div(sf) == {s \in AllSeats : IsDivisor(s, PVotes, Caps(E), sf)}
LRs == {s \in AllSeats : IsLargestRemainder(E, s)}
AllWith(S) == {X \in Committees(E) : SeatsOf(E, X) \in S}
Sfs == {SF("pav"), SF("slav"), SF("cc"), SFp("geom", R(2)), SF("av")}
ThieleId(sf) == [id |-> "thiele", sf |-> sf.id, p |-> IF sf.id = "geom" THEN sf.p ELSE "2/1", comp |-> "none"]
(* the divisor machine reaches exactly the characterised distributions *)
DivisorMachine == On("parties") => \A sf \in Sfs : DivisorRun({NoSeats}, PVotes, Caps(E), sf, E.k) = Div(sf) /\ Div(sf) # {}
ThieleDivisor == On("parties") => \A sf \in Sfs :
    /\ OptWinners(E, ThieleId(sf)) = AllWith(Div(sf))
    /\ Outcomes(E, MR("seqthiele", sf.id)) = AllWith(Div(sf))
    /\ Outcomes(E, MR("revseqthiele", sf.id)) = AllWith(Div(sf))
PhragmenDivisor == On("parties") =>
    /\ Outcomes(E, MR("seqphragmen", "pav")) = AllWith(Div(SF("pav")))
    /\ Outcomes(E, MR("maximin", "pav")) = AllWith(Div(SF("pav")))
    /\ OptWinners(E, OR("leximaxphragmen")) \subseteq AllWith(Div(SF("pav")))
    /\ \A X \in OptWinners(E, OR("minimaxphragmen")) : SeatsFit(E, "minload", SF("pav"), SeatsOf(E, X))
LargestRemainders == On("parties") /\ LRApplies(E) =>
    /\ Outcomes(E, MR("enestroem", "pav")) = AllWith(LRs) /\ LRs # {}
LowerQuotas == On("parties") =>
    /\ \A c \in {"seqphragmen", "none", "av"} : \A X \in Outcomes(E, MESRule(c)) : c # "none" => LowerQuota(E, SeatsOf(E, X))
    /\ \A X \in Outcomes(E, MR("enestroem", "pav")) : LRApplies(E) => LowerQuota(E, SeatsOf(E, X))
    /\ \A s \in Div(SF("pav")) : LowerQuota(E, s)
(* unit voters: Monroe's rule if every member stands for the same number of voters *)
UnitCopy == CopiesOf([E EXCEPT !.w = [v \in Voters(E) |-> RMul(R(2), @[v])]])
MonroeParties == On("parties") /\ IntWeights /\ UnitCopy.n % E.k = 0 /\ UnitCopy.n <= 8 /\ LRApplies(E) =>
    /\ MonroeWinners(UnitCopy) = AllWith(LRs)
    /\ \A X \in Outcomes(UnitCopy, MR("greedy-monroe", "pav")) : LowerQuota(UnitCopy, SeatsOf(UnitCopy, X))
CountedRight == On("parties") => \A sf \in Sfs : NumberAll(Div(sf), Caps(E)) = Cardinality(AllWith(Div(sf)))

(* ---------------------------------------------------------------- across *)
Part(V) == LET q == SetToSortSeq(V, LAMBDA a, b : a < b) IN Election(E.m, [i \in 1..Len(q) |-> E.A[q[i]]], [i \in 1..Len(q) |-> E.w[q[i]]], E.k)
JoinRules == {TR("pav"), TR("slav"), TR("cc"), TR("geom"), OR("lexcc"), OR("av"), OR("sav")} \cup (IF IsUnit(E) THEN {OR("lexminimaxav")} ELSE {})
Joining == On("across") /\ E.n > 1 => \A V \in NonEmptySubsets(Voters(E)) \ {Voters(E)} :
    LET X == Part(V)  Y == Part(Voters(E) \ V) IN
    /\ \A r \in JoinRules : LET both == OptWinners(X, r) \cap OptWinners(Y, r) IN both # {} => OptWinners(E, r) = both
    /\ OptWinners(X, OR("minimaxav")) \cap OptWinners(Y, OR("minimaxav")) \subseteq Win(OR("minimaxav"))
With(B) == [E EXCEPT !.n = @ + 1, !.A = Append(@, B), !.w = Append(@, R(2))]
NegOpts == {TR("pav"), TR("slav"), TR("cc"), TR("geom"), OR("lexcc"), OR("av"), OR("sav")}
NegSeq == {MR("seqthiele", "pav"), MR("seqthiele", "slav"), MR("seqthiele", "cc"), MR("revseqthiele", "pav"), MR("revseqthiele", "cc")}
PhrSeq == {MR("seqphragmen", "pav"), MR("maximin", "pav")}
EmptyBallots == On("across") =>
    /\ \A r \in NegOpts \cup {OR("minimaxphragmen"), OR("leximaxphragmen")} : OptWinners(With({}), r) = Win(r)
    /\ \A r \in NegSeq \cup PhrSeq : Outcomes(With({}), r) = Outcomes(E, r)
FullBallots == On("across") =>
    /\ \A r \in NegOpts : OptWinners(With(Cands(E)), r) = Win(r)
    /\ \A r \in NegSeq : Outcomes(With(Cands(E)), r) = Outcomes(E, r)
Newcomer == [E EXCEPT !.m = @ + 1]
NewCandidates == On("across") /\ Cardinality(Approved(E)) >= E.k =>
    /\ \A r \in {TR("pav"), TR("slav"), TR("geom"), OR("lexcc"), OR("av"), OR("sav"), OR("minimaxphragmen"), OR("leximaxphragmen")}
               \cup (IF IsUnit(E) THEN {OR("lexminimaxav")} ELSE {}) : OptWinners(Newcomer, r) = Win(r)
    /\ \A r \in {MR("seqthiele", "pav"), MR("seqthiele", "slav"), MR("revseqthiele", "pav")} \cup PhrSeq \cup {MESRule("seqphragmen"), MESRule("none")} :
          Outcomes(Newcomer, r) = Outcomes(E, r)
SingleSeats == On("across") /\ E.k = 1 =>
    LET best == {{c} : c \in ArgMax(Cands(E), LAMBDA c : ApprovalWeight(E, c))} IN
    /\ \A r \in {TR("pav"), TR("slav"), TR("cc"), TR("geom"), OR("lexcc"), OR("av"), OR("minimaxphragmen"), OR("leximaxphragmen")}
               \cup (IF IsUnit(E) THEN {OR("monroe")} ELSE {}) : Win(r) = best
    /\ \A r \in {MR("seqthiele", "pav"), MR("seqthiele", "cc"), MR("seqphragmen", "pav"), MR("maximin", "pav"), MR("enestroem", "pav"), MR("consensus", "pav"),
               MESRule("seqphragmen"), MESRule("av")} : Outcomes(E, r) = best
    /\ IsUnit(E) => \A X \in Outcomes(E, MR("greedy-monroe", "pav")) : X \in best
    /\ ~ FewApproved(E) => OptWinners(E, OR("increment")) \subseteq best
AllSeatsTaken == On("across") /\ E.k = E.m => \A r \in {TR("pav"), OR("minimaxphragmen"), OR("minimaxav"), OR("sav"), OR("increment")} : Win(r) = {Cands(E)}
(* ------------------------------------------------------------------- support *)
Sup(c, v) == [E EXCEPT !.A = [@ EXCEPT ![v] = @ \cup {c}]]
AloneFor(c) == [E EXCEPT !.n = @ + 1, !.A = Append(@, {c}), !.w = Append(@, R(2))]
Named == {<<"pav", TR("pav")>>, <<"slav", TR("slav")>>, <<"cc", TR("cc")>>, <<"geom2", TR("geom")>>, <<"lexcc", OR("lexcc")>>, <<"av", OR("av")>>,
          <<"minimaxphragmen", OR("minimaxphragmen")>>, <<"leximaxphragmen", OR("leximaxphragmen")>>, <<"minimaxav", OR("minimaxav")>>}
         \cup (IF IsUnit(E) THEN {<<"lexminimaxav", OR("lexminimaxav")>>} ELSE {})
ByApproval == Named \cup (IF IsUnit(E) THEN {<<"monroe", OR("monroe")>>} ELSE {})
SeqNew == {MR("seqthiele", "pav"), MR("seqthiele", "slav"), MR("seqthiele", "cc"), MR("seqphragmen", "pav"), MR("maximin", "pav")}
SeqMore == SeqNew \cup {MR("enestroem", "pav"), MR("consensus", "pav"), MESRule("seqphragmen"), MESRule("none"), MESRule("av")}
Supporting == On("support") =>
    /\ \A c \in Cands(E), v \in Voters(E) : c \notin E.A[v] =>
          /\ \A r \in ByApproval : Unharmed(r[1], c, Win(r[2]), OptWinners(Sup(c, v), r[2]))
          /\ \A r \in SeqMore : Unharmed("", c, Outcomes(E, r), Outcomes(Sup(c, v), r))
          /\ IsUnit(E) => \A S \in {Outcomes(E, MR("greedy-monroe", "pav"))} : InSome(c, S) => InSome(c, Outcomes(Sup(c, v), MR("greedy-monroe", "pav")))
    /\ \A c \in Cands(E) :
          /\ \A r \in {x \in Named : x[1] # "lexminimaxav"} : Unharmed(r[1], c, Win(r[2]), OptWinners(AloneFor(c), r[2]))
          /\ \A r \in SeqNew : Unharmed("", c, Outcomes(E, r), Outcomes(AloneFor(c), r))
Keep(D) == SetToSortSeq(Cands(E) \ D, LAMBDA a, b : a < b)
Drop(p) == [E EXCEPT !.m = Len(p), !.A = [v \in Voters(E) |-> {c \in 0..(Len(p) - 1) : p[c + 1] \in E.A[v]}]]
Losers == On("support") =>
    \A c \in Cands(E) : LET p == Keep({c})  X == Drop(p) IN E.m > E.k =>
        /\ \A r \in {x[2] : x \in {y \in ByApproval : y[1] \notin {"minimaxav", "lexminimaxav"}}} :
              ~ InSome(c, Win(r)) => {Back(p, S) : S \in OptWinners(X, r)} = Win(r)
        /\ \A r \in SeqMore : ~ InSome(c, Outcomes(E, r)) => {Back(p, S) : S \in Outcomes(X, r)} = Outcomes(E, r)
=============================================================================
