------------------------------ MODULE Phragmen ------------------------------
(* Optimal load / support distributions for a fixed committee, in the dual   *)
(* (Hall-type) form: no linear programs, only subsets of the committee.      *)
EXTENDS Elections


(* Supported: every member of W has a supporter *)
Supported(E, W) == W \subseteq Approved(E)

(* minimax load: the smallest possible maximum load when every member's unit *)
(* load is spread over its supporters; a voter of weight w carries w times   *)
(* its load                                                                  *)
MinimaxLoad(E, W) == RMaxS({RDiv(R(Cardinality(S)), Weight(E, SupportersOf(E, S))) : S \in NonEmptySubsets(W)})

(* maximin support: the largest possible minimum support of a member when    *)
(* every voter spreads its weight over its approved members                  *)
MaximinSupport(E, W) == RMinS({RDiv(Weight(E, SupportersOf(E, S)), R(Cardinality(S))) : S \in NonEmptySubsets(W)})

(* leximax-optimal loads: the supporters of the largest densest set get its  *)
(* density as load; continue with the other members and voters               *)
RECURSIVE LeximaxLoads(_, _, _, _)
LeximaxLoads(E, W, V, load) ==
    IF W = {} THEN load
    ELSE LET dens == [S \in NonEmptySubsets(W) |-> RDiv(R(Cardinality(S)), Weight(E, SupportersOf(E, S) \cap V))]
             top  == RMaxS({dens[S] : S \in DOMAIN dens})
             T    == UNION {S \in DOMAIN dens : dens[S] = top}
             N    == SupportersOf(E, T) \cap V
         IN  LeximaxLoads(E, W \ T, V \ N, [v \in DOMAIN load |-> IF v \in N THEN top ELSE load[v]])
OptLoads(E, W) == LeximaxLoads(E, W, Voters(E), [v \in Voters(E) |-> Zero])

(* descending load profile as pairs <<load, total weight of voters with that load>>: *)
(* two profiles are compared as step functions, i.e. a voter of weight w      *)
(* counts as w voters                                                         *)
RECURSIVE StepLt(_, _)
StepLt(a, b) ==      \* a, b: sequences of <<load, weight>>, loads strictly descending, equal total weight
    IF a = <<>> \/ b = <<>> THEN FALSE
    ELSE IF a[1][1] # b[1][1] THEN RLt(a[1][1], b[1][1])
    ELSE IF a[1][2] = b[1][2] THEN StepLt(Tail(a), Tail(b))
    ELSE IF RLt(a[1][2], b[1][2])
         THEN StepLt(Tail(a), <<<<b[1][1], RSub(b[1][2], a[1][2])>>>> \o Tail(b))
         ELSE StepLt(<<<<a[1][1], RSub(a[1][2], b[1][2])>>>> \o Tail(a), Tail(b))
LoadSteps(E, W) ==
    LET l == OptLoads(E, W)
        vals == {l[v] : v \in Voters(E)}
        desc == SetToSortSeq(vals, LAMBDA x, y : RLt(y, x))
    IN  [i \in 1..Len(desc) |-> <<desc[i], Weight(E, {v \in Voters(E) : l[v] = desc[i]})>>]

(* all approved candidates plus unapproved ones *)
FewApproved(E) == Cardinality(Approved(E)) < E.k
FillWinners(E) == {W \in Committees(E) : Approved(E) \subseteq W}

MinimaxPhragmenWinners(E) ==
    IF FewApproved(E) THEN FillWinners(E)
    ELSE ArgMin({W \in Committees(E) : Supported(E, W)}, LAMBDA W : MinimaxLoad(E, W))
LeximaxPhragmenWinners(E) ==
    IF FewApproved(E) THEN FillWinners(E)
    ELSE LET S == {W \in Committees(E) : Supported(E, W)}
             g == [W \in S |-> LoadSteps(E, W)]
         IN  {W \in S : \A X \in S : ~ StepLt(g[X], g[W])}
=============================================================================
