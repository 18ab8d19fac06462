----------------------------- MODULE OtherRules -----------------------------
(* Optimisation rules that are neither Thiele nor Phragmen rules.            *)
EXTENDS Elections

(* AV and SAV *)
AVScore(E, c)  == ApprovalWeight(E, c)
SAVScore(E, c) == RSum([v \in Voters(E) |-> IF c \in E.A[v] THEN RDiv(E.w[v], R(Cardinality(E.A[v]))) ELSE Zero])
(* committees of k candidates such that nobody outside beats anybody inside *)
TopK(E, f(_)) == LET s == [c \in Cands(E) |-> f(c)]
                 IN  {W \in Committees(E) : \A x \in W, y \in Cands(E) \ W : RLe(s[y], s[x])}
SeparableWinners(E, id) == IF id = "av" THEN TopK(E, LAMBDA c : AVScore(E, c)) ELSE TopK(E, LAMBDA c : SAVScore(E, c))
(* ties at the cutoff in favour of lower-numbered candidates *)
SeparableResolute(E, id) ==
    LET s == [c \in Cands(E) |-> IF id = "av" THEN AVScore(E, c) ELSE SAVScore(E, c)]
        beats(x, y) == RLt(s[y], s[x]) \/ (s[x] = s[y] /\ x < y)
    IN  {c \in Cands(E) : Cardinality({d \in Cands(E) : d # c /\ beats(d, c)}) < E.k}

(* Hamming distances *)
Ham(a, b) == Cardinality(a \ b) + Cardinality(b \ a)
MaxHam(E, W) == MaxOf({Ham(E.A[v], W) : v \in Voters(E)})
HamVector(E, W) == SortDesc([v \in Voters(E) |-> Ham(E.A[v], W)])
MAVWinners(E) == LET g == [W \in Committees(E) |-> MaxHam(E, W)]
                     b == MinOf({g[W] : W \in DOMAIN g})
                 IN  {W \in DOMAIN g : g[W] = b}
LexMAVWinners(E) == LET g == [W \in Committees(E) |-> LET h == HamVector(E, W) IN [i \in 1..E.n |-> R(h[i])]]
                    IN  LexBest(DOMAIN g, g, 1, E.n, FALSE)

(* Monroe: the largest number of voters that an assignment giving every      *)
(* member floor(n/k) or ceil(n/k) voters can represent (capacitated Koenig)  *)
MonroeScore(E, W) ==
    LET kk == Cardinality(W)
        l  == E.n \div kk
        r  == E.n % kk
        NW == [S \in SUBSET W |-> Cardinality(SupportersOf(E, W \ S))]
    IN  MaxOf({ MinOf({ l * Cardinality(S) + Cardinality(S \cap B) + NW[S] : S \in SUBSET W }) : B \in KSub(r, W) })
MonroeWinners(E) == LET g == [W \in Committees(E) |-> MonroeScore(E, W)]
                        b == MaxOf({g[W] : W \in DOMAIN g})
                    IN  {W \in DOMAIN g : g[W] = b}
(* the same by definition, for cross-checking on tiny elections *)
BalancedAssignments(E, W) ==
    LET kk == Cardinality(W) IN
    {f \in [Voters(E) -> W] : \A c \in W : Cardinality({v \in Voters(E) : f[v] = c})
                                            \in {E.n \div kk, (E.n + kk - 1) \div kk}}
MonroeScoreDef(E, W) == MaxOf({Cardinality({v \in Voters(E) : f[v] \in E.A[v]}) : f \in BalancedAssignments(E, W)})

TrivialWinners(E) == Committees(E)
=============================================================================
