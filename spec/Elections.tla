----------------------------- MODULE Elections -----------------------------
(***************************************************************************)
(* Approval elections.  An election E is a record                          *)
(*   m : number of candidates; the candidates are 0 .. m-1                 *)
(*   n : number of voters;     the voters are 1 .. n                       *)
(*   A : A[v] is the set of candidates approved by voter v                 *)
(*   w : w[v] is the weight of voter v, a positive rational                *)
(*   k : committee size                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, Rationals

Zero == R(0)
One  == R(1)
Cands(E)      == 0 .. (E.m - 1)
Voters(E)     == 1 .. E.n
(* the subsets of S with k elements; the set map makes TLC build an ordinary (normalised) set: with the *)
(* raw value of kSubset, membership after Cardinality is answered wrongly by TLC 1.8                      *)
KSub(k, S) == {X : X \in kSubset(k, S)}
Committees(E) == KSub(E.k, Cands(E))

Election(m, A, w, k) == [m |-> m, n |-> Len(A), A |-> A, w |-> w, k |-> k]
UnitWeights(n) == [v \in 1..n |-> One]
IsUnit(E)     == \A v \in Voters(E) : E.w[v] = One

(* sums over voters *)
NonEmptySubsets(S) == (SUBSET S) \ {{}}
SumV(E, f(_)) == RSum([v \in Voters(E) |-> f(v)])
WSumV(E, f(_)) == RSum([v \in Voters(E) |-> RMul(E.w[v], f(v))])
Weight(E, V)  == RSum([v \in Voters(E) |-> IF v \in V THEN E.w[v] ELSE Zero])
TotalWeight(E) == RSum(E.w)

Supporters(E, c)  == {v \in Voters(E) : c \in E.A[v]}
SupportersOf(E, S) == {v \in Voters(E) : E.A[v] \cap S # {}}
Approved(E)       == UNION {E.A[v] : v \in Voters(E)}
ApprovalWeight(E, c) == Weight(E, Supporters(E, c))
Util(E, v, W)     == Cardinality(E.A[v] \cap W)

(* arg max / arg min of a rational-valued function on a finite set *)
ArgMax(S, f(_)) == IF S = {} THEN {} ELSE
                   LET g == [x \in S |-> f(x)]
                       b == RMaxS({g[x] : x \in S})
                   IN  {x \in S : g[x] = b}
ArgMin(S, f(_)) == IF S = {} THEN {} ELSE
                   LET g == [x \in S |-> f(x)]
                       b == RMinS({g[x] : x \in S})
                   IN  {x \in S : g[x] = b}

(* lexicographic comparison of sequences of rationals of equal length *)
LexLt(a, b) == \E i \in 1..Len(a) : RLt(a[i], b[i]) /\ \A j \in 1..(i-1) : a[j] = b[j]
(* lexicographically maximal / minimal arguments, computed coordinate by coordinate *)
RECURSIVE LexBest(_, _, _, _, _)
LexBest(S, g, i, len, max) ==
    IF i > len \/ Cardinality(S) <= 1 THEN S
    ELSE LET b == IF max THEN RMaxS({g[x][i] : x \in S}) ELSE RMinS({g[x][i] : x \in S})
         IN  LexBest({x \in S : g[x][i] = b}, g, i + 1, len, max)
ArgLexMax(S, f(_), len) == LET g == [x \in S |-> f(x)] IN LexBest(S, g, 1, len, TRUE)
ArgLexMin(S, f(_), len) == LET g == [x \in S |-> f(x)] IN LexBest(S, g, 1, len, FALSE)
(* sorts a sequence of integers in descending order *)
SortDesc(s) == SortSeq(s, LAMBDA a, b : a > b)
SortAsc(s)  == SortSeq(s, LAMBDA a, b : a < b)
SetToAscSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
=============================================================================
